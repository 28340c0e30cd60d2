// Compiled with clang -fsanitize=thread (instrumentation only; the runtime is c06.cc).
#include "pandaresampler.hh"
#include "c06.hh"
using R = PandaResampler::Resampler2;

extern "C" void *
ops_new (const OpCfg *c)
{
  return new R (R::Mode (c->mode), c->ratio, R::Precision (c->prec), c->sse, R::Filter (c->filt));
}
extern "C" void
ops_process (void *r, const float *in, unsigned n, float *out)
{
  static_cast<R *> (r)->process_block (in, n, out);
}
extern "C" void ops_reset (void *r)  { static_cast<R *> (r)->reset(); }
extern "C" void ops_delete (void *r) { delete static_cast<R *> (r); }
extern "C" void *
ops_move (void *r)
{
  R *n = new R (std::move (*static_cast<R *> (r)));
  delete static_cast<R *> (r);
  return n;
}
extern "C" void
ops_meta (void *r, float *out)
{
  out[0] = static_cast<R *> (r)->order();
  out[1] = static_cast<R *> (r)->delay();
  out[2] = static_cast<R *> (r)->sse_enabled();
  out[3] = R::sse_available();
}
extern "C" void
ops_names (float *out)
{
  const int p[] = { 1, 8, 12, 16, 20, 24, 99 };
  for (int i = 0; i < 7; i++)
    {
      const char *s = R::precision_name (R::Precision (p[i]));
      rt_boundary();
      unsigned h = 0;
      for (; *s; s++)
        h = h * 31 + (unsigned char) *s;
      out[i] = h & 0xfffff;
    }
  out[7] = R::find_precision_for_bits (14);
}
