// C23: a block of odd length for a FIR ratio 2 downsampler is reported and ignored.
#include "rs.hh"
#include <sys/mman.h>
using namespace mc;
using std::vector;

static void
explore (Ctx& ctx, const Cfg& c)
{
  const bool th = ctx.thorough;
  ErrCapture err;
  Exec ex (20000);
  vector<float> x (60000);
  for (size_t i = 0; i < x.size(); i++)
    x[i] = dense (i, 41);
  Arena in (10000), out (10000);
  const uint O = c.make().order();
  // blocks: (samples); odd ones have to be ignored
  auto trace = [&] (const vector<uint>& sizes) {
    std::string s;
    for (uint n : sizes)
      s += (s.empty() ? "" : " ") + std::to_string (n);
    if (!ctx.begin ("blocks of %s samples", s.c_str()))
      return;
    R r = c.make(), ref = c.make();
    err.take();
    vector<float> y, e;
    size_t pos = 0;
    uint64_t st = 0;
    for (uint n : sizes)
      {
        if (n & 1)
          {
            // contents must not matter
            float *pi = in.at (16 + (n / 2 & 3)), *po = out.at (16);
            for (uint i = 0; i < n; i++)
              pi[i] = 1000 + i;
            for (uint i = 0; i < n + 32; i++)
              po[int (i) - 16] = -777;
            r.process_block (pi, n, po);
            if (!err.take())
              ctx.fail ("no diagnostics for a block of %u samples", n);
            for (uint i = 0; i < n + 32; i++)
              if (po[int (i) - 16] != -777)
                ctx.fail ("block of %u samples: output %d was written (%g)", n, int (i) - 16, double (po[int (i) - 16]));
            for (uint i = 0; i < n; i++)
              if (pi[i] != 1000 + i)
                ctx.fail ("block of %u samples: input was modified", n);
          }
        else
          {
            ex.step (r, c, { n / 2, n / 2 & 3, 0 }, x, pos, y);
            ex.step (ref, c, { n / 2, n / 2 & 3, 0 }, x, pos, e);
            pos += n / 2;
            if (err.take())
              ctx.fail ("diagnostics for an even number of samples (%u)", n);
          }
        const uint64_t nx = mix (st, n);
        ctx.state (nx);
        ctx.transition (mix (st, nx));
        st = nx;
      }
    for (size_t i = 0; i < e.size(); i++)
      if (!same_value (y[i], e[i]))
        ctx.fail ("output %zu is %.9g, without the odd blocks it is %.9g", i, double (y[i]), double (e[i]));
    ctx.eval (e.size() + 1);
    ctx.outcome (hash_out (y));
  };
  vector<uint> odd;
  for (uint n = 1; n <= 2 * O + 41; n += 2)
    odd.push_back (n);
  for (uint n : { 255, 511, 1023, 1025, 2045, 2047, 2049, 2051, 4095, 4097, 6145, 8193, 9001 })
    odd.push_back (n);
  for (uint n : odd)
    for (uint before : { 0u, 2u, 8u, O, 2 * O - 2, 2 * O, 2048u, 2050u })
      for (uint after : { 2u, 10u, 2 * O, 2 * O + 20, 2050u })
        {
          if (before)
            trace ({ before, n, after, 200 });
          else
            trace ({ n, after, 200 });
        }
  vector<uint> K = { 0, 1, 2, 3, 7, 10, O - 1, O, 2 * O - 1, 2 * O, 2 * O + 1, 2 * O + 15, 2 * O + 14 };
  for (uint a : K) for (uint b : K) for (uint d : K)
    trace ({ a, b, d, 200 });
  for (uint a : K) for (uint b : K) for (uint d : K) for (uint e : K)
    if (th || (a % 3 == 0) || (a & 1))
      trace ({ a, b, d, e, 200 });
}

// odd lengths up to the largest one; the samples of such a block need not be read, nothing may be written
static void
huge (Ctx& ctx, const Cfg& c)
{
  ErrCapture err;
  Exec ex (20000);
  vector<float> x (4000);
  for (size_t i = 0; i < x.size(); i++)
    x[i] = dense (i, 42);
  const size_t bytes = size_t (4) << 32;
  float *in = (float *) mmap (nullptr, bytes, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  float *out = (float *) mmap (nullptr, bytes, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (in == MAP_FAILED || out == MAP_FAILED)
    {
      printf ("no address space\n");
      _exit (3);
    }
  for (uint b = 13; b <= 32; b++)
    for (int d : { -1, 1, 3 })
      for (uint before : { 0u, 10u, 200u })
        {
          if (b == 32 && d > 0)
            continue;
          const uint n = uint ((uint64_t (1) << b) + d);
          if (!ctx.begin ("a block of %u samples after %u", n, before))
            continue;
          R r = c.make(), ref = c.make();
          vector<float> y, e;
          err.take();
          ex.step (r, c, { before / 2, 0, 0 }, x, 0, y);
          ex.step (ref, c, { before / 2, 0, 0 }, x, 0, e);
          r.process_block (in, n, out);
          if (!err.take())
            ctx.fail ("no diagnostics for a block of %u samples", n);
          ex.step (r, c, { 200, 0, 0 }, x, before / 2, y);
          ex.step (ref, c, { 200, 0, 0 }, x, before / 2, e);
          for (size_t i = 0; i < e.size(); i++)
            if (!same_value (y[i], e[i]))
              ctx.fail ("output %zu is %.9g, without the odd block it is %.9g", i, double (y[i]), double (e[i]));
          ctx.eval (e.size() + 1);
          ctx.state (mix (n, before));
          ctx.transition (mix (n, before));
          ctx.outcome (hash_out (y));
        }
  munmap (in, bytes);
  munmap (out, bytes);
}

int
main (int argc, char **argv)
{
  vector<Item> items;
  for (auto& c : configs (FIR, { 2 }))
    if (c.mode == R::DOWN)
      {
        items.push_back ({ c.name(), [c] (Ctx& ctx) { explore (ctx, c); } });
        items.push_back ({ c.name() + "-huge", [c] (Ctx& ctx) { huge (ctx, c); } });
      }
  return mc::main (argc, argv, items);
}
