// C05: process_block reads only its input block and writes exactly its output block.
// Built twice: with guard pages and a read-only input mapping (any instruction that touches a byte outside
// faults), and with AddressSanitizer + UndefinedBehaviorSanitizer (gaps between block and guard page, internal
// memory, undefined operations).
#include "guard.hh"
using namespace mc;
using std::vector;

struct Place { int at; uint gap; };     // at: 0 start of the guarded area + gap floats, 1 end of it - gap floats, 2 gap floats after the start, no limit

static void
explore (Ctx& ctx, const Cfg& c)
{
  const bool   th = ctx.thorough;
  const size_t ipf = c.in_per_frame(), opf = c.out_per_frame();
  const size_t MAXF = 9000;
  Guarded in (MAXF * ipf * 4 + 256), out (MAXF * opf * 4 + 256);
  in.map (false);
  out.map (true);
  float *in_rw = (float *) in.rw, *out_rw = (float *) out.rw;
  const float *in_ro = (const float *) in.ro;
  float *out_g = (float *) out.ro;
  const size_t IN = in.n / 4, ON = out.n / 4;
  const uint O = std::max (c.make().order(), 4u), N = (c.filt == R::FILTER_FIR ? O : 12) + 16;
  vector<float> x (MAXF * 8 + 100);
  for (size_t i = 0; i < x.size(); i++)
    x[i] = dense (i, 70);
  vector<float> got[2];
  const float fills[2] = { 1e9f, -3e-7f };

  // one operation: n input samples at the given places; checks what is written
  auto op = [&] (R& r, size_t n, Place pi, Place po, float fill, vector<float> *save) {
    const size_t no = c.mode == R::UP ? n * c.ratio : n / c.ratio;
    const size_t io = pi.at == 1 ? IN - n - pi.gap : pi.gap, oo = po.at == 1 ? ON - no - po.gap : po.gap;
    memcpy (in_rw + io, x.data(), n * 4);
    const size_t m = 80, lo = oo > m ? oo - m : 0, hi = std::min (ON, oo + no + m);
    for (size_t i = lo; i < hi; i++)
      out_rw[i] = fill;
#ifdef USE_ASAN
    __asan_poison_memory_region (in_ro, in.n);
    __asan_unpoison_memory_region (in_ro + io, n * 4);
    __asan_poison_memory_region (out_g, out.n);
    __asan_unpoison_memory_region (out_g + oo, no * 4);
#endif
    r.process_block (in_ro + io, n, out_g + oo);
#ifdef USE_ASAN
    __asan_unpoison_memory_region (in_ro, in.n);
    __asan_unpoison_memory_region (out_g, out.n);
#endif
    for (size_t i = lo; i < hi; i++)
      if ((i < oo || i >= oo + no) && out_rw[i] != fill)
        ctx.fail ("output sample %ld of a block with %zu output samples was written", long (i) - long (oo), no);
    if (memcmp (in_rw + io, x.data(), n * 4))
      ctx.fail ("the input block was modified");
    if (save)
      save->insert (save->end(), out_rw + oo, out_rw + oo + no);
    ctx.eval (no);
  };

  vector<size_t> last_key;
  vector<float> last;
  auto trace = [&] (const vector<size_t>& hist, size_t n, Place pi, Place po) {
    std::string hs;
    for (size_t h : hist)
      hs += " " + std::to_string (h);
    if (!ctx.begin ("blocks of%s %zu input samples, input %u samples %s, output %u samples %s the guard", hs.c_str(), n, pi.gap, pi.at ? "before" : "after", po.gap, po.at ? "before" : "after"))
      return;
    for (int f = 0; f < 2; f++)
      {
        R r = c.make();
        got[f].clear();
        for (size_t h : hist)
          op (r, h, po, pi, fills[f], nullptr);
        op (r, n, pi, po, fills[f], &got[f]);
      }
    // every sample is written: two runs with different old contents agree
    for (size_t i = 0; i < got[0].size(); i++)
      if (!same_bits (&got[0][i], &got[1][i], 1) && got[0][i] == fills[0])
        ctx.fail ("output sample %zu of %zu is not written", i, got[0].size());
    // and so do runs of the same blocks at different places (apart from rounding)
    vector<size_t> key (hist);
    key.push_back (n);
    if (key == last_key)
      for (size_t i = 0; i < got[0].size(); i++)
        if (!(fabs (double (got[0][i]) - last[i]) <= 1e-5))
          ctx.fail ("output sample %zu of %zu is %.9g, with the blocks at another place %.9g", i, got[0].size(), double (got[0][i]), double (last[i]));
    last_key.swap (key);
    last = got[0];
    const uint64_t h = mix (n, pi.at * 16 + pi.gap), h0 = hist.size() ? hist[0] * 8 + hist.size() : 0;
    ctx.state (mix (h, h0));
    ctx.transition (mix (mix (h, h0), po.at * 16 + po.gap));
    ctx.outcome (hash_out (got[0]));
  };

  // two blocks one after another in memory: when the second one is processed, the memory of the first one may be gone
  auto consecutive = [&] (size_t a, size_t b) {
    if (!ctx.begin ("blocks of %zu and %zu input samples, the second directly behind the first one, which is not accessible any more", a, b))
      return;
    const size_t oa = c.mode == R::UP ? a * c.ratio : a / c.ratio;
    const uint ib = (a * 4 + PAGE - 1) / PAGE * PAGE / 4, ob = (oa * 4 + PAGE - 1) / PAGE * PAGE / 4;
    R r = c.make(), s = c.make();
    got[0].clear();
    got[1].clear();
    op (r, a, { 2, uint (ib - a) }, { 2, uint (ob - oa) }, fills[0], &got[0]);
    mprotect (in.ro, ib * 4, PROT_NONE);
    mprotect (out.ro, ob * 4, PROT_NONE);
    op (r, b, { 2, ib }, { 2, ob }, fills[0], &got[0]);
    mprotect (in.ro, ib * 4, PROT_READ);
    mprotect (out.ro, ob * 4, PROT_READ | PROT_WRITE);
    op (s, a, { 0, 0 }, { 0, 0 }, fills[1], &got[1]);
    op (s, b, { 1, 0 }, { 1, 0 }, fills[1], &got[1]);
    for (size_t i = 0; i < got[0].size(); i++)
      if (!(fabs (double (got[0][i]) - got[1][i]) <= 1e-5))
        ctx.fail ("output sample %zu of %zu is %.9g, with the blocks at another place %.9g", i, got[0].size(), double (got[0][i]), double (got[1][i]));
    ctx.state (mix (a, b + 77777));
    ctx.transition (mix (a, b + 77777));
    ctx.outcome (hash_out (got[0]));
  };
  for (size_t a = 1; a <= N; a += th ? 1 : 3)
    for (size_t b = (th ? 1 : 1 + a % 3); b <= N; b += th ? 1 : 3)
      consecutive (a * ipf, b * ipf);
  for (size_t a : { size_t (O) - 1, size_t (O), size_t (O) + 1, size_t (100), size_t (1024), size_t (2048), size_t (3000) })
    for (size_t b : { size_t (1), size_t (O) - 1, size_t (O), size_t (100), size_t (1024), size_t (2048), size_t (2049) })
      consecutive (a * ipf, b * ipf);

  vector<vector<size_t>> hists = { {}, { ipf }, { ipf * (O / 2) }, { ipf * (O + 5), ipf }, { 3 * ipf, 300 * ipf } };
  const vector<Place> places = { { 1, 0 }, { 0, 0 }, { 1, 1 }, { 1, 2 }, { 1, 3 }, { 0, 1 }, { 0, 2 }, { 0, 3 } };
  const bool odd_ok = c.ratio == 2 && c.mode == R::DOWN && c.filt == R::FILTER_IIR;
  const size_t step = odd_ok ? 1 : ipf;
  for (size_t n = 0; n <= ipf * (th ? 320 : 2 * N + 10); n += step)
    for (size_t h = 0; h < hists.size(); h++)
      for (size_t p = 0; p < places.size(); p++)
        for (size_t q = 0; q < places.size(); q++)
          if (th || p == q || (p < 2 && q < 2) || (p + q * 3 + n + h) % 8 == 0)
            trace (hists[h], n, places[p], places[q]);
  for (size_t base : { 128, 256, 512, 1024, 2048, 4096, 8192 })
    for (int d = -3; d <= 3; d++)
      for (size_t p = 0; p < places.size(); p++)
        {
          trace ({}, (base + d) * ipf, places[p], places[p]);
          if (base % ipf == 0 && d >= 0)
            trace ({ ipf * 2 }, base + d * ipf, places[p], places[(p + 3) % 8]);
        }
  // sequences, all blocks flush with the guard
  const uint T = th ? N : N / 2 + 4;
  for (uint a = 0; a <= T; a++)
    for (uint b = 0; b <= T; b++)
      trace ({ a * ipf, b * ipf }, ((a * 3 + b) % (N + 3)) * ipf, places[(a + b) % 8], places[(a * 3 + b) % 8]);
  for (uint k : { 1u, 3u, 4u, 7u })
    trace (vector<size_t> (th ? 3000 : 300, k * ipf), 5 * ipf, places[k], places[0]);
}

int
main (int argc, char **argv)
{
  vector<Item> items;
  for (auto& c : configs (FIR | IIR, { 1, 2, 4, 8 }))
    items.push_back ({ c.name(), [c] (Ctx& ctx) { explore (ctx, c); } });
  return mc::main (argc, argv, items);
}
