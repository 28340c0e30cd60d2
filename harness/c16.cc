// C16: lockstep of an SSE and a scalar instance over operation sequences.
#include "rs.hh"
using namespace mc;
using std::vector;

static void
explore (Ctx& ctx, const Cfg& c)
{
  Cfg cs = c, cf = c;
  cs.sse = true;
  cf.sse = false;
  const bool th = ctx.thorough, fir = c.filt == R::FILTER_FIR;
  Exec ex (600000);
  const size_t ipf = c.in_per_frame();
  const uint O = fir ? c.make().order() : 24, N = O + 14;
  // streams: impulses, compared at their local level; dense
  const size_t L = 20000;
  vector<float> imp (L * ipf), den (L * ipf);
  const uint S = 131;           // longer than every FIR response
  for (size_t f = 0, k = 0; f < L; f += S, k++)
    imp[f * ipf + k % ipf] = k & 1 ? -1 : 1;
  for (size_t i = 0; i < den.size(); i++)
    den[i] = dense (i, 21);

  auto trace = [&] (const vector<Block>& seq, int reset_after) {
    if (!ctx.begin ("%s%s", seq_str (seq).c_str(), reset_after >= 0 ? (", reset after block " + std::to_string (reset_after)).c_str() : ""))
      return;
    for (int k = 0; k < 2; k++)
      {
        R a = cs.make(), b = cf.make();
        if (a.order() != b.order() || a.delay() != b.delay())
          ctx.fail ("order/delay differ: %u %g (SSE) %u %g", a.order(), a.delay(), b.order(), b.delay());
        vector<float> ya, yb;
        size_t pos = 0;
        uint64_t s = k;
        for (size_t i = 0; i < seq.size(); i++)
          {
            ex.step (a, cs, seq[i], k ? imp : den, pos, ya);
            ex.step (b, cf, seq[i], k ? imp : den, pos, yb);
            pos += seq[i].frames;
            const uint64_t n = mix (s, pos * 16 + (seq[i].ia & 3) * 4 + (seq[i].oa & 3));
            ctx.state (n);
            ctx.transition (mix (s, n));
            s = n;
            if (int (i) == reset_after)
              {
                a.reset();
                b.reset();
              }
          }
        ctx.eval (ya.size());
        ctx.outcome (hash_out (ya));
        const bool local = k == 1 && fir;
        const int  win = c.ratio == 2 ? 0 : 8 * c.ratio;
        for (size_t i = 0; i < ya.size(); i++)
          {
            double tol = k == 1 ? 1.5e-6 : 8e-6;
            if (local)
              {
                float e = fabs (yb[i]);
                for (int j = -win; j <= win; j += 1)
                  if (int (i) + j >= 0 && i + j < yb.size())
                    e = std::max<float> (e, fabs (yb[i + j]));
                tol = 4e-6 * e;
              }
            if (!(fabs (double (ya[i]) - yb[i]) <= tol))
              ctx.fail ("output %zu is %.9g with and %.9g without SSE (%s stream)", i, double (ya[i]), double (yb[i]), k ? "impulse" : "dense");
          }
      }
  };
  for (uint n = 0; n <= 2 * N + 20; n++)
    for (uint ia = 0; ia < 4; ia++)
      for (uint oa = 0; oa < 4; oa += 3)
        trace ({ { n, ia, oa }, { 9, 0, 0 } }, -1);
  for (uint ia = 0; ia < 16; ia++)
    for (uint oa = 0; oa < 16; oa++)
      trace ({ { 3, 0, 0 }, { 2 * N, ia, oa }, { 9, oa, ia } }, -1);
  for (uint a = 0; a <= N; a += (th ? 1 : 2))
    for (uint b = 0; b <= N; b += 1)
      trace ({ { a, b & 3, 0 }, { b, a & 3, (a + b) & 3 }, { O + 9, 0, 0 } }, a % 3 == 1 ? 0 : -1);
  vector<uint> K = { 0, 1, 2, 3, 7, O / 2, O - 1, O, O + 7, 2 * O };
  for (uint a : K) for (uint b : K) for (uint d : K)
    trace ({ { a, b & 3, 0 }, { b, d & 3, 1 }, { d, a & 3, 2 }, { O + 9, 1, 0 } }, (a + b) % 4 == 0 ? 1 : -1);
  if (th)
    for (uint a : K) for (uint b : K) for (uint d : K) for (uint e : K)
      trace ({ { a, b & 3, 0 }, { b, d & 3, 1 }, { d, a & 3, 2 }, { e, 0, 3 }, { O + 9, 1, 0 } }, (a + b) % 5 - 1);
  for (uint base : { 128, 256, 512, 1024, 2048, 4096, 8192 })
    for (int d = -3; d <= 3; d++)
      trace ({ { base + d, d & 3, 0 }, { O, 0, 0 }, { base / 2, 0, 0 } }, -1);
  trace ({ { 19000, 1, 0 } }, -1);
  trace (vector<Block> (9000, { 1, 1, 1 }), -1);
  trace (vector<Block> (700, { 25, 3, 2 }), 350);
}

int
main (int argc, char **argv)
{
  vector<Item> items;
  for (auto& c : configs (FIR | IIR))
    if (c.sse)
      items.push_back ({ c.name(), [c] (Ctx& ctx) { explore (ctx, c); } });
  items.push_back ({ "self-test", [] (Ctx& ctx) {
    for (uint i = 0; i < 20; i++)
      {
        if (!ctx.begin ("test_filter_impl, run %u", i))
          continue;
        srand (i);
        ctx.state (i);
        ctx.transition (i);
        ctx.eval();
        if (!R::test_filter_impl (false))
          ctx.fail ("test_filter_impl reports an error");
      }
  } });
  return mc::main (argc, argv, items);
}
