// C22: finite memory of FIR resamplers, exponential forgetting of IIR resamplers.
#include "rs.hh"
#include <map>
using namespace mc;
using std::vector;

static const double burst_level[] = { 1, 1e30, 1e-30, 1e6, INFINITY, NAN };
static const char *burst_name[] = { "1", "1e30", "1e-30", "1e6", "Inf", "NaN" };

static vector<float>
burst (uint kind, uint shape, size_t n)
{
  vector<float> x (n);
  for (size_t i = 0; i < n; i++)
    {
      const float s = shape == 0 ? dense (i, 31) : shape == 1 ? 1.f : shape == 2 ? (i & 1 ? -1.f : 1.f) : (i / 2 & 1 ? -1.f : 1.f);
      const double l = burst_level[kind];
      if (l == l && fabs (l) < 1e38)
        x[i] = s * l;
      else
        x[i] = shape == 0 && i % 3 ? s : (s < 0 ? -l : l);
    }
  return x;
}

static void
explore (Ctx& ctx, const Cfg& c)
{
  const bool th = ctx.thorough, fir = c.filt == R::FILTER_FIR;
  Exec ex (900000);
  const size_t ipf = c.in_per_frame(), opf = c.out_per_frame();
  const uint O = fir ? c.make().order() : 24, MEM = fir ? 120 : 1000, TEST = 60;
  // after the burst: normal input, then zeros
  vector<float> after ((MEM + TEST) * ipf), zeros ((MEM + TEST) * ipf);
  for (size_t i = 0; i < after.size(); i++)
    after[i] = dense (i, 33);
  uint q = 0;
  std::map<uint, vector<float>> expect;         // outputs without the burst

  auto trace = [&] (const vector<Block>& h, uint kind, uint shape, uint m, bool zero, uint lead) {
    if (!ctx.begin ("%u frames, burst of level %s shape %u in blocks %s, then %s in blocks of %u", lead, burst_name[kind], shape, seq_str (h).c_str(), zero ? "silence" : "normal input", m))
      return;
    const vector<float>& x = zero ? zeros : after;
    vector<Block> seq;
    for (uint p = 0; p < MEM + TEST; p += m)
      seq.push_back ({ std::min (m, MEM + TEST - p), p & 3, 0 });
    R r = c.make();
    vector<float>& e = expect[m * 2 + zero];
    if (e.empty())
      {
        R f = c.make();
        e = ex.run (f, c, seq, x);
      }
    if (lead)
      ex.run (r, c, { { lead, 0, 0 } }, after);
    ex.run (r, c, h, burst (kind, shape, total_frames (h) * ipf));
    const vector<float> y = ex.run (r, c, seq, x);
    ctx.eval (y.size());
    ctx.outcome (hash_out (vector<float> (y.begin(), y.begin() + std::min<size_t> (y.size(), 64))));
    const double lev = fir || !(burst_level[kind] > 1) ? 1 : burst_level[kind];
    for (size_t i = MEM * opf; i < y.size(); i++)
      {
        const double tol = fir ? (zero ? 0 : 8e-6) : 1e-7 * (zero ? std::max (burst_level[kind], lead ? 1.0 : 0.0) : lev) + (zero ? 1e-40 : 8e-6);
        if (!(fabs (double (y[i]) - e[i]) <= tol))
          ctx.fail ("%zu output samples after the burst the output is %.9g, without the burst it is %.9g", i, double (y[i]), double (e[i]));
      }
    const uint64_t n1 = mix (mix (kind, shape), mix (lead, total_frames (h) * 16 + h.size()));
    ctx.state (n1);
    ctx.state (mix (n1, m));
    ctx.transition (mix (n1, m * 2 + zero));
  };
  const vector<uint> M = { 1, 2, 3, 7, 64, 120 + TEST };
  for (uint kind = 0; kind < (fir ? 6u : 4u); kind++)
    for (uint shape = 0; shape < 4; shape++)
      {
        for (uint n = 1; n <= (fir ? 2 * O + 10 : 40); n++)
          for (bool zero : { false, true })
            {
              if (!th && zero != (((n + n / 8 + kind) & 1) != 0))
                continue;
              if (th)
                for (uint m : M)
                  for (uint lead : { 0u, 5u, O })
                    trace ({ { n, n & 3, 0 } }, kind, shape, m, zero, lead);
              else
                trace ({ { n, n & 3, 0 } }, kind, shape, M[q++ % M.size()], zero, n % 3 == 0 ? 0 : n % 3 == 1 ? 5 : O);
            }
        for (uint n : { 500u, 1023u, 1024u, 1025u, 2048u, 2049u, 4097u, 20000u })
          for (uint m : M)
            for (bool zero : { false, true })
              if (th || fir || (m > 50 && (n < 2000 || kind == 0)))
                trace ({ { n, 0, 0 }, { 3, 0, 0 } }, kind, shape, m, zero, 0);
        for (uint a : { 1u, 3u, O / 2, O - 1, O })
          for (uint b : { 1u, 3u, O / 2, O - 1, O })
            trace ({ { a, 0, 0 }, { b, 1, 0 } }, kind, shape, M[q++ % M.size()], a & 1, b);
      }
  // long term: after finite input, 10^5 frames of silence never exceed -140 dB of the burst again,
  // in blocks of different sizes; with levels and shapes exciting every band
  for (uint kind = 0; kind < 4; kind++)
    for (uint shape = 0; shape < 4; shape++)
      for (uint m : { 1u, 100u, 4000u })
        for (uint n : { 1u, 37u, 3000u })
          {
            if (!ctx.begin ("burst of level %s shape %u, %u frames, then 10^5 frames of silence in blocks of %u", burst_name[kind], shape, n, m))
              continue;
            R r = c.make();
            ex.run (r, c, { { n, 0, 0 } }, burst (kind, shape, n * ipf));
            vector<float> y;
            const uint total = th ? 1000000 : m == 1 ? 3000 : !fir && kind == 0 && n == 37 && m > 1000 ? 100000 : 8000;
            for (uint p = 0; p < total; p += m)
              {
                y.clear();
                ex.step (r, c, { m, p & 3, 0 }, zeros, MEM + TEST, y);
                ctx.eval (y.size());
                if (p >= 1000)
                  for (float f : y)
                    if (!(fabs (f) <= (fir ? 0 : 1e-7 * burst_level[kind] + 1e-40)))
                      ctx.fail ("output is still %.9g after %u frames of silence", double (f), p);
              }
            ctx.state (mix (mix (kind, shape), mix (m, n)));
            ctx.transition (mix (mix (kind, shape), mix (m, n)));
          }
  // long term accuracy: 10^6 frames of full scale input, then the response to a stream is that of a new instance
  for (uint shape = 0; shape < 4; shape++)
    {
      if (!ctx.begin ("long run with shape %u, compared with a new instance", shape))
        continue;
      R r = c.make();
      const vector<float> x = burst (0, shape, 20000 * ipf);
      vector<float> y;
      for (uint k = 0; k < (th ? 500 : fir ? 3 : 8); k++)
        {
          y.clear();
          ex.step (r, c, { 20000, 0, 0 }, x, 0, y);
        }
      // continue with the beginning of x again; a new instance after 2000 frames of the end of x
      R f = c.make();
      const vector<float> tail (x.end() - 2000 * ipf, x.end());
      ex.run (f, c, { { 2000, 0, 0 } }, tail);
      y.clear();
      vector<float> e;
      ex.step (r, c, { 2000, 0, 0 }, x, 0, y);
      ex.step (f, c, { 2000, 0, 0 }, x, 0, e);
      ctx.eval (y.size());
      ctx.state (shape);
      ctx.transition (shape);
      for (size_t i = 0; i < y.size(); i++)
        if (!(fabs (double (y[i]) - e[i]) <= 8e-6))
          ctx.fail ("output %zu after a long run is %.9g, with a short history %.9g", i, double (y[i]), double (e[i]));
    }
}

int
main (int argc, char **argv)
{
  vector<Item> items;
  for (auto& c : configs (FIR | IIR))
    items.push_back ({ c.name(), [c] (Ctx& ctx) { explore (ctx, c); } });
  return mc::main (argc, argv, items);
}
