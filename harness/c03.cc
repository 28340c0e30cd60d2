// C03: linearity and homogeneity over the float range; silence in, silence out.
#include "rs.hh"
using namespace mc;
using std::vector;

struct Lin {
  Ctx& ctx;
  Cfg c;
  Exec ex;
  vector<float> y;
  bool fir;

  Lin (Ctx& ctx, const Cfg& c) : ctx (ctx), c (c), ex (80000), fir (c.filt == R::FILTER_FIR) {}

  const vector<float>&
  run (const vector<Block>& seq, const vector<float>& x)
  {
    R r = c.make();
    y = ex.run (r, c, seq, x);
    ctx.eval (y.size());
    return y;
  }
  static vector<Block>
  cut (size_t frames, uint n)
  {
    vector<Block> s;
    for (size_t p = 0; p < frames; p += n)
      s.push_back ({ uint (std::min<size_t> (n, frames - p)), uint (s.size() & 3), uint (s.size() / 4 & 3) });
    return s;
  }
};

static void
explore (Ctx& ctx, const Cfg& c)
{
  Lin l (ctx, c);
  const bool  th = ctx.thorough;
  const size_t ipf = c.in_per_frame(), opf = c.out_per_frame();
  const size_t F = 260;
  vector<float> x (F * ipf), xs, ref;
  // local magnitude of the reference output, for relative comparison
  auto envelope = [] (const vector<float>& v, int win) {
    vector<float> e (v.size());
    for (int i = 0; i < int (v.size()); i++)
      for (int k = std::max (0, i - win); k <= std::min<int> (v.size() - 1, i + win); k++)
        e[i] = std::max<float> (e[i], fabs (v[k]));
    return e;
  };
  // 1. homogeneity: three streams x all exponents x two ways of cutting
  for (uint sig = 0; sig < 4; sig++)
    {
      std::fill (x.begin(), x.end(), 0);
      for (size_t i = 0; i < x.size(); i++)
        switch (sig)
          {
            case 0: x[i] = i == ipf * 3 ? 1 : 0; break;                         // impulse: every tap at its own level
            case 1: x[i] = dense (i, 5); break;
            case 2: x[i] = 1; break;                                            // constant
            case 3: x[i] = sin (i * 0.05 / ipf) * (1 + (i / ipf >= 130 ? 7 : 0)); break;   // level change
          }
      for (uint cut : { 260u, 7u, 64u })
        {
          const vector<Block> seq = Lin::cut (F, cut);
          ref = l.run (seq, x);
          // an impulse response is compared relative to its local level, otherwise relative to the signal level
          const bool rel = sig == 0;
          vector<float> env = rel ? envelope (ref, l.fir && c.ratio == 2 ? 0 : 16 * c.ratio) : envelope (ref, ref.size());
          for (int sign : { 1, -1 })
            for (int k = -110; k <= 120; k += (th || cut == 260 ? 1 : 5))
              {
                if (!ctx.begin ("signal %u scaled by %c2^%d, blocks of %u", sig, sign < 0 ? '-' : '+', k, cut))
                  continue;
                xs = x;
                const double g = sign * exp2 (k);
                for (auto& f : xs)
                  f *= g;
                l.run (seq, xs);
                ctx.state (mix (mix (sig, cut), k + 1000 * sign));
                ctx.transition (mix (mix (sig + 1, cut), k + 1000 * sign));
                ctx.outcome (hash_out (l.y));
                for (size_t i = 0; i < ref.size(); i++)
                  {
                    const double e = ref[i] * g, tol = 4e-6 * env[i] * fabs (g) + 3e-43 * std::max (1.0, fabs (g));
                    if (!(fabs (l.y[i] - e) <= tol))
                      ctx.fail ("output %zu is %.9g, but %.9g for the unscaled signal", i, double (l.y[i]), double (ref[i]));
                  }
              }
        }
    }
  // 2. superposition of two impulses with any pair of levels and distances
  {
    vector<float> ha, hb;
    vector<int> levels = { -100, -60, -40, -24, -12, -1, 0, 1, 10, 20, 40, 100 };
    vector<uint> dists = { 0, 1, 2, 3, 5, 8, 20, 60, 130 };
    for (int a : levels)
      for (int b : levels)
        for (uint d : dists)
          for (uint ph = 0; ph < (th ? ipf : 1); ph++)
            {
              if (!ctx.begin ("impulses +2^%d at frame 2 and -2^%d at frame %u phase %u", a, b, 2 + d, ph))
                continue;
              const uint cut = d % 2 ? 260 : 3 + d;
              const vector<Block> seq = Lin::cut (F, cut);
              std::fill (x.begin(), x.end(), 0);
              x[2 * ipf] = exp2 (a);
              ha = l.run (seq, x);
              x[2 * ipf] = 0;
              x[(2 + d) * ipf + ph] = -exp2 (b);
              hb = l.run (seq, x);
              x[2 * ipf] += exp2 (a);
              l.run (seq, x);
              const vector<float> env_a = envelope (ha, 16 * c.ratio), env_b = envelope (hb, 16 * c.ratio);
              ctx.state (mix (mix (a, b), d * 8 + ph));
              ctx.transition (mix (mix (a + 1, b), d * 8 + ph));
              ctx.outcome (hash_out (l.y));
              for (size_t i = 0; i < l.y.size(); i++)
                {
                  const double e = double (ha[i]) + hb[i], tol = 4e-6 * (double (env_a[i]) + env_b[i]) + 3e-43;
                  if (!(fabs (l.y[i] - e) <= tol))
                    ctx.fail ("output %zu is %.9g, the separate responses are %.9g and %.9g", i, double (l.y[i]), double (ha[i]), double (hb[i]));
                }
            }
  }
  // 3. superposition of dense streams
  for (uint salt = 0; salt < (th ? 60u : 12u); salt++)
    for (int lev : { 0, -8, -20, 8 })
      {
        if (!ctx.begin ("dense streams %u + 2^%d * %u", salt, lev, salt + 100))
          continue;
        const vector<Block> seq = Lin::cut (F, salt % 2 ? 260 : 5 + salt);
        vector<float> a, b;
        for (size_t i = 0; i < x.size(); i++) x[i] = dense (i, salt);
        a = l.run (seq, x);
        for (size_t i = 0; i < x.size(); i++) x[i] = dense (i, salt + 100) * exp2 (lev);
        b = l.run (seq, x);
        for (size_t i = 0; i < x.size(); i++) x[i] = dense (i, salt) + dense (i, salt + 100) * float (exp2 (lev));
        l.run (seq, x);
        ctx.state (mix (salt * 1000, lev));
        ctx.transition (mix (salt * 1000 + 1, lev));
        for (size_t i = 0; i < l.y.size(); i++)
          if (!(fabs (l.y[i] - double (a[i]) - b[i]) <= 1e-5 * std::max (1.0, exp2 (lev))))
            ctx.fail ("output %zu is %.9g, the separate outputs are %.9g and %.9g", i, double (l.y[i]), double (a[i]), double (b[i]));
      }
  // 4. silence
  for (uint n = 0; n <= 140; n++)
    for (float z : { 0.f, -0.f })
      {
        if (!ctx.begin ("silence (%s) in blocks of %u", std::signbit (z) ? "-0" : "0", n))
          continue;
        std::fill (x.begin(), x.end(), z);
        l.run (vector<Block> (4, { n, n & 3, n / 4 & 3 }), x);
        ctx.state (mix (n + 5000, std::signbit (z)));
        ctx.transition (mix (n + 5001, std::signbit (z)));
        for (size_t i = 0; i < l.y.size(); i++)
          if (l.y[i] != 0)
            ctx.fail ("output %zu is %.9g", i, double (l.y[i]));
      }
  (void) opf;
}

int
main (int argc, char **argv)
{
  vector<Item> items;
  for (auto& c : configs (FIR | IIR))
    items.push_back ({ c.name(), [c] (Ctx& ctx) { explore (ctx, c); } });
  return mc::main (argc, argv, items);
}
