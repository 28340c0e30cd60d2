// C27: oversampling: upsampling followed by downsampling gives back the stream, delayed by up.delay() / ratio + down.delay().
#include "freq.hh"
using namespace mc;
using std::vector;

struct Pair {
  R::Filter filt;
  uint ratio;
  R::Precision prec;
  bool su, sd;
  Cfg up() const   { return { R::UP, ratio, prec, su, filt }; }
  Cfg down() const { return { R::DOWN, ratio, prec, sd, filt }; }
  std::string
  name() const
  {
    char b[80];
    snprintf (b, sizeof (b), "%s-x%u-p%d-up%s-down%s", filt == R::FILTER_FIR ? "fir" : "iir", ratio, int (prec), su ? "sse" : "fpu", sd ? "sse" : "fpu");
    return b;
  }
};

// processes T frames: upsampling in blocks of the lengths pu (cyclic), downsampling in blocks of the lengths pd
struct Chain {
  const Pair& p;
  R u, d;
  Arena in, mid, out;
  Chain (const Pair& p) : p (p), u (p.up().make()), d (p.down().make()), in (4200), mid (4200 * p.ratio), out (4200) {}

  vector<float>
  run (const vector<float>& x, size_t T, const vector<uint>& pu, const vector<uint>& pd)
  {
    vector<float> hi, y;
    const uint r = p.ratio;
    size_t tu = 0, td = 0, iu = 0, id = 0;
    while (td < T)
      {
        const uint n = std::min<size_t> (pu[iu % pu.size()], T - tu);
        const uint a = iu & 3;
        for (uint i = 0; i < n; i++)
          in.at (a)[i] = x[tu + i];
        u.process_block (in.at (a), n, mid.at (a));
        hi.insert (hi.end(), mid.at (a), mid.at (a) + n * r);
        tu += n;
        iu++;
        // whatever is complete is downsampled
        for (;;)
          {
            const uint m = std::min<size_t> (pd[id % pd.size()], T - td);
            if (td >= T || tu - td < m)
              break;
            const uint b = id & 3;
            memcpy (mid.at (b), hi.data() + td * r, m * r * sizeof (float));
            d.process_block (mid.at (b), m * r, out.at (b));
            y.insert (y.end(), out.at (b), out.at (b) + m);
            td += m;
            id++;
          }
      }
    return y;
  }
};

static void
explore (Ctx& ctx, const Pair& p)
{
  const bool th = ctx.thorough, fir = p.filt == R::FILTER_FIR, lin = p.prec == R::PREC_LINEAR;
  const uint L = fir ? 150 : 1100;
  Chain probe (p);
  const double D = probe.u.delay() / p.ratio + probe.d.delay();
  const double nominal = p.prec == R::PREC_48DB ? 48 : p.prec == R::PREC_72DB ? 72 : p.prec == R::PREC_96DB ? 96 : p.prec == R::PREC_120DB ? 120 : 144;
  const double tol = 2.2 * pow (10, -std::min (nominal - 8, 132.0) / 20);
  // 1. response in one block, checked at all frequencies of the passband
  vector<float> x (L), h;
  x[0] = 1;
  h = Chain (p).run (x, L, { L }, { L });
  double worst = 0, worst_d = 0;
  if (!lin && ctx.begin ("impulse response in one block: all frequencies up to 18 kHz"))
    {
      const uint K = th ? 8192 : 2048;
      for (uint k = 0; k <= K; k++)
        {
          const double f = 18 / 44.1 * k / K, w = 2 * M_PI * f;
          cplx H = 0, G = 0;
          cplx z = 1;
          const cplx step = std::polar (1.0, -w);
          for (uint i = 0; i < L; i++)
            {
              H += double (h[i]) * z;
              G += double (i) * double (h[i]) * z;
              z *= step;
            }
          const double e = fir ? std::abs (H - std::polar (1.0, -w * D)) : fabs (std::abs (H) - 1);
          ctx.eval();
          worst = std::max (worst, e);
          if (!(e <= tol))
            ctx.fail ("at %.6g of the sample rate the chain differs from a delay of %g samples by %.3g (allowed: %.3g)", f, D, e, tol);
          if (f < 1 / 44.1)
            {
              const double gd = (G / H).real();
              worst_d = std::max (worst_d, fabs (gd - D));
              if (!(fabs (gd - D) <= (fir ? 0.01 : 0.025)))
                ctx.fail ("at %.6g of the sample rate the chain has a delay of %.5g samples, but delay() of both says %.5g", f, gd, D);
            }
        }
      char b[120];
      snprintf (b, sizeof (b), "delay %.6g, deviation of the response %.2f dB (allowed %.2f dB), of the delay %.3g", D, db (worst), db (tol), worst_d);
      ctx.note (b);
      ctx.outcome (hash_out (h));
    }
  // 2. partitions of both sides, positions of the impulse: the same response, shifted
  auto check = [&] (size_t pos, const vector<uint>& pu, const vector<uint>& pd, Chain& c, const char *what) {
    const size_t T = pos + L;
    vector<float> s (T);
    s[pos] = 1;
    const vector<float> y = c.run (s, T, pu, pd);
    uint64_t hh = 0;
    for (size_t i = 0; i < T; i++)
      {
        const double e = i < pos ? 0 : h[i - pos];
        if (!(fabs (y[i] - e) <= 1e-6))
          ctx.fail ("%soutput %ld after the impulse is %.9g, but %.9g in one block", what, long (i) - long (pos), y[i], e);
        hh = mix (hh, y[i] * 1e6);
      }
    ctx.eval (T);
    ctx.outcome (mix (hh, pos));
  };
  vector<uint> a;
  for (uint n = 1; n <= (th ? (fir ? 40u : 20u) : (fir ? 10u : 5u)); n++)
    a.push_back (n);
  for (uint n : { 16u, 31u, 64u, 127u, 128u, 256u, 1000u })
    a.push_back (n);
  for (uint nu : a)
    for (uint nd : a)
      for (uint pos : { 0u, 3u, 70u })
        if (ctx.begin ("upsampling in blocks of %u, downsampling in blocks of %u frames, impulse in frame %u", nu, nd, pos))
          {
            Chain c (p);
            check (pos, { nu }, { nd }, c, "");
            ctx.state (mix (mix (nu, nd), pos));
            ctx.transition (mix (mix (nu, nd), pos));
          }
  const vector<uint> len = { 1, 2, 7, 30, 129 };
  const uint depth = th ? 3 : 2;
  uint total = 1;
  for (uint i = 0; i < 2 * depth; i++)
    total *= len.size();
  for (uint q = 0; q < total; q++)
    {
      vector<uint> pu, pd;
      for (uint i = 0, k = q; i < 2 * depth; i++, k /= len.size())
        (i % 2 ? pd : pu).push_back (len[k % len.size()]);
      std::string s;
      for (uint i = 0; i < depth; i++)
        s += " " + std::to_string (pu[i]) + "/" + std::to_string (pd[i]);
      if (ctx.begin ("alternating blocks (up/down)%s, impulse in frame 33, then again after reset", s.c_str()))
        {
          Chain c (p);
          check (33, pu, pd, c, "");
          c.u.reset();
          c.d.reset();
          check (5, pd, pu, c, "after reset: ");
          ctx.state (mix (q, 77));
          ctx.transition (mix (q, 78));
        }
    }
  // 3. sines come out as they went in, D samples later
  if (!lin)
    for (uint k = 0; k <= (th ? 200u : 24u); k++)
      for (uint n : { 5u, 64u, 500u })
        if (ctx.begin ("sine of %.5g of the sample rate in blocks of %u frames", 18 / 44.1 * k / (th ? 200 : 24), n))
          {
            const double w = 2 * M_PI * 18 / 44.1 * k / (th ? 200 : 24);
            const size_t T = fir ? 500 : L + 400, skip = fir ? 150 : L;
            vector<float> s (T);
            for (size_t i = 0; i < T; i++)
              s[i] = cos (w * i);
            Chain c (p);
            const vector<float> y = c.run (s, T, { n }, { n + 3, n });
            double re = 0, im = 0, mx = 0;
            cplx H = 0;
            for (uint i = 0; i < L; i++)
              H += double (h[i]) * std::polar (1.0, -w * i);
            for (size_t i = skip; i < T; i++)
              {
                // FIR: against the delayed input, IIR: against the observed phase
                const double e = fir ? cos (w * (i - D)) : cos (w * i + std::arg (H));
                mx = std::max (mx, fabs (y[i] - e));
                ctx.eval();
              }
            if (!(mx <= tol + 2e-6))
              ctx.fail ("the output differs from the %s input by %.3g (allowed: %.3g)", fir ? "delayed" : "phase shifted", mx, tol + 2e-6);
            ctx.state (mix (mix (k, n), 99));
            ctx.transition (mix (mix (k, n), 98));
            ctx.outcome (mix (mx * 1e9, k));
            (void) re, (void) im;
          }
}

int
main (int argc, char **argv)
{
  vector<Item> items;
  for (auto& c : configs (FIR | IIR))
    if (c.mode == R::UP)
      for (bool sd : { true, false })
        {
          const Pair p = { c.filt, c.ratio, c.prec, c.sse, sd };
          items.push_back ({ p.name(), [p] (Ctx& ctx) { explore (ctx, p); } });
        }
  return mc::main (argc, argv, items);
}
