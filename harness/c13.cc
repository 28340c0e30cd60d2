// C13: the IIR filter designer against direct evaluation of the transfer functions of its results.
#include "mc.hh"
#include "pandaresampler/hiir/PolyphaseIir2Designer.h"
#include "pandaresampler/hiir/PolyphaseIir2Designer.cpp"
#include <complex>
using namespace mc;
using std::vector;
typedef PandaResampler::hiir::PolyphaseIir2Designer D;
typedef std::complex<long double> C;
typedef long double ld;
typedef unsigned int uint;
static const ld PIL = 3.141592653589793238462643383279502884L;

// |H| of the half band filter 1/2 (A0 (z^2) + z^-1 A1 (z^2)) at f (relative to the sampling rate)
static ld
gain (const vector<double>& c, ld f)
{
  const C u = std::polar<ld> (1, -4 * PIL * f), z1 = std::polar<ld> (1, -2 * PIL * f);
  C num[2] = { 1, 1 }, den[2] = { 1, 1 };
  for (size_t i = 0; i < c.size(); i++)
    {
      num[i & 1] *= ld (c[i]) + u;
      den[i & 1] *= ld (1) + ld (c[i]) * u;
    }
  return std::abs (num[0] / den[0] + z1 * num[1] / den[1]) / 2;
}

// largest gain in the stop band [1/4 + t/2, 1/2]
static ld
stop_gain (const vector<double>& c, double t, int points)
{
  const ld lo = ld (t) / 2, hi = 0.25L;
  ld m = 0;
  for (int i = 0; i <= points; i++)
    {
      ld d = lo * powl (hi / lo, ld (i) / points);      // ripples get denser towards the edge
      if (i == points)
        d = hi;
      m = std::max (m, gain (c, 0.25L + d));
    }
  return m;
}

static double
cell_group_delay (double a, double f, bool ph)
{
  const C u = std::polar<ld> (1, -4 * PIL * f);
  const ld b = a;
  const C v = ph ? -ld (1) / (b - u) + b / (ld (1) - b * u) : ld (1) / (b + u) - b / (ld (1) + b * u);
  return (ld (2) * u * v).real();
}

static double
cell_phase_delay (double a, double f)
{
  const ld w = 2 * PIL * f, th = 2 * w;
  if (f == 0)
    return 2 * (1 - ld (a)) / (1 + ld (a));
  return (th - 2 * atan2l (a * sinl (th), 1 + a * cosl (th))) / w;
}

static double ampl (double db) { return pow (10, -db / 20); }

// transition bandwidths: dense towards both ends
static vector<double>
transitions (bool th)
{
  vector<double> v;
  const int n = th ? 240 : 48;
  for (int i = 0; i <= n; i++)
    {
      const double x = 1e-4 * pow (0.25 / 1e-4, double (i) / n);
      v.push_back (x);
      v.push_back (0.5 - x * 10 * (i <= n * 0.7 ? 1 : 0) - (i <= n * 0.7 ? 0 : x));
    }
  vector<double> r;
  for (double x : v)
    if (x >= 1e-4 && x <= 0.499)
      r.push_back (x);
  for (double x : { 4050 / 44100.0, (44100 - 18000) / 88200.0, (88200 - 18000) / 176400.0, 0.01, 0.1, 0.2, 0.25, 0.3, 0.4, 0.45, 0.49, 0.499 })
    r.push_back (x);
  return r;
}

static void
explore_t (Ctx& ctx, double t)
{
  int NMAX = ctx.thorough ? 40 : 30;
  const ld floor_ = 3e-15L / t + 2e-15L + (t > 0.45 ? 1e-14L : 0);          // rounding of the coefficients
  vector<double> real (NMAX + 1), rep (NMAX + 1);
  vector<vector<double>> coefs (NMAX + 1);
  for (int n = 1; n <= NMAX; n++)
    {
      if (n > 1 && D::compute_atten_from_order_tbw (n - 1, t) > 300)     // beyond the resolution of the coefficients
        {
          NMAX = n - 1;
          break;
        }
      if (!ctx.begin ("transition %.17g, %d coefficients", t, n))
        continue;
      const double marker = -77;
      vector<double> c (n + 2, marker);
      D::compute_coefs_spec_order_tbw (&c[1], n, t);
      if (c[0] != marker || c[n + 1] != marker)
        ctx.fail ("writes outside of the %d coefficients", n);
      c.erase (c.begin());
      c.pop_back();
      for (int i = 0; i < n; i++)
        if (!(c[i] > 0 && c[i] < 1) || (i && !(c[i] > c[i - 1])))
          ctx.fail ("coefficient %d of %d is %.17g, the one before %.17g", i, n, c[i], i ? c[i - 1] : 0);
      rep[n] = D::compute_atten_from_order_tbw (n, t);
      const ld g = stop_gain (c, t, ctx.thorough ? 3000 : 600);
      real[n] = -20 * log10 (double (g));
      const ld want = powl (10, -ld (rep[n]) / 20);
      if (!(rep[n] > 0))
        ctx.fail ("compute_atten_from_order_tbw reports %.9g dB", rep[n]);
      if (!(g <= want * 1.001L + floor_))
        ctx.fail ("compute_atten_from_order_tbw reports %.6f dB, but the filter has %.6f dB", rep[n], real[n]);
      if (!(g >= want * (rep[n] > 15 ? 0.99L : 0.9L) - floor_))
        ctx.fail ("compute_atten_from_order_tbw reports %.6f dB only, but the filter has %.6f dB", rep[n], real[n]);
      if (n > 1 && !(rep[n] > rep[n - 1]))
        ctx.fail ("compute_atten_from_order_tbw: %.9g dB with %d coefficients, %.9g dB with one less", rep[n], n, rep[n - 1]);
      // DC gain 1, and group delay of the complete filter as defined
      if (!(fabs (double (gain (c, 0)) - 1) <= 1e-12))
        ctx.fail ("gain %.17g at DC", double (gain (c, 0)));
      for (int k = 0; k < 25; k++)
        {
          const double f = k * 0.02 + (k == 24 ? 0.0199 : 0);
          for (int ph = 0; ph < 2; ph++)
            {
              double sum = 0;
              for (int i = 0; i < n; i += 2)
                sum += cell_group_delay (c[i], f, ph);
              const double got = D::compute_group_delay (c.data(), n, f, ph);
              if (!(fabs (got - sum) <= 1e-6 * sum + 1e-9))
                ctx.fail ("compute_group_delay (%d coefficients, f %.3f, ph_flag %d) is %.12g, the transfer function has %.12g", n, f, ph, got, sum);
              ctx.eval();
            }
        }
      coefs[n] = c;
      ctx.state (n);
      ctx.outcome (uint64_t (real[n] * 1e6));
    }
  // specifications by attenuation
  vector<double> at;
  for (double a = 0.1; a < 200; a += ctx.thorough ? 0.1 : 0.5)
    at.push_back (a);
  for (double a : { 48., 72., 96., 120., 144., 200. })
    at.push_back (a);
  for (int n = 1; n <= NMAX; n++)
    for (double d : { -0.02, 0.02 })
      if (rep[n] > 0.2 && rep[n] + d <= 200)
        at.push_back (rep[n] + d);
  for (double a : at)
    {
      if (!ctx.begin ("transition %.17g, attenuation %.17g", t, a))
        continue;
      const int n = D::compute_nbr_coefs_from_proto (a, t);
      if (n < 1)
        ctx.fail ("compute_nbr_coefs_from_proto gives %d coefficients", n);
      if (n > D::_max_order)
        ctx.fail ("compute_nbr_coefs_from_proto gives %d coefficients", n);
      vector<double> c (n + 2, -77);
      const int m = D::compute_coefs (&c[1], a, t);
      if (m != n)
        ctx.fail ("compute_coefs gives %d coefficients, compute_nbr_coefs_from_proto %d", m, n);
      if (c[0] != -77 || c[n + 1] != -77)
        ctx.fail ("compute_coefs writes outside of the %d coefficients", n);
      c.erase (c.begin());
      c.pop_back();
      for (int i = 0; i < n; i++)
        if (!(c[i] > 0 && c[i] < 1) || (i && !(c[i] > c[i - 1])))
          ctx.fail ("coefficient %d of %d is %.17g, the one before %.17g", i, n, c[i], i ? c[i - 1] : 0);
      ctx.eval();
      ctx.transition (mix (n, uint64_t (a * 1000)));
      if (n > NMAX)
        continue;
      if (ctx.only >= 0)        // replay: the table is not filled
        {
          coefs[n].resize (n);
          D::compute_coefs_spec_order_tbw (coefs[n].data(), n, t);
          real[n] = -20 * log10 (double (stop_gain (coefs[n], t, 3000)));
          if (n > 1)
            {
              vector<double> l (n - 1);
              D::compute_coefs_spec_order_tbw (l.data(), n - 1, t);
              real[n - 1] = -20 * log10 (double (stop_gain (l, t, 3000)));
            }
        }
      for (int i = 0; i < n; i++)
        if (!(fabs (c[i] - coefs[n][i]) <= 1e-12 * std::min (c[i], 1 - c[i]) + 1e-15))
          ctx.fail ("compute_coefs and compute_coefs_spec_order_tbw differ: coefficient %d: %.17g and %.17g", i, c[i], coefs[n][i]);
      if (!(ampl (real[n]) <= ampl (a) * 1.001 + floor_))
        ctx.fail ("the filter with %d coefficients has only %.6f dB", n, real[n]);
      // the minimum number (the designer may be off where the next smaller filter just about does it)
      if (n > 1 && a > 15 && real[n - 1] > a + 0.05)
        ctx.fail ("%d coefficients, but %d would be enough: %.6f dB", n, n - 1, real[n - 1]);
      ctx.outcome (mix (n, uint64_t (real[n] * 1e6)));
    }
}

static void
explore_cells (Ctx& ctx)
{
  const int N = ctx.thorough ? 2000 : 400;
  for (int i = 0; i <= N; i++)
    for (int k = 0; k < N; k++)
      {
        const double a = double (i) / N, f = 0.5 * k / N;
        if (!ctx.begin ("cell with coefficient %.17g at frequency %.17g", a, f))
          continue;
        ctx.state (i);
        ctx.transition (i * 10000 + k);
        const bool sing = i == N;       // pole and zero cancel
        if (!(sing && k * 2 == N))
          {
            const double p = D::compute_phase_delay (a, f), want = cell_phase_delay (a, f);
            if (!(fabs (p - want) <= 1e-6 + 1e-6 * want) && !(sing && p >= 0))
              ctx.fail ("phase delay %.12g, the transfer function has %.12g", p, want);
            if (!(p >= 0))
              ctx.fail ("phase delay %.12g", p);
            ctx.outcome (uint64_t (want * 1e9));
          }
        for (int ph = 0; ph < 2; ph++)
          if (!sing)
            {
              const double g = D::compute_group_delay (a, f, ph), gw = cell_group_delay (a, f, ph);
              if (!(fabs (g - gw) <= 1e-7 + 1e-7 * gw))
                ctx.fail ("group delay %.12g (ph_flag %d), the transfer function has %.12g", g, ph, gw);
              if (!(g >= 0))
                ctx.fail ("group delay %.12g", g);
              ctx.outcome (uint64_t (gw * 1e9));
              ctx.eval();
            }
      }
}

static double
own_gdly (int n, double t, double f)
{
  vector<double> c (n);
  D::compute_coefs_spec_order_tbw (c.data(), n, t);
  double sum = 0;
  for (int i = 0; i < n; i += 2)
    sum += cell_group_delay (c[i], f, false);
  return sum;
}

static void
explore_gdly (Ctx& ctx, int n)
{
  struct B { double lo, hi; };
  const vector<B> tr = { { 0.001, 0.499 }, { 0.05, 0.2 }, { 0.2, 0.45 }, { 0.01, 0.011 } };
  const vector<B> at = { { 0.001, 10000 }, { 60, 100 }, { 0.001, 40 }, { 100, 10000 } };
  const vector<double> precs = ctx.thorough ? vector<double> { 1e-6, 1e-3, 1e-9, 1e-300 } : vector<double> { 1e-6, 1e-3, 1e-300 };
  const int G = ctx.thorough ? 40 : 10, FN = ctx.thorough ? 26 : 7;
  uint ok = 0, rej = 0;
  for (const B& tb : tr)
    for (int fi = 0; fi < FN; fi++)
      {
        const double f = fi == FN - 1 ? 0.499 : 0.5 * fi / FN, g0 = own_gdly (n, tb.lo, f), g1 = own_gdly (n, tb.hi, f);
        const double lo = std::min (g0, g1), hi = std::max (g0, g1);
        for (int k = -2; k <= G + 2; k++)
          {
            const double u = k < 0 ? lo * (1 + k * 0.3) : k > G ? hi * (1 + (k - G) * 0.7) : lo + (hi - lo) * (k + 0.37) / (G + 1);
            if (!(u > 0))
              continue;
            for (const B& ab : at)
              for (double prec : precs)
                for (int ptrs = 0; ptrs < 4; ptrs++)
                  {
                    if (ptrs != 3 && (k % 3 || prec != precs[0]))
                      continue;
                    if (!ctx.begin ("%d coefficients, group delay %.17g at %.6g, precision %g, attenuation %g..%g, transition %g..%g, output pointers %d", n, u, f, prec, ab.lo, ab.hi, tb.lo, tb.hi, ptrs))
                      continue;
                    vector<double> c (n + 2, -77);
                    double a = -5, t = -5;
                    const D::ResCode r = D::compute_coefs_spec_order_gdly (&c[1], ptrs & 1 ? &a : nullptr, ptrs & 2 ? &t : nullptr, n, u, f, prec, ab.lo, ab.hi, tb.lo, tb.hi);
                    ctx.eval();
                    ctx.state (mix (mix (fi, k + 5), uint64_t (tb.lo * 1e6)));
                    ctx.transition (mix (mix (mix (fi, k + 5), uint64_t (tb.lo * 1e6)), mix (uint64_t (ab.lo * 1000 + ab.hi), ptrs + 4 * (prec < 1e-4))));
                    if (c[0] != -77 || c[n + 1] != -77)
                      ctx.fail ("writes outside of the %d coefficients", n);
                    c.erase (c.begin());
                    c.pop_back();
                    const bool reach = (g0 - u) * (u - g1) > 0, edge = std::min (fabs (g0 - u), fabs (g1 - u)) <= 1e-6 * u;
                    ctx.outcome (mix (r + 10, reach * 2 + edge));
                    if (r == D::ResCode_OK)
                      {
                        ok++;
                        double got = 0;
                        for (int i = 0; i < n; i += 2)
                          got += cell_group_delay (c[i], f, false);
                        if (!(fabs (got - u) <= prec * 1.001 + 1e-9 * u) || !(fabs (D::compute_group_delay (c.data(), n, f, false) - u) <= prec))
                          ctx.fail ("success, but the group delay is %.12g", got);
                        for (int i = 0; i < n; i++)
                          if (!(c[i] > 0 && c[i] < 1) || (i && !(c[i] > c[i - 1])))
                            ctx.fail ("coefficient %d of %d is %.17g, the one before %.17g", i, n, c[i], i ? c[i - 1] : 0);
                        if (ptrs & 2)
                          {
                            if (!(t >= tb.lo && t <= tb.hi))
                              ctx.fail ("success with transition %.12g", t);
                            vector<double> d (n);
                            D::compute_coefs_spec_order_tbw (d.data(), n, t);
                            for (int i = 0; i < n; i++)
                              if (!(fabs (c[i] - d[i]) <= 1e-9))
                                ctx.fail ("coefficient %d is %.17g, but %.17g for the reported transition %.12g", i, c[i], d[i], t);
                          }
                        if (ptrs & 1)
                          if (!(a >= ab.lo && a <= ab.hi))
                            ctx.fail ("success with attenuation %.12g", a);
                        if (ptrs == 3 && !(fabs (a - D::compute_atten_from_order_tbw (n, t)) <= 1e-6 * a + 1e-6))
                          ctx.fail ("reported attenuation %.12g, but %.12g for the reported transition %.12g", a, D::compute_atten_from_order_tbw (n, t), t);
                        if (!reach && !edge && prec < 1e-4)
                          ctx.fail ("success, although the group delay range is %.12g..%.12g", lo, hi);
                        continue;
                      }
                    rej++;
                    if (!(r == D::ResCode_FAIL_GD_TBW || r == D::ResCode_FAIL_ATTEN || r == D::ResCode_FAIL_CONV))
                      ctx.fail ("result code %d", int (r));
                    if (edge)
                      continue;
                    if (r == D::ResCode_FAIL_GD_TBW && reach)
                      ctx.fail ("group delay rejected, although the range is %.12g..%.12g", lo, hi);
                    if (r != D::ResCode_FAIL_GD_TBW && !reach)
                      ctx.fail ("result code %d, although the group delay range is %.12g..%.12g", int (r), lo, hi);
                    if (r == D::ResCode_FAIL_CONV && prec >= 1e-9 * u)
                      ctx.fail ("no convergence, although the group delay range is %.12g..%.12g", lo, hi);
                    if (r == D::ResCode_FAIL_ATTEN)
                      {
                        // the attenuation of every permitted solution would be inside of the range
                        double amin = 1e9, amax = -1e9;
                        for (int e = -1; e <= 1; e++)
                          {
                            const double ue = u + e * prec * 1.01;
                            double l = tb.lo, h = tb.hi;
                            for (int it = 0; it < 100; it++)
                              {
                                const double m = (l + h) / 2, gm = own_gdly (n, m, f);
                                ((gm - ue) * (g0 - g1) > 0 ? l : h) = m;
                              }
                            const double al = D::compute_atten_from_order_tbw (n, (l + h) / 2);
                            amin = std::min (amin, al);
                            amax = std::max (amax, al);
                          }
                        if (amin > ab.lo + 0.1 && amax < ab.hi - 0.1)
                          ctx.fail ("attenuation rejected, although the filters with this group delay have %.6f..%.6f dB", amin, amax);
                      }
                  }
          }
      }
  char b[80];
  snprintf (b, sizeof (b), "%u designs succeeded, %u rejected", ok, rej);
  ctx.note (b);
}

int
main (int argc, char **argv)
{
  bool th = false;
  for (int i = 1; i + 1 < argc; i++)
    if (!strcmp (argv[i], "--tier"))
      th = !strcmp (argv[i + 1], "thorough");
  vector<Item> items;
  for (double t : transitions (th))
    {
      char b[60];
      snprintf (b, sizeof (b), "transition-%.17g", t);
      items.push_back ({ b, [t] (Ctx& ctx) { explore_t (ctx, t); } });
    }
  items.push_back ({ "cells", explore_cells });
  for (int n = 1; n <= (th ? 30 : 16); n++)
    items.push_back ({ "group-delay-" + std::to_string (n), [n] (Ctx& ctx) { explore_gdly (ctx, n); } });
  return mc::main (argc, argv, items);
}
