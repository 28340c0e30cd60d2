// Frequency response of a resampler, observed on the real code, with bounds that hold between the grid points.
#pragma once
#include "rs.hh"
#include <complex>
#include <map>

typedef std::complex<double> cplx;

inline void
fft (std::vector<cplx>& a)
{
  const size_t n = a.size();
  static std::vector<cplx> w;
  if (w.size() != n / 2)
    {
      w.resize (n / 2);
      for (size_t i = 0; i < n / 2; i++)
        w[i] = std::polar (1.0, -2 * M_PI * double (i) / double (n));
    }
  for (size_t i = 1, j = 0; i < n; i++)
    {
      size_t bit = n >> 1;
      for (; j & bit; bit >>= 1)
        j ^= bit;
      j ^= bit;
      if (i < j)
        std::swap (a[i], a[j]);
    }
  for (size_t len = 2; len <= n; len <<= 1)
    {
      const size_t st = n / len, h = len / 2;
      for (size_t i = 0; i < n; i += len)
        for (size_t k = 0; k < h; k++)
          {
            const cplx u = a[i + k], x = w[k * st];
            const cplx b = a[i + k + h];
            const cplx v (b.real() * x.real() - b.imag() * x.imag(), b.real() * x.imag() + b.imag() * x.real());
            a[i + k] = u + v;
            a[i + k + h] = u - v;
          }
    }
}

/* The response at the higher rate: UP: output to a unit impulse; DOWN: g with output[m] = sum_t g[m * ratio + ratio-1 - t] input[t],
 * observed with impulses at each input phase.  prefix: blocks before the impulse's frame (silence), pos: frame of the impulse. */
struct Response {
  std::vector<float> h;
  double shift;                 // time of h[0] in samples of the higher rate
};

static const uint RESP_FRAMES = 1400;

inline uint resp_frames (const Cfg& c) { return c.filt == R::FILTER_FIR ? 150 : RESP_FRAMES; }

// blocks: partition of the stream, impulse in frame pos.  setup: what happened to the instance before
inline Response
observe (const Cfg& c, const std::vector<Block>& blocks, size_t pos, const std::function<void (R&)>& setup, size_t out_frames = 0)
{
  const uint ratio = c.ratio, F = out_frames ? out_frames : resp_frames (c);
  Response res;
  static Exec e (200000);
  const size_t T = total_frames (blocks);
  std::vector<Block> bl = blocks;
  for (size_t t = T; t < pos + F; t += std::min<size_t> (pos + F - t, 4000))
    bl.push_back ({ uint (std::min<size_t> (pos + F - t, 4000)), 0, 0 });
  if (c.mode == R::UP)
    {
      R r = c.make();
      setup (r);
      std::vector<float> x (pos + F);
      x[pos] = 1;
      const std::vector<float> y = e.run (r, c, bl, x);
      res.h.assign (y.begin() + pos * ratio, y.end());
      res.shift = 0;
    }
  else
    {
      res.h.resize (F * ratio);
      for (uint p = 0; p < ratio; p++)
        {
          R r = c.make();
          setup (r);
          std::vector<float> x ((pos + F) * ratio);
          x[pos * ratio + p] = 1;
          const std::vector<float> y = e.run (r, c, bl, x);
          for (size_t m = pos; m < pos + F; m++)
            res.h[(m - pos) * ratio + ratio - 1 - p] = y[m];
        }
      res.shift = -double (ratio - 1);
    }
  return res;
}

struct Band {
  double lo, hi;                // cycles per sample at the higher rate
};

inline std::vector<Band>
passbands (const Cfg& c)
{
  return { { 0, 18 / 44.1 / c.ratio } };
}
// images of the passband / what aliases into the passband
inline std::vector<Band>
stopbands (const Cfg& c)
{
  std::vector<Band> v;
  for (uint k = 1; k <= c.ratio / 2; k++)
    v.push_back ({ (k - 18 / 44.1) / c.ratio, std::min (0.5, (k + 18 / 44.1) / c.ratio) });
  return v;
}

struct Extreme {
  double value = 0, freq = 0;   // certified upper bound of the maximum in the bands, and where
  double seen = 0;              // largest value at a grid point
  size_t points = 0;
};

// maximum of |(|H|/gain) - target| over the bands (all real frequencies: the second derivative bounds what happens between grid points)
inline Extreme
extreme (const Cfg& c, const Response& r, const std::vector<Band>& bands, double target, uint log2n = 0)
{
  const double gain = c.mode == R::UP ? c.ratio : 1;
  if (!log2n)
    log2n = c.filt == R::FILTER_FIR ? 18 : 19;
  const size_t N = size_t (1) << log2n, L = r.h.size();
  // centre of mass: makes the derivatives small
  double s0 = 0, s1 = 0;
  for (size_t i = 0; i < L; i++)
    {
      s0 += double (r.h[i]) * r.h[i];
      s1 += double (r.h[i]) * r.h[i] * i;
    }
  const double cen = s0 > 0 ? s1 / s0 : 0;
  double b3 = 0;
  std::vector<cplx> a (N), d (N);
  for (size_t i = 0; i < L; i++)
    {
      // real sequences: two transforms in one
      const double n = double (i) - cen, v = r.h[i] / gain;
      a[i % N] += cplx (v, n * v);
      d[i % N] += n * n * v;
      b3 += fabs (n * n * n * v);
    }
  fft (a);
  fft (d);
  const double del = 2 * M_PI / N;
  Extreme ex;
  for (const Band& b : bands)
    {
      const long k0 = floor (b.lo * N), k1 = ceil (b.hi * N);
      for (long k = k0; k <= k1; k++)
        {
          const cplx A = a[k % N], B = std::conj (a[(N - k) % N]);
          const cplx H = (A + B) * 0.5, D = (A - B) * cplx (0, -0.5);
          // |H(w+e)| differs from |H(w)| by at most e|D| + e^2/2 |D2| + e^3/6 b3, with e <= del/2
          // more precisely, the slope of |H| is Re (conj (H) * -j D) / |H| where |H| is not small
          const double m = std::abs (H), dev = fabs (m - target);
          const double e = del / 2, rest = e * e / 2 * std::abs (d[k % N]) + e * e * e / 6 * b3;
          double slope = std::abs (D);
          if (target > 0 && m > 0.5)
            {
              slope = fabs ((std::conj (H) * cplx (0, -1) * D).real()) / m;
              // curvature of the modulus due to rotation: |D|^2 / |H|
            }
          double bound = dev + e * slope + rest;
          if (target > 0 && m > 0.5)
            bound += e * e / 2 * std::norm (D) / (m - e * std::abs (D));
          ex.points++;
          const double f = double (k) / N;
          if (f >= b.lo && f <= b.hi && dev > ex.seen)
            ex.seen = dev;
          if (bound > ex.value)
            {
              ex.value = bound;
              ex.freq = f;
            }
        }
    }
  return ex;
}

inline double db (double x) { return 20 * log10 (x > 1e-30 ? x : 1e-30); }

// block partitions and pasts under which the response is observed: calls f (description, blocks, position of the impulse, setup)
template<class F> void
histories (const Cfg& c, bool th, F f)
{
  const uint N = c.filt == R::FILTER_FIR ? 58 : 24;
  auto none = [] (R&) {};
  f ("one block", std::vector<Block>(), 0, none);
  // impulse at every position of a block of every length
  for (uint n = 1; n <= (th ? 2 * N : N + 8); n++)
    for (uint k = 0; k < n; k += th ? 1 : 1 + n / 4)
      f ("impulse in a single first block", std::vector<Block> { { n, n % 4, k % 4 } }, k, none);
  for (uint n = 1; n <= (th ? 70 : 12); n++)
    for (uint k : { 0u, n / 2, 3 * n - 1, 7 * n + n / 2 })
      f ("impulse in a regular partition", std::vector<Block> (th ? 200 : 60, Block { n, n % 4, n % 3 }), k, none);
  for (uint s : { 0u, 1u, 2u, 3u })
    f ("used, then reset", std::vector<Block> { { 3 + s, s, 0 }, { 0, 0, 0 }, { 50 + s, s, 1 } }, 2 + s, [&c, s] (R& r) {
      std::vector<float> x, y;
      Exec e (2000);
      for (int i = 0; i < 2000; i++)
        x.push_back (dense (i, s));
      e.step (r, c, { 70 + 9 * s, s, 0 }, x, 0, y);
      r.reset();
    });
  for (uint base : { 512u, 1024u, 2048u, 4096u })
    for (int d : { -1, 0, 1 })
      if (th || base == 1024 || d == 0)
        {
          f ("around the chunk size", std::vector<Block> { { base + d, 0, 0 }, { 40, 0, 0 } }, base / c.in_per_frame() - 3, none);
          f ("around the chunk size", std::vector<Block> { { base + d, 0, 0 }, { 40, 0, 0 } }, base + d - 2, none);
        }
}
