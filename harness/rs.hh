// Resampler-specific helpers: configurations, block execution, signals.  Public API only.
#pragma once
#include "pandaresampler.hh"
#include "mc.hh"

using R = PandaResampler::Resampler2;
typedef unsigned int uint;

struct Cfg {
  R::Mode      mode;
  uint         ratio;
  R::Precision prec;
  bool         sse;
  R::Filter    filt;

  std::string
  name() const
  {
    char b[80];
    snprintf (b, sizeof (b), "%s-%s-x%u-p%d-%s", filt == R::FILTER_FIR ? "fir" : "iir", mode == R::UP ? "up" : "down", ratio, int (prec), sse ? "sse" : "fpu");
    return b;
  }
  R make() const { return R (mode, ratio, prec, sse, filt); }
  R *make_new() const { return new R (mode, ratio, prec, sse, filt); }
  // number of samples per "frame": one frame is one sample at the lower rate
  uint in_per_frame() const  { return mode == R::UP ? 1 : ratio; }
  uint out_per_frame() const { return mode == R::UP ? ratio : 1; }
};

static const R::Precision kPrecs[] = { R::PREC_LINEAR, R::PREC_48DB, R::PREC_72DB, R::PREC_96DB, R::PREC_120DB, R::PREC_144DB };

enum { FIR = 1, IIR = 2 };

inline std::vector<Cfg>
configs (int filters, std::vector<uint> ratios = { 2, 4, 8 }, bool linear = true)
{
  std::vector<Cfg> v;
  for (int f : { FIR, IIR })
    if (filters & f)
      for (uint ratio : ratios)
        for (int p = 5; p >= 0; p--)
          {
            if (kPrecs[p] == R::PREC_LINEAR && (f == IIR || !linear))
              continue;
            for (R::Mode m : { R::UP, R::DOWN })
              for (bool sse : { true, false })
                v.push_back ({ m, ratio, kPrecs[p], sse, f == FIR ? R::FILTER_FIR : R::FILTER_IIR });
          }
  return v;
}

// a 64-byte aligned scratch buffer of floats
struct Arena {
  std::vector<float> mem;
  float *base;
  size_t n;
  Arena (size_t n) : mem (n + 32), n (n)
  {
    base = (float *) (((uintptr_t) mem.data() + 63) & ~uintptr_t (63));
  }
  float *at (uint off) { return base + off; }
};

struct Block { uint frames, ia, oa; };       // frames, input / output misalignment in floats

/* Feeds blocks of a stream to a resampler.  The memory around the input block holds NaNs, so that
 * a read outside of the block that matters becomes visible in the output; the output block is
 * prefilled with a marker so that samples which are not written become visible.
 */
struct Exec {
  static constexpr uint PAD = 16;
  Arena in, out;
  // where the blocks are: always at the same place; output directly behind or before the input; each block directly behind
  // the last one (ring buffer), whose input is overwritten in the meantime or still there; each directly before the last one;
  // at two places in turn; input where the last output was
  enum Layout { SEPARATE, OUT_AFTER_IN, OUT_BEFORE_IN, CONSECUTIVE, CONSECUTIVE_KEPT, DESCENDING, PING_PONG, WHERE_OUTPUT_WAS } layout = SEPARATE;
  static const char *
  layout_name (Layout l)
  {
    static const char *n[] = { "", "output directly after input: ", "output directly before input: ", "blocks one after another in a ring buffer: ", "blocks one after another in a ring buffer which is not cleared: ",
                               "each block directly before the last one: ", "two buffers in turn: ", "input where the last output was: " };
    return n[l];
  }
  size_t ring = 6000, icur = 0, ocur = 0, turn = 0;
  Exec (size_t max_samples) : in (max_samples + 128), out (max_samples + 128) {}

  // feed frames [pos, pos+b.frames) of stream x; append output to y
  void
  step (R& r, const Cfg& c, const Block& b, const std::vector<float>& x, size_t pos, std::vector<float>& y)
  {
    const uint   ni = b.frames * c.in_per_frame(), no = b.frames * c.out_per_frame();
    float       *pi = in.at (PAD + b.ia), *po = out.at (PAD + b.oa);
    const float  nan = __builtin_nanf ("");
    if (layout == OUT_AFTER_IN)
      po = pi + ni;
    else if (layout == OUT_BEFORE_IN)
      {
        po = in.at (PAD + b.ia);
        pi = po + no;
      }
    const bool ranged = layout >= CONSECUTIVE && layout <= DESCENDING;
    if (pos == 0)
      icur = ocur = turn = 0;
    if (ranged)
      {
        const bool down = layout == DESCENDING;
        if (icur + ni > ring || (down && !turn))
          icur = 0;
        if (ocur + no > ring || (down && !turn))
          ocur = 0;
        pi = down ? in.at (2 * PAD + std::max<size_t> (ring, ni) + b.ia - icur - ni) : in.at (PAD + icur);
        po = down ? out.at (2 * PAD + std::max<size_t> (ring, no) + b.oa - ocur - no) : out.at (PAD + ocur);
        if (!down && !turn)
          {
            pi += b.ia, po += b.oa;
            icur += b.ia, ocur += b.oa;
          }
        icur += ni;
        ocur += no;
      }
    else if (layout == PING_PONG && turn % 2)
      {
        pi += 2 * PAD + ni;
        po += 2 * PAD + no;
      }
    else if (layout == WHERE_OUTPUT_WAS && turn % 2)
      std::swap (pi, po);
    turn++;
    for (uint i = 0; i < PAD; i++)
      {
        if (layout != CONSECUTIVE_KEPT)
          pi[-1 - int (i)] = nan;
        pi[ni + i] = nan;
      }
    const size_t k = pos * c.in_per_frame();
    const size_t avail = k < x.size() ? std::min<size_t> (ni, x.size() - k) : 0;
    if (avail)
      memcpy (pi, x.data() + k, avail * sizeof (float));
    if (avail < ni)
      memset (pi + avail, 0, (ni - avail) * sizeof (float));
    for (uint i = 0; i < no; i++)
      po[i] = 12345.f;
    r.process_block (pi, ni, po);
    y.insert (y.end(), po, po + no);
    if (ranged && layout != CONSECUTIVE_KEPT)
      for (uint i = 0; i < ni; i++)
        pi[i] = nan;
  }
  std::vector<float>
  run (R& r, const Cfg& c, const std::vector<Block>& seq, const std::vector<float>& x)
  {
    std::vector<float> y;
    size_t pos = 0;
    for (auto& b : seq)
      {
        step (r, c, b, x, pos, y);
        pos += b.frames;
      }
    return y;
  }
};

inline size_t
total_frames (const std::vector<Block>& seq)
{
  size_t t = 0;
  for (auto& b : seq)
    t += b.frames;
  return t;
}

inline std::string
seq_str (const std::vector<Block>& seq)
{
  std::string s;
  char b[64];
  for (size_t i = 0; i < seq.size(); )
    {
      size_t k = i;
      while (k < seq.size() && seq[k].frames == seq[i].frames && seq[k].ia == seq[i].ia && seq[k].oa == seq[i].oa)
        k++;
      snprintf (b, sizeof (b), "%s%u@%u/%u", i ? " " : "", seq[i].frames, seq[i].ia, seq[i].oa);
      s += b;
      if (k - i > 1)
        s += "*" + std::to_string (k - i);
      i = k;
      if (s.size() > 700) { s += " ..."; break; }
    }
  return s;
}

// deterministic dense test signal in [-1,1] with 12-bit values
inline float
dense (size_t t, uint salt = 0)
{
  uint64_t h = mc::mix (0x1234 + salt, t);
  return (int ((h >> 20) & 4095) - 2048) / 2048.f;
}

inline uint64_t
hash_out (const std::vector<float>& y)
{
  uint64_t h = 1469598103934665603ull;
  for (float f : y)
    {
      uint32_t u;
      memcpy (&u, &f, 4);
      h = mc::mix (h, u);
    }
  return h;
}

/* Reference model of a FIR configuration: the response to a unit impulse at each input phase,
 * observed once from a fresh instance fed with one block.
 */
struct FirModel {
  Cfg c;
  std::vector<std::vector<float>> env;
  std::vector<std::vector<float>> h;    // per input phase: output samples after the impulse' frame start
  uint W = 0;                           // frames until the response is over
  double l1 = 0;

  explicit FirModel (const Cfg& c) : c (c)
  {
    const uint M = 180;                 // frames: longest response is below 60 frames
    for (uint p = 0; p < c.in_per_frame(); p++)
      {
        R r = c.make();
        Exec e (M * c.ratio);
        std::vector<float> x (M * c.in_per_frame());
        x[p] = 1;
        std::vector<float> y = e.run (r, c, { { M, 0, 0 } }, x);
        for (size_t j = 0; j < y.size(); j++)
          if (y[j] != 0)
            W = std::max<uint> (W, j / c.out_per_frame() + 1);
        h.push_back (y);
      }
    for (auto& v : h)
      v.resize (W * c.out_per_frame());
    for (auto& v : h)
      for (float f : v)
        l1 += fabs (f);
    // local magnitude of the response: bounds the terms summed up for one output sample
    const int win = c.out_per_frame() == 1 ? 16 : c.ratio == 2 ? 0 : 8 * c.ratio;
    for (auto& v : h)
      {
        std::vector<float> e (v.size());
        for (int j = 0; j < int (v.size()); j++)
          for (int k = std::max (0, j - win); k <= std::min<int> (v.size() - 1, j + win); k++)
            e[j] = std::max<float> (e[j], fabs (v[k]));
        env.push_back (e);
      }
  }
  // relative accuracy of one output for a single impulse (x2: one product, otherwise a short sum)
  double rel() const { return c.ratio == 2 ? 3e-7 : c.prec == R::PREC_LINEAR ? 0 : 4e-6; }
  // is y the response to impulses (position in input samples, amplitude), which do not overlap?
  // returns index of the first wrong output or -1
  long
  check (const std::vector<std::pair<size_t, float>>& imps, const std::vector<float>& y, double& expect) const
  {
    const uint ipf = c.in_per_frame(), opf = c.out_per_frame();
    size_t done = 0;
    for (auto& im : imps)
      {
        const size_t o = im.first / ipf * opf;
        for (; done < std::min (o, y.size()); done++)
          if (!(y[done] == 0))
            {
              expect = 0;
              return done;
            }
        const std::vector<float>& g = h[im.first % ipf];
        const std::vector<float>& e = env[im.first % ipf];
        const double r = rel() * fabs (im.second);
        for (size_t j = 0; j < g.size() && o + j < y.size(); j++)
          if (!(fabs (y[o + j] - double (im.second) * g[j]) <= r * (c.ratio == 2 ? fabs (g[j]) : e[j])))
            {
              expect = double (im.second) * g[j];
              return o + j;
            }
        done = o + g.size();
      }
    for (; done < y.size(); done++)
      if (!(y[done] == 0))
        {
          expect = 0;
          return done;
        }
    return -1;
  }
  // superposition; out_frames frames of output for the (sparse) input x
  void
  predict (const std::vector<float>& x, size_t out_frames, std::vector<double>& y) const
  {
    const uint ipf = c.in_per_frame(), opf = c.out_per_frame();
    y.assign (out_frames * opf, 0);
    for (size_t t = 0; t < x.size() && t / ipf < out_frames; t++)
      if (x[t] != 0)
        {
          const std::vector<float>& g = h[t % ipf];
          const size_t o = t / ipf * opf;
          for (size_t j = 0; j < g.size() && o + j < y.size(); j++)
            y[o + j] += double (x[t]) * g[j];
        }
  }
};

/* Collects what is written to standard error (file descriptor 2). */
struct ErrCapture {
  int fd;
  ErrCapture()
  {
    fd = memfd_create ("stderr", 0);
    fflush (stderr);
    dup2 (fd, 2);
  }
  // number of bytes written since the last call
  size_t
  take()
  {
    fflush (stderr);
    off_t n = lseek (fd, 0, SEEK_CUR);
    if (ftruncate (fd, 0)) {}
    lseek (fd, 0, SEEK_SET);
    return n;
  }
};

inline bool
same_bits (const float *a, const float *b, size_t n)
{
  return memcmp (a, b, n * sizeof (float)) == 0;
}

// equal as numbers or the same bits (NaN); -0 equals 0
inline bool
same_value (float a, float b)
{
  return a == b || (a != a && b != b);
}
