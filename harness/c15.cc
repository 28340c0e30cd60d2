// C15: every variant of the half-band IIR kernels against a direct implementation of the two-path all-pass filter.
#include "mc.hh"
#include "pandaresampler/hiir/Downsampler2xFpu.h"
#include "pandaresampler/hiir/Upsampler2xFpu.h"
#include "pandaresampler/hiir/Downsampler2xFpuTpl.h"
#include "pandaresampler/hiir/Upsampler2xFpuTpl.h"
#ifdef __SSE__
#include "pandaresampler/hiir/Downsampler2xSse.h"
#include "pandaresampler/hiir/Upsampler2xSse.h"
#endif
#include "pandaresampler/hiir/PolyphaseIir2Designer.h"
#if PART == 1
#include "pandaresampler/hiir/PolyphaseIir2Designer.cpp"
#endif
using namespace mc;
using namespace PandaResampler::hiir;
using std::vector;
typedef unsigned int uint;

/* Reference: two chains of first order all-pass sections at the lower rate, y[n] = a (x[n] - y[n-1]) + x[n-1] */
struct Ref {
  vector<double> a;
  vector<double> x1, y1;
  explicit Ref (const vector<double>& a) : a (a) { clear(); }
  void clear() { x1.assign (a.size(), 0); y1.assign (a.size(), 0); }
  double
  path (int p, double x)
  {
    for (size_t i = p; i < a.size(); i += 2)
      {
        const double y = a[i] * (x - y1[i]) + x1[i];
        x1[i] = x;
        y1[i] = y;
        x = y;
      }
    return x;
  }
  void up (double x, double& o0, double& o1) { o0 = path (0, x); o1 = path (1, x); }
  void
  down (double i0, double i1, double& low, double& high)
  {
    const double p0 = path (0, i1), p1 = path (1, i0);
    low = (p0 + p1) / 2;
    high = (p0 - p1) / 2;
  }
};

static vector<double>
coefficients (int nc, int set)
{
  vector<double> c (nc);
  if (set < 3)
    PolyphaseIir2Designer::compute_coefs_spec_order_tbw (c.data(), nc, set == 0 ? 0.0918 : set == 1 ? 0.01 : 0.3);
  else
    for (int i = 0; i < nc; i++)
      c[i] = 0.05 + 0.9 * ((i * 7 + set) % nc + 0.5) / nc;      // in no particular order
  return c;
}

static double
signal (int kind, size_t t)
{
  if (kind == 1)
    return t == 1 || t == 8 ? 1 : 0;
  return (int ((mix (0x77, t) >> 20) & 4095) - 2048) / 2048.0;
}

static const double SCALE[3] = { 1, 0x1p60, 0x1p-60 };

template<class DT> struct Buf {                  // markers around everything that may be written
  static const int N = 9000;
  int used = 0, in_at = 0;                      // the output at 64, the input from in_at on
  DT mem[N];
  vector<char> may;                             // samples that belong to the block
  Buf() : may (N) {}
  void
  init (int frames)
  {
    used = frames <= 130 ? 1200 : N;
    in_at = frames <= 130 ? 600 : 4400;
    for (int i = 0; i < used; i++)
      mem[i] = DT (-12345.678);
    std::fill (may.begin(), may.begin() + used, 0);
  }
  void allow (const DT *p, int n) { for (int i = 0; i < n; i++) may[p - mem + i] = 1; }
  int
  touched() const
  {
    for (int i = 0; i < used; i++)
      if (!may[i] && mem[i] != DT (-12345.678))
        return i;
    return -1;
  }
};

// one operation; results are appended to o (UP: pairs, DOWN: low and high, high = NaN if not computed)
template<class K, class DT> struct UpOps {
  static const int N = 11;
  static const char *
  name (int op)
  {
    static const char *n[N] = { "sample", "block-1", "block-2", "block-3", "block-7", "overlap-4", "overlap-5-gap", "clear", "copy", "assign", "block-33" };
    return n[op];
  }
  static int
  frames (int op)
  {
    static const int f[N] = { 1, 1, 2, 3, 7, 4, 5, 0, 0, 0, 33 };
    return f[op];
  }
  static int in_per_frame() { return 1; }
  static void
  run (Ctx& ctx, K& k, int op, const DT *x, int n, uint al, Buf<DT>& b, vector<DT>& o)
  {
    b.init (n);
    if (op == 0)
      {
        DT o0 = 0, o1 = 0;
        k.process_sample (o0, o1, x[0]);
        o.push_back (o0);
        o.push_back (o1);
        return;
      }
    DT *out = b.mem + 64 + al, *in = op == 5 ? out + n : op == 6 ? out + n + 1 : b.mem + b.in_at + al / 2;
    memcpy (in, x, n * sizeof (DT));
    b.allow (in, n);
    b.allow (out, 2 * n);
    k.process_block (out, in, n);
    const int t = b.touched();
    if (t >= 0)
      ctx.fail ("%s writes outside of its output block", name (op));
    if (op < 5 || op == 10)
      if (memcmp (in, x, n * sizeof (DT)))
        ctx.fail ("%s changes its input", name (op));
    o.insert (o.end(), out, out + 2 * n);
  }
  static void
  ref (Ref& r, const double *x, int n, int, vector<double>& o)
  {
    for (int i = 0; i < n; i++)
      {
        double a, b;
        r.up (x[i], a, b);
        o.push_back (a);
        o.push_back (b);
      }
  }
};

template<class K, class DT> struct DownOps {
  static const int N = 15;
  static const char *
  name (int op)
  {
    static const char *n[N] = { "sample", "block-1", "block-2", "block-3", "block-7", "in-place-4", "out-before-5", "clear", "copy", "assign", "block-33", "split-sample", "split-3", "split-in-place-4", "split-high-in-place-5" };
    return n[op];
  }
  static int
  frames (int op)
  {
    static const int f[N] = { 1, 1, 2, 3, 7, 4, 5, 0, 0, 0, 33, 1, 3, 4, 5 };
    return f[op];
  }
  static int in_per_frame() { return 2; }
  static void
  run (Ctx& ctx, K& k, int op, const DT *x, int n, uint al, Buf<DT>& b, vector<DT>& o)
  {
    const DT nan = DT (NAN);
    b.init (n);
    DT *in = b.mem + b.in_at + al / 2, *out = op == 5 ? in : op == 6 ? in - 3 : b.mem + 64 + al, *high = nullptr;
    if (op == 12)
      high = out + n + 3;
    if (op == 13)
      {
        out = in;
        high = in + 2 * n;
      }
    if (op == 14)
      {
        high = in;
        out = in - 5;
      }
    memcpy (in, x, 2 * n * sizeof (DT));
    b.allow (in, 2 * n);
    if (op == 0)
      {
        o.push_back (k.process_sample (in));
        o.push_back (nan);
      }
    else if (op == 11)
      {
        DT l = 0, h = 0;
        k.process_sample_split (l, h, in);
        o.push_back (l);
        o.push_back (h);
      }
    else
      {
        b.allow (out, n);
        if (high)
          {
            b.allow (high, n);
            k.process_block_split (out, high, in, n);
          }
        else
          k.process_block (out, in, n);
        for (int i = 0; i < n; i++)
          {
            o.push_back (out[i]);
            o.push_back (high ? high[i] : nan);
          }
      }
    if (b.touched() >= 0)
      ctx.fail ("%s writes outside of its output block", name (op));
    if (op < 5 || (op >= 10 && op < 13))
      if (memcmp (in, x, 2 * n * sizeof (DT)))
        ctx.fail ("%s changes its input", name (op));
  }
  static void
  ref (Ref& r, const double *x, int n, int op, vector<double>& o)
  {
    for (int i = 0; i < n; i++)
      {
        double l, h;
        r.down (x[2 * i], x[2 * i + 1], l, h);
        o.push_back (l);
        o.push_back (op >= 11 ? h : NAN);
      }
  }
};

template<class K, class DT, int NC, template<class, class> class Ops>
static void
explore (Ctx& ctx)
{
  typedef Ops<K, DT> O;
  const int ipf = O::in_per_frame();
  static Buf<DT> buf;
  const bool light = NC > 13;
  for (int set = 0; set < (ctx.thorough ? 5 : 4); set++)
    {
      if (light && (set == 0 || set == 2))      // beyond double precision
        continue;
      const vector<double> c = coefficients (NC, set);
      double sens = 1;
      for (double a : c)
        sens += 1 / (1 - a);
      const double rel = (sizeof (DT) == 4 ? 1e-6 : 2e-15) * sens;
      uint phase = 0;
      // one sequence of operations on one kernel, a copy that is always up to date with clear(), and the reference
      auto run = [&] (const vector<int>& ops, const vector<int>& lens, int kind, double scale) {
        std::string d;
        for (size_t i = 0; i < ops.size(); i++)
          d += std::string (" ") + O::name (ops[i]) + (lens.size() ? "=" + std::to_string (lens[i]) : "");
        if (!ctx.begin ("coefficient set %d, signal %d times %g:%s", set, kind, scale, d.c_str()))
          return;
        K *k = new K, *other = new K;
        k->set_coefs (c.data());
        other->set_coefs (c.data());
        K *twin = nullptr;                     // a new one since the last clear_buffers
        Ref r (c);
        vector<double> hist;                    // input since the start
        size_t pos = 0;
        uint64_t h = mix (set, kind);
        double peak = 0;
        vector<DT> o, o2;
        vector<double> e, xd;
        vector<DT> x;
        for (size_t i = 0; i < ops.size(); i++)
          {
            const int op = ops[i], n = lens.size() ? lens[i] : O::frames (op);
            h = mix (h, op * 1000 + n);
            ctx.state (h);
            if (op == 7)
              {
                k->clear_buffers();
                r.clear();
                delete twin;
                twin = new K;
                twin->set_coefs (c.data());
                peak = 0;
                continue;
              }
            if (op == 8)
              {
                K *k2 = new K (*k);
                delete k;
                k = k2;
                continue;
              }
            if (op == 9)
              {
                *other = *k;
                std::swap (k, other);
                continue;
              }
            x.resize (n * ipf);
            xd.resize (n * ipf);
            for (int j = 0; j < n * ipf; j++)
              {
                x[j] = xd[j] = signal (kind, pos++) * scale;
                peak = std::max (peak, fabs (xd[j]));
              }
            o.clear();
            e.clear();
            O::run (ctx, *k, op, x.data(), n, phase = (phase + 5) % 8, buf, o);
            O::ref (r, xd.data(), n, op, e);
            for (size_t j = 0; j < e.size(); j++)
              if (e[j] == e[j] && !(fabs (double (o[j]) - e[j]) <= rel * peak))
                ctx.fail ("operation %zu (%s): value %zu is %.12g, the filter gives %.12g", i, O::name (op), j, double (o[j]), e[j]);
            ctx.eval (e.size());
            if (twin)
              {
                o2.clear();
                O::run (ctx, *twin, op, x.data(), n, phase, buf, o2);
                for (size_t j = 0; j < o.size(); j++)
                  if (!(o[j] == o2[j]) && (o[j] == o[j] || o2[j] == o2[j]))
                    ctx.fail ("operation %zu (%s): value %zu is %.12g, but %.12g without the past before clear_buffers", i, O::name (op), j, double (o[j]), double (o2[j]));
              }
            uint64_t u = h;
            for (DT v : o)
              u = mix (u, uint64_t (int64_t (double (v) / scale * 1e6)));
            ctx.transition (u);
            ctx.outcome (u);
          }
        delete k;
        delete other;
        delete twin;
      };
      // all sequences
      const int depth = light ? (ctx.thorough ? 4 : 2) : ctx.thorough ? 5 : 4;
      int total = 1;
      for (int i = 0; i < depth; i++)
        total *= O::N;
      for (int code = 0; code < total; code++)
        {
          vector<int> ops;
          for (int i = 0, v = code; i < depth; i++, v /= O::N)
            ops.push_back (v % O::N);
          ops.push_back (code % 3 == 0 ? 3 : code % 3 == 1 ? 0 : 4);
          run (ops, {}, code % 5 == 4, SCALE[code % 7 < 5 ? 0 : code % 7 - 4]);
        }
      // all lengths, and pairs of lengths
      const int L = ctx.thorough ? 130 : 66;
      vector<int> kinds = { 4 };
      if (O::N > 11)
        kinds.push_back (12);
      for (int op : kinds)
        {
          for (int n = 1; n <= L; n++)
            for (int kind = 0; kind < 2; kind++)
              run ({ op }, { n }, kind, 1);
          const int M = ctx.thorough ? 20 : 10;
          for (int a = 1; a <= M; a++)
            for (int b = 1; b <= M; b++)
              run ({ op, op, 0, op }, { a, b, 1, 5 }, (a + b) % 2, 1);
        }
      // long blocks
      for (int op : kinds)
        for (int base : { 96, 128, 192, 256, 384, 512, 640, 768, 1000, 1024, 1280, 1536, 1792, 2048 })
          for (int d = -5; d <= 5; d++)
            if (base + d <= 2048)
              run ({ op, 0, op }, { base + d, 1, 3 }, 0, 1);
      // long runs: no drift
      for (int n : { 1, 2, 5, 64 })
        run (vector<int> (ctx.thorough ? 4000 : 400, n == 1 ? 0 : 4), vector<int> (ctx.thorough ? 4000 : 400, n), 0, 1);
    }
}

template<int NC>
static void
add (vector<Item>& items)
{
  auto n = [] (const char *s) { return std::string (s) + "-" + std::to_string (NC); };
  items.push_back ({ n ("up-float"),    explore<Upsampler2xFpu<NC>, float, NC, UpOps> });
  items.push_back ({ n ("up-double"),   explore<Upsampler2xFpuTpl<NC, double>, double, NC, UpOps> });
  items.push_back ({ n ("down-float"),  explore<Downsampler2xFpu<NC>, float, NC, DownOps> });
  items.push_back ({ n ("down-double"), explore<Downsampler2xFpuTpl<NC, double>, double, NC, DownOps> });
#ifdef __SSE__
  items.push_back ({ n ("up-sse"),      explore<Upsampler2xSse<NC>, float, NC, UpOps> });
  items.push_back ({ n ("down-sse"),    explore<Downsampler2xSse<NC>, float, NC, DownOps> });
#endif
}

#ifndef PART
#error PART selects the numbers of coefficients: 1..7 and 13 - PART + 1
#endif
#define CAT2(A, B) A ## B
#define CAT(A, B) CAT2 (A, B)
void
CAT (add_part, PART) (vector<Item>& items)
{
#if PART <= 7
  add<PART> (items);
  if (PART < 7)
    add<14 - PART> (items);
#elif PART == 8
  add<14> (items);
  add<15> (items);
  add<16> (items);
  add<17> (items);
#elif PART == 9
  add<18> (items);
  add<20> (items);
  add<21> (items);
  add<24> (items);
#elif PART == 10
  add<31> (items);
  add<32> (items);
  add<33> (items);
#endif
}

#if PART == 1
void add_part2 (vector<Item>&);
void add_part3 (vector<Item>&);
void add_part4 (vector<Item>&);
void add_part5 (vector<Item>&);
void add_part6 (vector<Item>&);
void add_part7 (vector<Item>&);
void add_part8 (vector<Item>&);
void add_part9 (vector<Item>&);
void add_part10 (vector<Item>&);
int
main (int argc, char **argv)
{
  vector<Item> items;
  add_part1 (items); add_part2 (items); add_part3 (items); add_part4 (items); add_part5 (items); add_part6 (items); add_part7 (items);
  add_part8 (items); add_part9 (items); add_part10 (items);
  return mc::main (argc, argv, items);
}
#endif
