// C29: the floating point environment of the caller: left as it is, and the results do not depend on it (beyond rounding).
// All modes of the SSE control register (rounding, flush to zero, denormals are zero) and of the x87 control word (rounding,
// precision) are enumerated for every operation of every program; exceptions may be unmasked.
#include "rs.hh"
#include <new>
#include <cfenv>
#include <clocale>
#include <csetjmp>
#include <fcntl.h>
#include <locale>
#include <iostream>
#include <xmmintrin.h>
using namespace mc;
using std::vector;

static constexpr uint FTZ = 0x8000, DAZ = 0x0040, FLAGS = 0x3f, MASKS = 0x1f80;

struct Mode {
  uint mxcsr;           // control bits without the exception masks
  uint16_t cw;          // x87 control word
  bool trap;            // invalid, division by zero and overflow are not masked
  std::string
  str() const
  {
    static const char *rn[] = { "nearest", "down", "up", "zero" };
    static const char *pn[] = { "float", "?", "double", "extended" };
    char b[100];
    snprintf (b, sizeof (b), "%s%s%s x87:%s/%s%s", rn[mxcsr >> 13 & 3], mxcsr & FTZ ? "+ftz" : "", mxcsr & DAZ ? "+daz" : "", rn[cw >> 10 & 3], pn[cw >> 8 & 3], trap ? " traps" : "");
    return b;
  }
  bool rounding() const { return (mxcsr >> 13 & 3) != 0; }
};

static const Mode kDefault = { 0, 0x037f, false };

struct Env {
  uint     mxcsr;
  uint16_t cw, sw, tag;
  bool     df;
};

static inline void
set_mode (const Mode& m)
{
  uint16_t cw = m.cw;
  if (m.trap)
    cw &= ~0x0d;
  asm volatile ("fninit\n\tfldcw %0" :: "m" (cw));
  _mm_setcsr (m.mxcsr | (m.trap ? MASKS & ~0x0680u : MASKS));   // invalid 0x80, divide by zero 0x200, overflow 0x400
}

static inline Env
get_env()
{
  struct { uint16_t cw, r0, sw, r1, tag, r2; uint32_t r[4]; } x;
  uint64_t fl;
  Env e;
  e.mxcsr = _mm_getcsr();
  asm volatile ("pushfq\n\tpopq %0\n\tcld" : "=r" (fl));
  asm volatile ("fnstenv %0\n\tfldcw %1" : "=m" (x) : "m" (x.cw));
  e.cw = x.cw;
  e.sw = x.sw;
  e.tag = x.tag;
  e.df = fl & 0x400;
  return e;
}

static Ctx *g_ctx;
static const char *g_what = "";

static void
on_fpe (int)
{
  _mm_setcsr (MASKS);
  g_ctx->fail ("%s: floating point exception (invalid operation, division by zero or overflow)", g_what);
}

// runs f in mode m; checks that the environment is the same afterwards; back to the default mode
static void
in_mode (Ctx& ctx, const Mode& m, const char *what, const std::function<void()>& f)
{
  g_what = what;
  errno = 4711;
  set_mode (m);
  const Env a = get_env();
  f();
  const Env b = get_env();
  set_mode (kDefault);
  const int en = errno;
  if ((a.mxcsr & ~FLAGS) != (b.mxcsr & ~FLAGS))
    ctx.fail ("%s: MXCSR was %#x, now %#x", what, a.mxcsr & ~FLAGS, b.mxcsr & ~FLAGS);
  if (a.cw != b.cw)
    ctx.fail ("%s: x87 control word was %#x, now %#x", what, a.cw, b.cw);
  if (b.tag != 0xffff)
    ctx.fail ("%s: x87 registers in use afterwards (tag word %#x)", what, b.tag);
  if (b.df)
    ctx.fail ("%s: direction flag set afterwards", what);
  if ((b.mxcsr & 0x0d) || (b.sw & 0x0d))
    ctx.fail ("%s: exception flags %#x / %#x (invalid operation, division by zero or overflow) for ordinary input", what, b.mxcsr & 0x0d, b.sw & 0x0d);
  if (en != 4711)
    ctx.fail ("%s: errno changed to %d", what, en);
  ctx.eval (6);
}

// state of the process that a signal processing library has no business with
struct Process {
  sigset_t mask;
  struct sigaction sa[65];
  std::string loc, cwd, env, cppenv;
  std::ios::fmtflags fl;
  std::streamsize prec;
  int fds;
  rlimit rl[16];
  Process()
  {
    memset (&mask, 0, sizeof (mask));
    memset (sa, 0, sizeof (sa));
    memset (rl, 0, sizeof (rl));
    sigprocmask (SIG_SETMASK, nullptr, &mask);
    for (int i = 1; i < 65; i++)
      sigaction (i, nullptr, &sa[i]);
    loc = setlocale (LC_ALL, nullptr);
    char b[4096];
    cwd = getcwd (b, sizeof (b)) ? b : "";
    for (char **e = environ; e && *e; e++)
      env += std::string (*e) + "\n";
    cppenv = std::locale().name();
    fl = std::cout.flags();
    prec = std::cout.precision();
    fds = 0;
    for (int i = 0; i < 256; i++)
      fds += fcntl (i, F_GETFD) >= 0;
    for (int i = 0; i < 16; i++)
      getrlimit (__rlimit_resource_t (i), &rl[i]);
  }
  const char *
  diff (const Process& o) const
  {
    if (memcmp (&mask, &o.mask, sizeof (mask)))
      return "signal mask";
    for (int i = 1; i < 65; i++)
      if (sa[i].sa_handler != o.sa[i].sa_handler || sa[i].sa_flags != o.sa[i].sa_flags)
        return "signal handlers";
    if (loc != o.loc || cppenv != o.cppenv)
      return "locale";
    if (cwd != o.cwd)
      return "working directory";
    if (env != o.env)
      return "environment variables";
    if (fl != o.fl || prec != o.prec)
      return "state of std::cout";
    if (fds != o.fds)
      return "open files";
    if (memcmp (rl, o.rl, sizeof (rl)))
      return "resource limits";
    return nullptr;
  }
};

struct Run {
  const Cfg c;
  Exec ex;
  vector<float> x;
  Run (const Cfg& c) : c (c), ex (3000 * c.ratio), x (3000 * c.ratio)
  {
    for (size_t i = 0; i < x.size(); i++)
      x[i] = dense (i, 29);
  }
};

// accuracy that rounding (of coefficients, products and sums) permits, relative to the level
static double
tolerance (const Cfg& c, bool rounding)
{
  if (c.ratio == 1)
    return 0;
  if (!rounding)
    return 1e-30;
  return 1e-5;
}

static void
explore (Ctx& ctx, const Cfg& c)
{
  g_ctx = &ctx;
  const bool th = ctx.thorough;
  signal (SIGFPE, on_fpe);
  vector<Mode> modes, key;
  for (uint rc = 0; rc < 4; rc++)
    for (uint f : { 0u, FTZ, DAZ, FTZ | DAZ })
      modes.push_back ({ rc << 13 | f, uint16_t (0x037f), false });
  for (uint rc = 0; rc < 4; rc++)
    for (uint pc : { 0u, 2u, 3u })
      modes.push_back ({ rc << 13, uint16_t (0x007f | pc << 8 | rc << 10), false });
  modes.push_back ({ 0, 0x037f, true });
  modes.push_back ({ FTZ | DAZ, 0x037f, true });
  key = { modes[0], modes[3], modes[4], modes[8], modes[15], modes[16] };

  Run run (c);
  const vector<uint> lens = { 1, 5, 130, 64, 1030, 9 };
  alignas (64) static unsigned char mem[sizeof (R) + 64];
  R *r = nullptr;
  double worst = 0;
  vector<float> want;
  {
    R a = c.make();
    size_t pos = 0;
    for (uint n : lens)
      {
        run.ex.step (a, c, { n, n & 3, 0 }, run.x, pos, want);
        pos += n;
      }
  }
  auto compare = [&] (const vector<float>& y, bool rounding, const char *what) {
    const double tol = tolerance (c, rounding);
    for (size_t i = 0; i < y.size(); i++)
      {
        const double e = fabs (double (y[i]) - want[i]);
        worst = std::max (worst, e);
        if (!(e <= tol))
          ctx.fail ("%soutput %zu is %.9g, in the default mode %.9g", what, i, y[i], want[i]);
      }
    ctx.eval (y.size());
    ctx.outcome (hash_out (y));
  };
  // operations in modes mo[0] (construction), mo[1].. (blocks, cyclic), last one: reset, metadata, destruction
  auto trace = [&] (const vector<Mode>& mo, const vector<uint>& ln, const char *name) {
    std::string s;
    for (auto& m : mo)
      s += (s.empty() ? "" : ", ") + m.str();
    if (!ctx.begin ("%s: construction and operations in modes: %s", name, s.c_str()))
      return;
    const Process before;
    bool rounding = false;
    for (auto& m : mo)
      rounding |= m.rounding();
    uint64_t st = 0;
    auto visit = [&] (uint64_t op, const Mode& m) {
      const uint64_t nx = mix (st, mix (op, mix (m.mxcsr, m.cw * 2 + m.trap)));
      ctx.state (nx);
      ctx.transition (mix (st, nx));
      st = nx;
    };
    in_mode (ctx, mo[0], "construction", [&] { r = new (mem) R (c.mode, c.ratio, c.prec, c.sse, c.filt); });
    visit (1, mo[0]);
    for (int pass = 0; pass < 2; pass++)
      {
        vector<float> y;
        size_t pos = 0, k = 0;
        y.reserve (want.size());
        for (uint n : ln)
          {
            const Mode& m = mo[1 + k++ % (mo.size() - 1)];
            const uint ni = n * c.in_per_frame(), no = n * c.out_per_frame();
            float *pi = run.ex.in.at (16 + (n & 3)), *po = run.ex.out.at (16);
            memcpy (pi, &run.x[pos * c.in_per_frame()], ni * sizeof (float));
            in_mode (ctx, m, "process_block", [&] { r->process_block (pi, ni, po); });
            y.insert (y.end(), po, po + no);
            pos += n;
            visit (n, m);
          }
        compare (y, rounding, pass ? "after reset: " : "");
        const Mode& m = mo.back();
        in_mode (ctx, m, "reset", [&] { r->reset(); });
        volatile double sink;
        in_mode (ctx, m, "order, delay, sse_enabled, sse_available, find_precision_for_bits", [&] {
          sink = r->order() + r->delay() + r->sse_enabled() + R::sse_available() + R::find_precision_for_bits (18) + (R::precision_name (c.prec) != nullptr);
        });
        visit (2, m);
      }
    if (const char *d = Process().diff (before))
      ctx.fail ("changed: %s", d);
    // back to a fresh instance: moved in that mode
    const Mode& m = mo.back();
    in_mode (ctx, m, "move and destruction", [&] {
      R t (std::move (*r));
      r->~R();
    });
    if (const char *d = Process().diff (before))
      ctx.fail ("changed: %s", d);
  };
  // 1. all modes of construction with all modes of operation
  for (auto& a : modes)
    for (auto& b : modes)
      trace ({ a, b }, lens, "two modes");
  // 2. modes that change between blocks
  const uint depth = th ? 5 : 3;
  size_t total = 1;
  for (uint i = 0; i <= depth; i++)
    total *= key.size();
  for (size_t q = 0; q < total; q++)
    {
      vector<Mode> mo;
      for (size_t i = 0, k = q; i <= depth; i++, k /= key.size())
        mo.push_back (key[k % key.size()]);
      trace (mo, vector<uint> (lens.begin(), lens.begin() + 3), "changing modes");
    }
  // 3. every block length in the modes of audio hosts and with traps
  for (auto& m : { modes[3], modes[modes.size() - 2], modes.back() })
    for (uint n = 0; n <= (th ? 300u : 80u); n++)
      if (ctx.begin ("blocks of %u frames, %s", n, m.str().c_str()))
        {
          vector<float> e, y;
          R a = c.make(), b = c.make();
          for (uint k = 0; k < 4; k++)
            {
              run.ex.step (a, c, { n, k, 0 }, run.x, k * n, e);
              const uint ni = n * c.in_per_frame(), no = n * c.out_per_frame();
              float *pi = run.ex.in.at (16 + k), *po = run.ex.out.at (16);
              memcpy (pi, &run.x[size_t (k) * n * c.in_per_frame()], ni * sizeof (float));
              in_mode (ctx, m, "process_block", [&] { b.process_block (pi, ni, po); });
              y.insert (y.end(), po, po + no);
            }
          for (size_t i = 0; i < y.size(); i++)
            if (!(fabs (double (y[i]) - e[i]) <= tolerance (c, false)))
              ctx.fail ("output %zu is %.9g, in the default mode %.9g", i, y[i], e[i]);
          ctx.eval (y.size());
          ctx.state (mix (n, m.mxcsr + m.trap));
          ctx.transition (mix (n, m.mxcsr + m.trap));
          ctx.outcome (hash_out (y));
        }
  char b[100];
  snprintf (b, sizeof (b), "largest deviation in any mode: %.3g (allowed: %.3g)", worst, tolerance (c, true));
  ctx.note (b);
}

int
main (int argc, char **argv)
{
  vector<Item> items;
  for (auto& c : configs (FIR | IIR, { 1, 2, 4, 8 }))
    items.push_back ({ c.name(), [c] (Ctx& ctx) { explore (ctx, c); } });
  return mc::main (argc, argv, items);
}
