// C19: the processing path does not allocate, lock, do I/O or use much stack.
// Every public function that may be called in an audio thread runs on a painted stack, with the allocator,
// synchronisation and stdio functions wrapped and every system call trapped (syscall user dispatch).
#include "alloc.hh"
#include "rs.hh"
#include <memory>
#include <sys/prctl.h>
#include <ucontext.h>
using namespace mc;
using std::vector;

static const char *volatile g_bad = nullptr;     // first forbidden call
static volatile bool g_rt = false;               // inside of the real-time path

#define RT_WRAP(ret, name, args, call)                          \
  extern "C" ret __real_##name args;                            \
  extern "C" ret __wrap_##name args                             \
  {                                                             \
    if (g_rt && !g_bad) g_bad = #name;                          \
    return __real_##name call;                                  \
  }
RT_WRAP (int, pthread_mutex_lock, (void *a), (a))
RT_WRAP (int, pthread_mutex_trylock, (void *a), (a))
RT_WRAP (int, pthread_mutex_unlock, (void *a), (a))
RT_WRAP (int, pthread_rwlock_rdlock, (void *a), (a))
RT_WRAP (int, pthread_rwlock_wrlock, (void *a), (a))
RT_WRAP (int, pthread_cond_wait, (void *a, void *b), (a, b))
RT_WRAP (int, pthread_once, (void *a, void (*f)()), (a, f))
RT_WRAP (int, pthread_spin_lock, (void *a), (a))
RT_WRAP (int, __cxa_guard_acquire, (void *a), (a))
RT_WRAP (int, puts, (const char *s), (s))
RT_WRAP (int, putchar, (int c), (c))
RT_WRAP (int, fputc, (int c, void *f), (c, f))
RT_WRAP (int, fputs, (const char *s, void *f), (s, f))
RT_WRAP (size_t, fwrite, (const void *p, size_t a, size_t b, void *f), (p, a, b, f))
RT_WRAP (int, fflush, (void *f), (f))
#define RT_PRINTF(name, args, last, call)                       \
  extern "C" int __wrap_##name args                             \
  {                                                             \
    if (g_rt && !g_bad) g_bad = #name;                          \
    va_list ap;                                                 \
    va_start (ap, last);                                        \
    const int r = call;                                         \
    va_end (ap);                                                \
    return r;                                                   \
  }
RT_PRINTF (printf, (const char *f, ...), f, vprintf (f, ap))
RT_PRINTF (fprintf, (FILE *o, const char *f, ...), f, vfprintf (o, f, ap))
RT_PRINTF (__printf_chk, (int, const char *f, ...), f, vprintf (f, ap))
RT_PRINTF (__fprintf_chk, (FILE *o, int, const char *f, ...), f, vfprintf (o, f, ap))

static volatile char g_selector = 0;             // 1: system calls are trapped
static char g_sysname[64];
static bool g_sud = false;

static void
on_sigsys (int, siginfo_t *si, void *uc)
{
  g_selector = 0;
  snprintf (g_sysname, sizeof (g_sysname), "system call %d", si->si_syscall);
  if (!g_bad)
    g_bad = g_sysname;
  ((ucontext_t *) uc)->uc_mcontext.gregs[REG_RAX] = -ENOSYS;
}

struct PaintedStack {
  static const size_t SIZE = 128 * 1024, LIMIT = 64 * 1024, SLACK = 1024;      // slack: frames of the harness
  unsigned char *mem;
  ucontext_t here, there;
  std::function<void()> fn;
  size_t used_before = SIZE;
  PaintedStack()
  {
    // 1 MB of guard pages below the stack
    mem = (unsigned char *) mmap (nullptr, SIZE + (1 << 20), PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0) + (1 << 20);
    if (mprotect (mem, SIZE, PROT_READ | PROT_WRITE))
      abort();
  }
  static PaintedStack *self;
  static void
  entry()
  {
    g_rt = true;
    heap::on = true;
    if (g_sud)
      g_selector = 1;
    self->fn();
    g_selector = 0;
    heap::on = false;
    g_rt = false;
  }
  // runs f on this stack; returns the stack usage
  size_t
  run (std::function<void()> f)
  {
    fn = f;
    self = this;
    memset (mem + SIZE - used_before, 0xa7, used_before);
    getcontext (&there);
    there.uc_stack.ss_sp = mem;
    there.uc_stack.ss_size = SIZE;
    there.uc_link = &here;
    makecontext (&there, entry, 0);
    swapcontext (&here, &there);
    size_t i = 0;
    const uint64_t *w = (const uint64_t *) mem;
    while (i < SIZE / 8 && w[i] == 0xa7a7a7a7a7a7a7a7ull)
      i++;
    used_before = SIZE - i * 8;
    return used_before;
  }
};
PaintedStack *PaintedStack::self;

static void
explore (Ctx& ctx, const Cfg& c)
{
  const bool th = ctx.thorough;
  struct sigaction sa;
  memset (&sa, 0, sizeof (sa));
  sa.sa_sigaction = on_sigsys;
  sa.sa_flags = SA_SIGINFO;
  sigaction (SIGSYS, &sa, nullptr);
  g_sud = prctl (59 /* PR_SET_SYSCALL_USER_DISPATCH */, 1, 0, 0, &g_selector) == 0;

  PaintedStack st;
  const size_t ipf = c.in_per_frame(), opf = c.out_per_frame();
  const size_t MAXF = 300000;
  Arena in (MAXF * ipf + 64), out (MAXF * opf + 64);
  const uint O = std::max (c.make().order(), 4u);
  size_t max_stack = 0;

  enum { RESET = 1u << 31, META = 1u << 30, NANS = 1u << 29 };
  auto trace = [&] (const vector<uint>& prog, uint fresh) {
    std::string d;
    for (uint p : prog)
      d += p == RESET ? " reset" : p == META ? " delay/order/sse" : p & NANS ? " NaN:" + std::to_string (p & ~NANS) : " " + std::to_string (p);
    if (!ctx.begin ("frames per block:%s", d.substr (0, 900).c_str()))
      return;
    R r = c.make();
    uint64_t h = 1;
    for (size_t i = 0; i < prog.size(); i++)
      {
        const uint n = prog[i] & ~NANS, al = (prog.size() * 3 + n + i) & 15;
        const float *pi = in.at (al & 3);
        float       *po = out.at (al >> 2);
        if (prog[i] < RESET && prog[i] & NANS)
          for (uint k = 0; k < n * ipf; k++)
            in.at (al & 3)[k] = k % 3 ? NAN : INFINITY;
        else if (prog[i] < META)
          for (uint k = 0; k < std::min<uint> (n * ipf, 700); k++)
            in.at (al & 3)[k] = dense (k, i);
        heap::n_alloc = heap::n_free = 0;
        g_bad = nullptr;
        volatile double sink = 0;
        const size_t used = st.run ([&] {
          if (prog[i] == RESET)
            r.reset();
          else if (prog[i] == META)
            sink = r.delay() + r.order() + r.sse_enabled();
          else
            r.process_block (pi, n * ipf, po);
        });
        max_stack = std::max (max_stack, used);
        if (heap::n_alloc || heap::n_free)
          ctx.fail ("operation %zu allocated memory %ld times and freed it %ld times", i, heap::n_alloc, heap::n_free);
        if (g_bad)
          ctx.fail ("operation %zu called %s", i, g_bad);
        if (used > st.LIMIT + st.SLACK)
          ctx.fail ("operation %zu used %zu bytes of stack", i, used - st.SLACK);
        ctx.eval();
        ctx.outcome (mix (used, prog[i]));
        const uint64_t nh = mix (h, prog[i]);
        ctx.state (nh);
        ctx.transition (mix (h, nh));
        h = nh;
      }
  };
  for (uint n = 0; n <= (th ? 2200u : 2 * O + 70); n++)
    {
      trace ({ n, META, n }, 0);
      trace ({ RESET, n | (n ? NANS : 0), RESET, n + 1, META }, 0);
    }
  for (uint base : { 128, 256, 512, 1024, 1365, 2048, 3072, 4096, 8192, 16384, 32768, 65536 })
    for (int d = -2; d <= 2; d++)
      {
        trace ({ base + d }, 0);
        trace ({ 3, base + d, 1, RESET, base + d }, 0);
      }
  trace ({ 300000 - 16 }, 0);
  trace ({ 1, 290000, 290000, 0, 5 }, 0);
  const vector<uint> K = { 0, 1, 4, O / 2, O - 1, O, O + 13, 1025, RESET, META, NANS | 9 };
  for (uint a : K) for (uint b : K) for (uint d : K)
    trace ({ a, b, d }, 0);
  if (th)
    for (uint a : K) for (uint b : K) for (uint d : K) for (uint e : K)
      trace ({ a, b, d, e }, 0);
  // long histories: nothing happens later either
  vector<uint> v;
  for (uint i = 0; i < (th ? 60000 : 6000); i++)
    v.push_back (i % 97 == 96 ? (i & 1 ? RESET : META) : i % 7);
  trace (v, 0);
  char b[200];
  snprintf (b, sizeof (b), "largest stack usage %zu bytes (incl. < %zu of the harness); system calls %s", max_stack, size_t (PaintedStack::SLACK), g_sud ? "trapped" : "not trapped");
  ctx.note (b);
}

int
main (int argc, char **argv)
{
  vector<Item> items;
  for (auto& c : configs (FIR | IIR, { 1, 2, 4, 8 }))
    items.push_back ({ c.name(), [c] (Ctx& ctx) { explore (ctx, c); } });
  return mc::main (argc, argv, items);
}
