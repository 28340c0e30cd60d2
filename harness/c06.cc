// C06: interleavings of threads that use distinct instances.
//
// The library is compiled with clang's ThreadSanitizer instrumentation, but linked with the runtime below, which
// sees every load and store of the library.  Two real threads run under a controlled scheduler (one at a time).
// Memory touched by both threads with at least one write is conflicting; context switches at accesses to
// conflicting memory, at synchronisation operations and at operation boundaries are enumerated exhaustively
// (up to two preemptions).  Interleavings that differ only in the order of independent accesses are equivalent, so
// without conflicting memory these schedules represent all interleavings.
// Every schedule runs in a new process, so races on first use are explored, too.
#include "mc.hh"
#include "c06.hh"
#include <pthread.h>
#include <semaphore.h>
#include <new>
using namespace mc;
using std::vector;
typedef unsigned int uint;

static const int    NT = 2;
static const size_t ARENA = 1 << 20;
static const size_t OUT_N = 1 << 14;
static const int    TAB = 1 << 16;

struct Entry { uintptr_t granule; unsigned char r, w; };       // bit per thread

struct Shared {                                 // survives the forked run
  Entry    tab[TAB];
  uintptr_t conf[TAB];                          // hash set of conflicting granules
  int      n_conf, n_used;
  int      used[TAB];                           // entries of tab in use
  float    out[NT][OUT_N];
  uint     n_out[NT];
  volatile int done[NT], deadlock, reached[3];
  volatile uint points[3];
  volatile uint64_t accesses;
  volatile uintptr_t race;
  volatile int race_kind, foreign;
};
static Shared *S;
static unsigned char *arena[NT];

struct Thread {
  pthread_t th;
  sem_t     sem;
  uintptr_t stack_lo, stack_hi;
  size_t    used;
  bool      finished;
  OpCfg     cfg;
  const vector<OpStep> *prog;
};
static Thread T[NT];
static thread_local int t_id = -1;
static thread_local bool t_in_rt = false;
static bool g_log = false;
static int  g_segment = 0;                      // how many switches were done
static int  g_limit[3] = { -1, -1, -1 };        // preempt before point number limit[i] of segment i
static int  g_nthreads = NT;
static void *g_shared = nullptr;                // C32: the instance that both threads use
#ifdef QUERIES
static const bool queries = true;
#else
static const bool queries = false;
#endif

static void
switch_to (int other)
{
  const int me = t_id;
  sem_post (&T[other].sem);
  while (sem_wait (&T[me].sem)) ;
}

static void
sched_point()
{
  const int s = g_segment;
  if (s >= 2 || g_nthreads < 2)
    return;
  if (g_limit[s] >= 0 && int (S->points[s]) == g_limit[s] && !T[1 - t_id].finished)
    {
      S->reached[s] = 1;
      g_segment++;
      switch_to (1 - t_id);
      return;
    }
  S->points[s]++;
}

extern "C" void
rt_boundary()
{
  if (t_id >= 0)
    sched_point();
}

// a thread cannot continue until the other one has made progress
static void
blocked()
{
  if (g_nthreads < 2 || T[1 - t_id].finished)
    {
      S->deadlock = 1;
      _exit (9);
    }
  switch_to (1 - t_id);
}

static inline bool
own (uintptr_t a)
{
  return (a >= T[t_id].stack_lo && a < T[t_id].stack_hi) || (S->foreign != 1 && a >= (uintptr_t) arena[t_id] && a < (uintptr_t) arena[t_id] + ARENA)
         || (a >= (uintptr_t) S && a < (uintptr_t) (S + 1));
}

static inline uint hashg (uintptr_t g) { return g % TAB; }         // neighbours stay neighbours: few pages are touched

static bool
conflicting (uintptr_t g)
{
  for (uint i = hashg (g); S->conf[i]; i = (i + 1) % TAB)
    if (S->conf[i] == g)
      return true;
  return false;
}

static void check_race (uintptr_t g, unsigned char mask, bool write);

static void
access (const void *p, size_t n, bool write, bool atomic = false)
{
  if (t_id < 0 || t_in_rt)
    return;
  S->accesses++;
  const uintptr_t a = (uintptr_t) p;
  if (!n || (own (a) && own (a + n - 1)))
    return;
  t_in_rt = true;
  bool switched = false;
  if (a >= (uintptr_t) arena[1 - t_id] && a < (uintptr_t) arena[1 - t_id] + ARENA && !S->foreign)
    S->foreign = 2;             // from the next run on, accesses to the heap of the own thread are recorded
  for (uintptr_t g = a >> 3; g <= (a + n - 1) >> 3; g++)
    {
      if (S->n_conf && !switched && conflicting (g))
        {
          switched = true;
          sched_point();
        }
      if (g_log)
        {
          uint i = hashg (g);
          for (int k = 0; k < TAB; k++, i = (i + 1) % TAB)
            {
              if (!S->tab[i].granule)
                {
                  S->tab[i].granule = g;
                  if (S->n_used < TAB)
                    S->used[S->n_used++] = i;
                }
              if (S->tab[i].granule == g)
                {
                  (write ? S->tab[i].w : S->tab[i].r) |= 1 << t_id;
                  break;
                }
            }
        }
      if (!atomic)
        {
          const uintptr_t lo = std::max (a, g << 3), hi = std::min (a + n, (g + 1) << 3);
          check_race (g, (unsigned char) (((1u << (hi - lo)) - 1) << (lo & 7)), write);
        }
    }
  t_in_rt = false;
}

/* happens-before: epochs advance at releases; seen[t] is the epoch of the other thread that t synchronised with */
struct RaceEntry { uintptr_t granule; uint w[NT][8], r[NT][8]; };       // epochs of the last access to each byte
struct SyncEntry { uintptr_t addr; uint rel[NT]; };
static RaceEntry g_race[TAB];
static SyncEntry g_sync[1024];
static uint g_epoch[NT] = { 1, 1 }, g_seen[NT];

static SyncEntry *
sync_entry (const volatile void *p)
{
  uint i = hashg ((uintptr_t) p) % 1024;
  for (int k = 0; k < 1024; k++, i = (i + 1) % 1024)
    {
      if (!g_sync[i].addr)
        g_sync[i].addr = (uintptr_t) p;
      if (g_sync[i].addr == (uintptr_t) p)
        return &g_sync[i];
    }
  return nullptr;
}
static void
sync_acquire (const volatile void *p)
{
  if (t_id < 0)
    return;
  if (SyncEntry *e = sync_entry (p))
    if (e->rel[1 - t_id] > g_seen[t_id])
      g_seen[t_id] = e->rel[1 - t_id];
}
static void
sync_release (const volatile void *p)
{
  if (t_id < 0)
    return;
  if (SyncEntry *e = sync_entry (p))
    {
      e->rel[t_id] = g_epoch[t_id]++;
      // what this thread has seen of the other one is passed on, too (two threads: nothing to do)
    }
}

static void
check_race (uintptr_t g, unsigned char mask, bool write)
{
  uint i = hashg (g);
  for (int k = 0; k < TAB; k++, i = (i + 1) % TAB)
    {
      RaceEntry& e = g_race[i];
      if (!e.granule)
        e.granule = g;
      if (e.granule != g)
        continue;
      const int me = t_id, ot = 1 - t_id;
      for (int b = 0; b < 8; b++)
        if (mask & (1 << b))
          {
            const bool ww = e.w[ot][b] > g_seen[me], rw = write && e.r[ot][b] > g_seen[me];
            if ((ww || rw) && !S->race)
              {
                S->race = (g << 3) + b;
                S->race_kind = ww ? (write ? 1 : 2) : 3;
              }
            (write ? e.w : e.r)[me][b] = g_epoch[me];
          }
      return;
    }
}

static bool
update_conflicts()
{
  bool added = false;
  for (int u = 0; u < S->n_used; u++)
    if (const Entry& e = S->tab[S->used[u]]; e.w && ((e.r | e.w) & 3) == 3 && !conflicting (e.granule) && S->n_conf < TAB / 2)
      {
        uint i = hashg (e.granule);
        while (S->conf[i])
          i = (i + 1) % TAB;
        S->conf[i] = e.granule;
        S->n_conf++;
        added = true;
      }
  return added;
}

/* ------------------------------ instrumentation interface ------------------------------ */
extern "C" {
void __tsan_init() {}
void __tsan_func_entry (void *) {}
void __tsan_func_exit() {}
#define RW(N)                                                                           \
  void __tsan_read##N (void *p)             { access (p, N, false); }                   \
  void __tsan_write##N (void *p)            { access (p, N, true); }                    \
  void __tsan_read_write##N (void *p)       { access (p, N, false); access (p, N, true); }                    \
  void __tsan_unaligned_read##N (void *p)   { access (p, N, false); }                   \
  void __tsan_unaligned_write##N (void *p)  { access (p, N, true); }                    \
  void __tsan_unaligned_read_write##N (void *p)  { access (p, N, false); access (p, N, true); }               \
  void __tsan_volatile_read##N (void *p)    { access (p, N, false); }                   \
  void __tsan_volatile_write##N (void *p)   { access (p, N, true); }                    \
  void __tsan_unaligned_volatile_read##N (void *p)    { access (p, N, false); }         \
  void __tsan_unaligned_volatile_write##N (void *p)   { access (p, N, true); }
RW (1) RW (2) RW (4) RW (8) RW (16)
void __tsan_read_range (void *p, size_t n)  { access (p, n, false); }
void __tsan_write_range (void *p, size_t n) { access (p, n, true); }
void __tsan_vptr_update (void **p, void *)  { access (p, 8, true); }
void __tsan_vptr_read (void **p)            { access (p, 8, false); }
void *__tsan_memcpy (void *d, const void *s, size_t n)  { access (s, n, false); access (d, n, true); return memcpy (d, s, n); }
void *__tsan_memmove (void *d, const void *s, size_t n) { access (s, n, false); access (d, n, true); return memmove (d, s, n); }
void *__tsan_memset (void *d, int c, size_t n)          { access (d, n, true); return memset (d, c, n); }
#define AT(P, W, MO)  access ((void *) P, sizeof (*P), W, true); if (MO) sync_acquire (P)
#define REL(P, MO)    if (MO) sync_release (P)
#define RMW(BITS, TY, NAME, EXPR)                                               \
  TY __tsan_atomic##BITS##_##NAME (volatile TY *p, TY v, int mo)                \
  { AT (p, true, mo); const TY o = *p; *p = (TY) (EXPR); REL (p, mo); return o; }
#define ATOMIC(BITS, TY)                                                        \
  TY __tsan_atomic##BITS##_load (const volatile TY *p, int mo)                  \
  { AT (p, false, mo); return *p; }                                             \
  void __tsan_atomic##BITS##_store (volatile TY *p, TY v, int mo)               \
  { AT (p, true, 0); REL (p, mo); *p = v; }                                     \
  RMW (BITS, TY, exchange, v)                                                   \
  RMW (BITS, TY, fetch_add, o + v)                                              \
  RMW (BITS, TY, fetch_sub, o - v)                                              \
  RMW (BITS, TY, fetch_and, o & v)                                              \
  RMW (BITS, TY, fetch_or, o | v)                                               \
  RMW (BITS, TY, fetch_xor, o ^ v)                                              \
  int __tsan_atomic##BITS##_compare_exchange_strong (volatile TY *p, TY *e, TY v, int mo, int)                  \
  { AT (p, true, mo); if (*p == *e) { *p = v; REL (p, mo); return 1; } *e = *p; return 0; }                     \
  int __tsan_atomic##BITS##_compare_exchange_weak (volatile TY *p, TY *e, TY v, int a, int b)                   \
  { return __tsan_atomic##BITS##_compare_exchange_strong (p, e, v, a, b); }                                     \
  TY __tsan_atomic##BITS##_compare_exchange_val (volatile TY *p, TY e, TY v, int mo, int)                       \
  { AT (p, true, mo); const TY o = *p; if (o == e) { *p = v; REL (p, mo); } return o; }
ATOMIC (8, unsigned char) ATOMIC (16, unsigned short) ATOMIC (32, unsigned int) ATOMIC (64, unsigned long)
void __tsan_atomic_thread_fence (int) {}
void __tsan_atomic_signal_fence (int) {}

/* synchronisation: never blocks for real, since only one thread runs at a time */
int __real_pthread_mutex_lock (pthread_mutex_t *m);
int __real_pthread_mutex_unlock (pthread_mutex_t *m);
int
__wrap_pthread_mutex_lock (pthread_mutex_t *m)
{
  if (t_id < 0)
    return __real_pthread_mutex_lock (m);
  sched_point();
  while (pthread_mutex_trylock (m))
    blocked();
  sync_acquire (m);
  return 0;
}
int
__wrap_pthread_mutex_unlock (pthread_mutex_t *m)
{
  sync_release (m);
  const int r = __real_pthread_mutex_unlock (m);
  if (t_id >= 0)
    sched_point();
  return r;
}
int  __real___cxa_guard_acquire (uint64_t *g);
void __real___cxa_guard_release (uint64_t *g);
void __real___cxa_guard_abort (uint64_t *g);
int
__wrap___cxa_guard_acquire (uint64_t *g)
{
  if (t_id < 0)
    return __real___cxa_guard_acquire (g);
  volatile unsigned char *b = (volatile unsigned char *) g;
  sched_point();
  while (!b[0] && b[1])
    blocked();
  sync_acquire (g);
  if (b[0])
    return 0;
  b[1] = 1;
  return 1;
}
void
__wrap___cxa_guard_release (uint64_t *g)
{
  if (t_id < 0)
    return __real___cxa_guard_release (g);
  volatile unsigned char *b = (volatile unsigned char *) g;
  sync_release (g);
  b[1] = 0;
  b[0] = 1;
  sched_point();
}
void
__wrap___cxa_guard_abort (uint64_t *g)
{
  if (t_id < 0)
    return __real___cxa_guard_abort (g);
  ((volatile unsigned char *) g)[1] = 0;
}
int __real_pthread_once (pthread_once_t *o, void (*f)());
int
__wrap_pthread_once (pthread_once_t *o, void (*f)())
{
  rt_boundary();
  const bool b = t_in_rt;
  t_in_rt = true;
  const int r = __real_pthread_once (o, f);
  t_in_rt = b;
  sync_release (o);
  sync_acquire (o);
  return r;
}
void *__real_malloc (size_t n);
void  __real_free (void *p);
void *
__wrap_malloc (size_t n)
{
  if (t_id < 0)
    return __real_malloc (n);
  Thread& t = T[t_id];
  void *p = arena[t_id] + t.used;
  t.used += (n + 63 + 64) & ~size_t (63);       // never reused, no two blocks in one cache line
  if (t.used > ARENA)
    return nullptr;
  return p;
}
void
__wrap_free (void *p)
{
  if (p >= arena[0] && p < arena[0] + NT * ARENA)
    return;
  __real_free (p);
}
} // extern "C"

void *operator new (size_t n)
{
  void *p = __wrap_malloc (n ? n : 1);
  if (!p)
    throw std::bad_alloc();
  return p;
}
void *operator new[] (size_t n)                  { return operator new (n); }
void  operator delete (void *p) noexcept         { __wrap_free (p); }
void  operator delete[] (void *p) noexcept       { __wrap_free (p); }
void  operator delete (void *p, size_t) noexcept { __wrap_free (p); }
void  operator delete[] (void *p, size_t) noexcept { __wrap_free (p); }

/* ------------------------------ threads ------------------------------ */
static float g_in[NT][4200];

static void
body (int id)
{
  Thread& t = T[id];
  void *r = g_shared;
  uint in = 0, &on = S->n_out[id];
  float *out = S->out[id];
  on = 0;
  for (const OpStep& s : *t.prog)
    {
      rt_boundary();
      const uint ni = t.cfg.mode == 0 ? s.n : s.n * t.cfg.ratio;
      switch (s.k)
        {
          case OP_NEW:     r = ops_new (&t.cfg); break;
          case OP_PROCESS: ops_process (r, &g_in[id][in], ni, out + on);
                           in += ni;
                           on += t.cfg.mode == 0 ? s.n * t.cfg.ratio : s.n;
                           break;
          case OP_RESET:   ops_reset (r); break;
          case OP_META:    ops_meta (r, out + on); on += 4; break;
          case OP_NAMES:   ops_names (out + on); on += 8; break;
          case OP_MOVE:    r = ops_move (r); break;
          case OP_DELETE:  ops_delete (r); break;
        }
    }
  rt_boundary();
}

static void *
thread_main (void *arg)
{
  const int id = int (intptr_t (arg));
  pthread_attr_t at;
  void *lo;
  size_t sz;
  pthread_getattr_np (pthread_self(), &at);
  pthread_attr_getstack (&at, &lo, &sz);
  T[id].stack_lo = (uintptr_t) lo;
  T[id].stack_hi = (uintptr_t) lo + sz + 65536;         // thread-local storage lies behind
  while (sem_wait (&T[id].sem)) ;
  t_id = id;
  body (id);
  t_id = -1;
  S->done[id] = 1;
  T[id].finished = true;
  if (g_nthreads == 2 && !T[1 - id].finished)
    {
      g_segment++;
      sem_post (&T[1 - id].sem);
    }
  return nullptr;
}

// one schedule in a new process: `first` starts; -1: no preemption
static int
run (const OpCfg *cfg, const vector<OpStep> *prog, int first, int k0, int k1, int solo, bool log)
{
  for (int i = 0; i < NT; i++)
    {
      S->done[i] = 0;
      S->n_out[i] = 0;
    }
  S->deadlock = 0;
  S->race = 0;
  if (S->foreign)
    S->foreign = 1;
  for (int i = 0; i < 3; i++)
    {
      S->points[i] = 0;
      S->reached[i] = 0;
    }
  const pid_t p = fork();
  if (p < 0)
    return -1;
  if (p == 0)
    {
      prctl (PR_SET_PDEATHSIG, SIGKILL);
      struct itimerval it;
      memset (&it, 0, sizeof (it));
      it.it_value.tv_sec = 20;
      signal (SIGPROF, SIG_DFL);
      setitimer (ITIMER_PROF, &it, nullptr);
      g_log = log;
      g_limit[0] = k0;
      g_limit[1] = k1;
      g_segment = 0;
      g_nthreads = solo >= 0 ? 1 : 2;
      if (queries)
        g_shared = ops_new (&cfg[0]);
      for (int i = 0; i < NT; i++)
        {
          T[i].used = 64 * 3 * i;               // the addresses differ, too
          T[i].finished = false;
          T[i].cfg = cfg[i];
          T[i].prog = &prog[i];
          sem_init (&T[i].sem, 0, 0);
        }
      for (int i = 0; i < NT; i++)
        if (solo < 0 || solo == i)
          pthread_create (&T[i].th, nullptr, thread_main, (void *) intptr_t (i));
      sem_post (&T[solo >= 0 ? solo : first].sem);
      for (int i = 0; i < NT; i++)
        if (solo < 0 || solo == i)
          pthread_join (T[i].th, nullptr);
      _exit (0);
    }
  int st;
  while (waitpid (p, &st, 0) < 0) ;
  return st;
}

static std::string __attribute__ ((format (printf, 1, 2)))
mc_fmt (const char *f, ...)
{
  char b[300];
  va_list ap;
  va_start (ap, f);
  vsnprintf (b, sizeof (b), f, ap);
  va_end (ap);
  return b;
}

#ifdef QUERIES
// thread 0 / 1: users of one instance; the second one only asks
static const vector<OpStep> users[4] = {
  { { OP_PROCESS, 5 }, { OP_PROCESS, 75 }, { OP_RESET, 0 }, { OP_PROCESS, 40 } },
  { { OP_RESET, 0 }, { OP_PROCESS, 61 }, { OP_PROCESS, 1 }, { OP_RESET, 0 }, { OP_RESET, 0 } },
  { { OP_META, 0 }, { OP_PROCESS, 33 }, { OP_META, 0 } },
  { { OP_META, 0 }, { OP_NAMES, 0 }, { OP_META, 0 } },
};
static const vector<OpStep> askers[2] = { { { OP_META, 0 }, { OP_META, 0 } }, { { OP_NAMES, 0 }, { OP_META, 0 } } };
#endif
static const vector<OpStep> progs[3] = {
  { { OP_NEW, 0 }, { OP_PROCESS, 5 }, { OP_META, 0 }, { OP_PROCESS, 75 }, { OP_RESET, 0 }, { OP_PROCESS, 9 }, { OP_DELETE, 0 } },
  { { OP_NEW, 0 }, { OP_PROCESS, 61 }, { OP_PROCESS, 1 }, { OP_RESET, 0 }, { OP_NAMES, 0 }, { OP_PROCESS, 30 }, { OP_DELETE, 0 } },
  { { OP_NEW, 0 }, { OP_DELETE, 0 }, { OP_NEW, 0 }, { OP_PROCESS, 33 }, { OP_MOVE, 0 }, { OP_PROCESS, 40 }, { OP_DELETE, 0 } },
};

static void
setup (Ctx& ctx)
{
  ctx.only = -1;                // which schedules exist is found out by running the others: always replay all
  S = (Shared *) mmap (nullptr, sizeof (Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  arena[0] = (unsigned char *) mmap (nullptr, NT * ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  arena[1] = arena[0] + ARENA;
  for (int t = 0; t < NT; t++)
    for (size_t i = 0; i < 4200; i++)
      g_in[t][i] = (int ((mix (t + 80, i) >> 20) & 4095) - 2048) / 2048.f;
}

struct Pair {
  Ctx&         ctx;
  OpCfg        cfg[2];
  std::string  name;
  vector<OpStep> prog[2];
  vector<float> expect[2];

  Pair (Ctx& ctx, const OpCfg& a, const OpCfg& b, const std::string& name, uint variant) :
    ctx (ctx), cfg { a, b }, name (name), prog { progs[variant % 3], progs[(variant / 3) % 3] }
  {
#ifdef QUERIES
    prog[0] = users[variant % 4];
    prog[1] = askers[variant / 4];
#endif
    for (int u = 0; u < S->n_used; u++)
      S->tab[S->used[u]] = Entry();
    S->n_used = 0;
    if (S->n_conf)
      memset ((void *) S->conf, 0, sizeof (S->conf));
    S->n_conf = 0;
    S->foreign = 0;
  }
  void
  stopped (int st, const char *what)
  {
    if (S->deadlock)
      ctx.fail ("%s: deadlock", what);
    if (WIFSIGNALED (st))
      ctx.fail ("%s: the process was ended by signal %d", what, WTERMSIG (st));
    if (!WIFEXITED (st) || WEXITSTATUS (st))
      ctx.fail ("%s: the process exited with status %d", what, WEXITSTATUS (st));
  }
  void
  alone()
  {
    for (int t = 0; t < NT; t++)
      {
        ctx.begin ("%s: thread %d alone", name.c_str(), t);
        stopped (run (cfg, prog, t, -1, -1, t, true), "thread alone");
        if (!S->done[t])
          ctx.fail ("thread alone does not finish");
        expect[t].assign (S->out[t], S->out[t] + S->n_out[t]);
      }
  }
  // returns false if there are no such preemption points
  bool
  schedule (int first, int k0, int k1, bool log)
  {
    ctx.begin ("%s: thread %d starts, switch before its point %d, switch back before point %d of thread %d, then to the end; %d conflicting locations",
               name.c_str(), first, k0, k1, 1 - first, S->n_conf);
    stopped (run (cfg, prog, first, k0, k1, -1, log), "two threads");
    for (int t = 0; t < NT; t++)
      {
        if (!S->done[t] || S->n_out[t] != expect[t].size())
          ctx.fail ("thread %d does not finish", t);
        if (memcmp (S->out[t], expect[t].data(), expect[t].size() * 4))
          for (size_t i = 0; i < expect[t].size(); i++)
            if (memcmp (&S->out[t][i], &expect[t][i], 4))
              ctx.fail ("value %zu of the results of thread %d is %.9g, alone %.9g", i, t, double (S->out[t][i]), double (expect[t][i]));
        ctx.eval (expect[t].size());
      }
    if (S->race)
      ctx.fail ("%s: data race (%s) at address %#zx", queries ? "a query of an instance is not read-only, or reads what processing changes" : "the instances share mutable state",
                S->race_kind == 1 ? "both threads write" : S->race_kind == 2 ? "one thread reads what the other one wrote" : "one thread writes what the other one read", size_t (S->race));
    const uint64_t h = mix (mix (S->points[0], S->points[1]), mix (S->reached[0], first));
    ctx.state (mix (h, mix (k0, k1)));
    ctx.transition (mix (mix (h, mix (k0, k1)), S->accesses));
    ctx.outcome (h);
    return bool (S->reached[k1 >= 0 ? 1 : 0]) || k0 < 0;
  }
  // all schedules with at most two preemptions; true: complete
  bool
  explore (uint cap1, uint cap2)
  {
    bool full = true;
    for (int round = 0; round < 4; round++)
      {
        full = true;
        for (int first = 0; first < 2; first++)
          {
            schedule (first, -1, -1, true);
            uint k = 0;
            while (k < cap1 && schedule (first, k, -1, !S->n_conf || k % 16 == 0))
              k++;
            full = full && k < cap1;
          }
        uint n = 0;
        for (int first = 0; first < 2; first++)
          for (uint k0 = 0; n < cap2; k0++)
            {
              uint k1 = 1;
              while (n < cap2 && schedule (first, k0, k1, !S->n_conf))
                {
                  k1++;
                  n++;
                }
              if (k1 == 1)
                break;
            }
        full = full && n < cap2;
        if (!update_conflicts())
          break;
      }
    return full;
  }
};

static void
explore_pair (Ctx& ctx, const OpCfg& a, const OpCfg& b, const std::string& name, uint variant)
{
  setup (ctx);
  Pair p (ctx, a, b, name, variant);
  p.alone();
  const bool full = p.explore (ctx.thorough ? 20000 : 3000, ctx.thorough ? 20000 : 800);
  ctx.note (mc_fmt ("%d conflicting locations, exploration up to two preemptions %s", S->n_conf, full ? "complete" : "capped"));
}

// one configuration with every other one: is there any shared memory?  If so, explore.
static void
explore_all_pairs (Ctx& ctx, const vector<OpCfg>& cs, size_t i, std::function<std::string (const OpCfg&)> name)
{
  setup (ctx);
  uint conf = 0, full = 0, budget = ctx.thorough ? 100000 : 4000;
  for (size_t j = i; j < cs.size(); j++)
    {
      Pair p (ctx, cs[i], cs[j], name (cs[i]) + "+" + name (cs[j]), (i + j) % 9);
      p.alone();
      p.schedule (0, -1, -1, true);
      p.schedule (1, -1, -1, true);
      if (!update_conflicts())
        continue;
      conf++;
      const uint64_t before = ctx.s->traces;
      const uint cap = std::min (budget, 1000u);
      full += p.explore (cap, cap / 2);
      const uint used = ctx.s->traces - before;
      budget = budget > used ? budget - used : 0;
    }
  ctx.note (mc_fmt ("%zu pairs, %u with conflicting locations, %u of these explored completely", cs.size() - i, conf, full));
}

int
main (int argc, char **argv)
{
  vector<Item> items;
  vector<OpCfg> cs;
  for (int f : { 1, 0 })
    for (uint ratio : { 1, 2, 4, 8 })
      for (int p : { 24, 20, 16, 12, 8, 1 })
        {
          if (p == 1 && f == 0)
            continue;
          for (int m : { 0, 1 })
            for (int sse : { 1, 0 })
              if (ratio > 1 || (p == 24 && sse))
                cs.push_back ({ m, ratio, p, sse, f });
        }
  auto name = [] (const OpCfg& c) {
    char b[80];
    snprintf (b, sizeof (b), "%s-%s-x%u-p%d-%s", c.filt ? "fir" : "iir", c.mode ? "down" : "up", c.ratio, c.prec, c.sse ? "sse" : "fpu");
    return std::string (b);
  };
#ifdef QUERIES
  for (const OpCfg& c : cs)
    for (uint v = 0; v < 8; v++)
      items.push_back ({ name (c) + "/" + std::to_string (v), [=] (Ctx& ctx) { explore_pair (ctx, c, c, name (c), v); } });
  return mc::main (argc, argv, items);
#endif
  const bool th = [&] { for (int i = 1; i + 1 < argc; i++) if (!strcmp (argv[i], "--tier")) return !strcmp (argv[i + 1], "thorough"); return false; } ();
  for (size_t i = 0; i < cs.size(); i++)
    {
      OpCfg inv = cs[i], rat = cs[i];
      inv.mode = !inv.mode;
      rat.ratio = rat.ratio == 8 ? 4 : rat.ratio == 4 ? 8 : 4;
      const OpCfg other = cs[(i * 41 + 53) % cs.size()];
      int k = 0;
      for (const OpCfg& p : { cs[i], inv, rat, other })
        for (uint v = 0; v < 9; v++)
          {
            k++;
            if (!th && v != (i + k / 9 * 4) % 9)
              continue;
            const OpCfg a = cs[i], b = p;
            const std::string nm = name (a) + "+" + name (b);
            items.push_back ({ nm + "/" + std::to_string (v), [=] (Ctx& ctx) { explore_pair (ctx, a, b, nm, v); } });
          }
      items.push_back ({ name (cs[i]) + "+all", [=] (Ctx& ctx) { explore_all_pairs (ctx, cs, i, name); } });
    }
  return mc::main (argc, argv, items);
}
