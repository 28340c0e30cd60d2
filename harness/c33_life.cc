// The program of C33: instances of all or one configuration are created, used and destroyed in the phases given by
// the plan (environment variable), their output is written to a file descriptor.  No static object of this file has a
// constructor.
#include "pandaresampler.hh"
#include "c33_life.hh"
#include <new>
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <unistd.h>

typedef PandaResampler::Resampler2 R;

struct C { int mode; unsigned ratio; int prec, sse, filt; };
enum { MAX_CFG = 200 };
static C        g_cfg[MAX_CFG];
static int      g_n_cfg;
static LifePlan g_plan;
static bool     g_have_plan;
static R       *g_inst[MAX_CFG];
alignas (64) static unsigned char g_mem[MAX_CFG][(sizeof (R) + 63) / 64 * 64];
alignas (64) static float g_in[1 << 15], g_out[1 << 15];
static unsigned g_pos[MAX_CFG], g_count[MAX_CFG];

static void
setup()
{
  static const int P[] = { 1, 8, 12, 16, 20, 24 };
  for (int f = 0; f < 2; f++)
    for (unsigned ratio = 1; ratio <= 8; ratio *= 2)
      for (int p : P)
        for (int mode = 0; mode < 2; mode++)
          for (int sse = 0; sse < 2; sse++)
            if (!(f == 1 && p == 1) && !(ratio == 1 && p != 16))
              g_cfg[g_n_cfg++] = { mode, ratio, p, sse, f };
  const char *e = getenv ("VERIF_LIFE");
  if (!e || sscanf (e, "%d,%d,%d,%d,%d,%d,%d", &g_plan.create, &g_plan.destroy, &g_plan.uses, &g_plan.reset, &g_plan.fork, &g_plan.first, &g_plan.n) != 7)
    _exit (21);
  if (g_plan.n <= 0)
    g_plan.n = g_n_cfg;
  g_have_plan = true;
}

static void
put (const void *p, size_t n)
{
  const char *c = (const char *) p;
  while (n)
    {
      const ssize_t k = write (9, c, n);
      if (k <= 0)
        _exit (22);
      c += k;
      n -= k;
    }
}

void
life_phase (int phase)
{
  if (!g_have_plan)
    setup();
  for (int i = g_plan.first; i < g_plan.first + g_plan.n && i < g_n_cfg; i++)
    {
      const C& c = g_cfg[i];
      if (phase == g_plan.create)
        g_inst[i] = new (g_mem[i]) R (c.mode ? R::DOWN : R::UP, c.ratio, R::Precision (c.prec), c.sse, c.filt ? R::FILTER_IIR : R::FILTER_FIR);
      if (phase == g_plan.reset && g_inst[i])
        g_inst[i]->reset();
      if (g_inst[i] && (g_plan.uses >> phase & 1))
        {
          static const unsigned blocks[] = { 41, 3, 70, 1, 300, 16 };
          const unsigned frames = blocks[g_count[i]++ % 6], ni = frames * (c.mode ? c.ratio : 1), no = frames * (c.mode ? 1 : c.ratio);
          for (unsigned k = 0; k < ni; k++)
            {
              uint32_t h = (g_pos[i] + k + 1) * 2654435761u;
              h ^= h >> 15;
              h *= 2246822519u;
              g_in[k] = int32_t (h ^ h >> 13) / 2147483648.f;
            }
          g_pos[i] += ni;
          memset (g_out, 0x55, (no + 8) * sizeof (float));
          g_inst[i]->process_block (g_in, ni, g_out);
          const float meta[3] = { float (g_inst[i]->order()), float (g_inst[i]->delay()), float (g_inst[i]->sse_enabled()) };
          put (&i, sizeof (i));
          put (meta, sizeof (meta));
          put (g_out, no * sizeof (float));
        }
      if (phase == g_plan.destroy && g_inst[i])
        {
          g_inst[i]->~R();
          g_inst[i] = nullptr;
        }
    }
}

namespace {
struct Tls { int phase; ~Tls() { if (phase) life_phase (phase); } };
thread_local Tls g_tls;
}

static void *
thread_main (void *)
{
  g_tls.phase = PH_THREAD_TLS;
  life_phase (PH_THREAD);
  return nullptr;
}
static void at_exit() { life_phase (PH_ATEXIT); }

int
main()
{
  atexit (at_exit);
  g_tls.phase = PH_EXIT_TLS;
  life_phase (PH_MAIN);
  pthread_t th;
  if (pthread_create (&th, nullptr, thread_main, nullptr))
    _exit (23);
  pthread_join (th, nullptr);
  life_phase (PH_MAIN2);
  if (g_plan.fork)
    {
      const pid_t p = fork();
      if (p < 0)
        _exit (24);
      if (p)
        {
          int st = 0;
          waitpid (p, &st, 0);
          _exit (WIFEXITED (st) ? WEXITSTATUS (st) : 25);
        }
    }
  life_phase (PH_FORK);
  return 0;
}
