// Shared machinery of the bounded-exhaustive explorers in /verif/harness.
//
// A harness registers *items* (usually one per resampler configuration).  Every
// item runs in a forked child, enumerates *traces* (operation sequences) of the
// real code and compares each against a reference model.  The child reports into
// a shared-memory slot, so a crash / abort / hang of the code under test is
// attributed to the exact trace that was being executed.
//
// Nothing here is random: an item enumerates the same traces in the same order on
// every run, so (item, trace number) is a complete replay recipe.
#pragma once
#include <algorithm>
#include <cerrno>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <cstring>
#include <functional>
#include <string>
#include <unordered_set>
#include <vector>
#include <dirent.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace mc {

struct Slot {
  volatile int  started, finished, violated, capped;
  uint64_t      traces, states, transitions, evals, distinct;
  uint64_t      cur_trace;
  char          cur_desc[1024];
  char          msg[1024];
  uint64_t      v_trace;
  char          v_desc[1024];
  char          sample[2][400];
  char          note[400];
};

inline uint64_t
mix (uint64_t h, uint64_t v)
{
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  return h ^ (h >> 29);
}

struct Ctx {
  Slot    *s;
  int64_t  only = -1;          // replay: run this trace only
  bool     thorough = false;
  bool     dup_states = true;
  std::unordered_set<uint64_t> states_, trans_, outs_;

  // start of a trace; false: skip it (replay of another one)
  bool
  begin (const char *fmt, ...) __attribute__ ((format (printf, 2, 3)))
  {
    s->cur_trace++;
    if (only >= 0 && (int64_t) s->cur_trace != only)
      return false;
    va_list ap;
    va_start (ap, fmt);
    vsnprintf (s->cur_desc, sizeof (s->cur_desc), fmt, ap);
    va_end (ap);
    s->traces++;
    if (s->traces == 1 || (s->traces & (s->traces - 1)) == 0)
      snprintf (s->sample[s->traces == 1 ? 0 : 1], sizeof (s->sample[0]), "%.390s", s->cur_desc);
    rearm();
    return true;
  }
  static void
  rearm()
  {
    // watchdog on *CPU time of this process*, so machine load cannot trigger it
    struct itimerval it;
    memset (&it, 0, sizeof (it));
    it.it_value.tv_sec = 60;
    setitimer (ITIMER_PROF, &it, nullptr);
  }
  void state (uint64_t h)       { if (states_.insert (h).second) s->states++; }
  void transition (uint64_t h)  { if (trans_.insert (h).second) s->transitions++; }
  void eval (uint64_t n = 1)    { s->evals += n; }
  // an observed outcome (hash); counts distinct ones
  void
  outcome (uint64_t h)
  {
    if (outs_.size() < 4000000 && outs_.insert (h).second)
      s->distinct++;
  }
  [[noreturn]] void
  fail (const char *fmt, ...) __attribute__ ((format (printf, 2, 3)))
  {
    va_list ap;
    va_start (ap, fmt);
    vsnprintf (s->msg, sizeof (s->msg), fmt, ap);
    va_end (ap);
    s->v_trace = s->cur_trace;
    snprintf (s->v_desc, sizeof (s->v_desc), "%s", s->cur_desc);
    s->violated = 1;
    _exit (7);
  }
  void note (const std::string& t) { snprintf (s->note, sizeof (s->note), "%s", t.c_str()); }
};

struct Item {
  std::string                name;
  std::function<void (Ctx&)> fn;
};

inline std::string
jstr (const std::string& s)
{
  std::string r = "\"";
  for (unsigned char c : s)
    {
      char b[8];
      if (c == '"' || c == '\\') { r += '\\'; r += c; }
      else if (c < 32 || c > 126) { snprintf (b, sizeof (b), "\\u%04x", c); r += b; }
      else r += c;
    }
  return r + "\"";
}

inline Slot *g_slot = nullptr;

inline void
on_prof (int)
{
  if (g_slot)
    {
      snprintf (g_slot->msg, sizeof (g_slot->msg), "no progress: one trace used more than 60 s of CPU time (hang)");
      g_slot->v_trace = g_slot->cur_trace;
      memcpy (g_slot->v_desc, g_slot->cur_desc, sizeof (g_slot->v_desc));
      g_slot->violated = 1;
    }
  _exit (7);
}

inline void
run_child (const Item& it, Slot *slot, bool thorough, int64_t only, const char *logname)
{
  prctl (PR_SET_PDEATHSIG, SIGKILL);
  struct rlimit rl = { 0, 0 };
  setrlimit (RLIMIT_CORE, &rl);
  FILE *f = freopen (logname, "w", stderr);
  (void) f;
  g_slot = slot;
  signal (SIGPROF, on_prof);
  Ctx c;
  c.s = slot;
  c.only = only;
  c.thorough = thorough;
  slot->started = 1;
  Ctx::rearm();
  it.fn (c);
  slot->finished = 1;
  fflush (stdout);
  _exit (0);
}

// CPU time (clock ticks) of a process and its descendants; -1: one of them is running or waits for the disk
inline long long
tree_cpu (pid_t root)
{
  struct P { pid_t pid, ppid; char state; long long cpu; };
  std::vector<P> ps;
  if (DIR *d = opendir ("/proc"))
    {
      while (struct dirent *e = readdir (d))
        if (e->d_name[0] >= '0' && e->d_name[0] <= '9')
          if (FILE *f = fopen ((std::string ("/proc/") + e->d_name + "/stat").c_str(), "r"))
            {
              char buf[1024];
              const size_t n = fread (buf, 1, sizeof (buf) - 1, f);
              fclose (f);
              buf[n] = 0;
              const char *q = strrchr (buf, ')');
              P p { pid_t (atoi (e->d_name)), 0, 0, 0 };
              unsigned long long ut, st;
              int pp;
              if (q && sscanf (q + 2, "%c %d %*d %*d %*d %*d %*u %*u %*u %*u %*u %llu %llu", &p.state, &pp, &ut, &st) == 4)
                {
                  p.ppid = pp;
                  p.cpu = ut + st;
                  ps.push_back (p);
                }
            }
      closedir (d);
    }
  std::vector<pid_t> tree { root };
  long long sum = 0;
  for (size_t i = 0; i < tree.size(); i++)
    for (auto& p : ps)
      {
        if (p.pid == tree[i])
          {
            if (p.state == 'R' || p.state == 'D')
              return -1;
            sum += p.cpu;
          }
        if (p.ppid == tree[i])
          tree.push_back (p.pid);
      }
  return sum;
}

/* usage: harness [--tier quick|thorough] [--jobs N] [--item NAME [--trace K]] [--log DIR] > result.json */
inline int
main (int argc, char **argv, const std::vector<Item>& all)
{
  bool thorough = false;
  int  jobs = 8;
  std::string only_item, logdir = "/tmp";
  int64_t only_trace = -1;
  for (int i = 1; i + 1 < argc; i += 2)
    {
      std::string a = argv[i], v = argv[i + 1];
      if (a == "--tier") thorough = v == "thorough";
      else if (a == "--jobs") jobs = atoi (v.c_str());
      else if (a == "--item") only_item = v;
      else if (a == "--trace") only_trace = atoll (v.c_str());
      else if (a == "--log") logdir = v;
    }
  std::vector<Item> items;
  for (auto& it : all)
    if (only_item.empty() || it.name == only_item)
      items.push_back (it);
  const size_t N = items.size();
  Slot *slots = (Slot *) mmap (nullptr, sizeof (Slot) * (N + 1), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (slots == MAP_FAILED)
    return 3;
  std::vector<pid_t> pid (N, 0);
  std::vector<std::string> logs (N);
  struct Idle { uint64_t progress; long long cpu; time_t since; };
  std::vector<Idle> idle (N, Idle { 0, -2, 0 });
  size_t next = 0, running = 0;
  int violated = -1;
  bool infra = false;
  while (next < N || running)
    {
      while (violated < 0 && next < N && running < (size_t) jobs)
        {
          logs[next] = logdir + "/item" + std::to_string (next) + ".err";
          fflush (nullptr);
          pid_t p = fork();
          if (p < 0) { infra = true; break; }
          if (p == 0)
            run_child (items[next], &slots[next], thorough, only_trace, logs[next].c_str());
          pid[next++] = p;
          running++;
        }
      if (!running)
        break;
      int st;
      pid_t p;
      int ticks = 0;
      while ((p = waitpid (-1, &st, WNOHANG)) == 0)
        {
          usleep (ticks < 100 ? 2000 : 20000);
          if (++ticks % 250 == 0)
            for (size_t i = 0; i < next; i++)
              if (pid[i] && !slots[i].violated)
                {
                  // blocked for ever: no progress, and no CPU time used by the item and its processes for long
                  const uint64_t now = slots[i].cur_trace + slots[i].evals;
                  const long long cpu = tree_cpu (pid[i]);
                  Idle& d = idle[i];
                  if (cpu < 0 || d.progress != now || d.cpu != cpu)
                    d = { now, cpu, time (nullptr) };
                  else if (time (nullptr) - d.since > 120)
                    {
                      snprintf (slots[i].msg, sizeof (slots[i].msg), "no progress: everything waits (deadlock)");
                      slots[i].v_trace = slots[i].cur_trace;
                      memcpy (slots[i].v_desc, slots[i].cur_desc, sizeof (slots[i].v_desc));
                      slots[i].violated = 1;
                      kill (pid[i], SIGTERM);
                      kill (pid[i], SIGKILL);
                    }
                }
        }
      if (p < 0) { infra = true; break; }
      running--;
      for (size_t i = 0; i < next; i++)
        if (pid[i] == p)
          {
            Slot& s = slots[i];
            pid[i] = 0;
            if (violated >= 0)
              break;                    // killed by us
            if (!s.violated && !s.finished)
              {
                if (WIFSIGNALED (st) && WTERMSIG (st) == SIGKILL)
                  { infra = true; fprintf (stderr, "item %s: killed (memory?)\n", items[i].name.c_str()); }
                else
                  {
                    std::string tail;
                    if (FILE *f = fopen (logs[i].c_str(), "r"))
                      {
                        char line[512];
                        for (int k = 0; k < 6 && fgets (line, sizeof (line), f); k++)
                          tail += line;
                        fclose (f);
                      }
                    snprintf (s.msg, sizeof (s.msg), "the code under test ended the process (%s %d): %.700s",
                              WIFSIGNALED (st) ? "signal" : "exit", WIFSIGNALED (st) ? WTERMSIG (st) : WEXITSTATUS (st), tail.c_str());
                    s.v_trace = s.cur_trace;
                    memcpy (s.v_desc, s.cur_desc, sizeof (s.v_desc));
                    s.violated = 1;
                  }
              }
            if (s.violated)
              {
                violated = i;
                for (size_t k = 0; k < next; k++)
                  if (pid[k])
                    kill (pid[k], SIGKILL);
              }
            break;
          }
    }
  uint64_t tr = 0, st = 0, tn = 0, ev = 0, di = 0;
  std::string samples, notes;
  for (size_t i = 0; i < N; i++)
    {
      tr += slots[i].traces; st += slots[i].states; tn += slots[i].transitions; ev += slots[i].evals; di += slots[i].distinct;
      if (slots[i].sample[0][0] && (i % std::max<size_t> (1, N / 5)) == 0)
        for (int k = 0; k < 2; k++)
          if (slots[i].sample[k][0])
            samples += (samples.empty() ? "" : ", ") + jstr (items[i].name + ": " + slots[i].sample[k]);
      if (slots[i].note[0])
        notes += (notes.empty() ? "" : ", ") + jstr (items[i].name + ": " + slots[i].note);
    }
  printf ("{\"items\": %zu, \"traces\": %llu, \"states\": %llu, \"transitions\": %llu, \"evals\": %llu, \"distinct\": %llu,\n"
          " \"samples\": [%s],\n \"notes\": [%s],\n \"infra_error\": %s,\n \"violation\": ",
          N, (unsigned long long) tr, (unsigned long long) st, (unsigned long long) tn, (unsigned long long) ev, (unsigned long long) di,
          samples.c_str(), notes.c_str(), infra ? "true" : "false");
  if (violated >= 0)
    printf ("{\"item\": %s, \"trace\": %llu, \"desc\": %s, \"msg\": %s}}\n", jstr (items[violated].name).c_str(),
            (unsigned long long) slots[violated].v_trace, jstr (slots[violated].v_desc).c_str(), jstr (slots[violated].msg).c_str());
  else
    printf ("null}\n");
  fflush (stdout);
  return infra ? 3 : violated >= 0 ? 1 : 0;
}

} // namespace mc
