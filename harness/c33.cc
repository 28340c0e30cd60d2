// C33: instances may live in any phase of a program's life: as global objects (whatever the link order), in main, in
// threads, after fork, in thread-local destructors, exit handlers and static destructors, and in plugins which are
// loaded and unloaded.  The programs are separate executables, one per packaging; each plan runs in a new process.
#include "rs.hh"
#include "c33_life.hh"
#include <dlfcn.h>
#include <fcntl.h>
#include <map>
using namespace mc;
using std::string;
using std::vector;

static const char *phase_name[] = { "constructor function of priority 101", "static object of the first object file", "static object of the last object file", "main", "thread",
                                    "thread-local destructor of a thread", "main after the thread", "main, after fork if any", "thread-local destructor of main", "atexit handler",
                                    "static destructor of the last object file", "static destructor of the first object file", "destructor function of priority 101" };

static string build_dir() { return getenv ("VERIF_BUILD"); }

struct Result { int status; string err; vector<char> data; };

static Result
run_plan (const string& pack, const LifePlan& p)
{
  const int out = memfd_create ("out", 0), err = memfd_create ("err", 0);
  char plan[200];
  snprintf (plan, sizeof (plan), "%d,%d,%d,%d,%d,%d,%d", p.create, p.destroy, p.uses, p.reset, p.fork, p.first, p.n);
  const string exe = build_dir() + "/c33-" + pack;
  fflush (nullptr);
  const pid_t pid = fork();
  if (pid == 0)
    {
      prctl (PR_SET_PDEATHSIG, SIGKILL);
      struct itimerval it;
      memset (&it, 0, sizeof (it));
      setitimer (ITIMER_PROF, &it, nullptr);
      signal (SIGSEGV, SIG_DFL);
      dup2 (out, 9);
      dup2 (err, 2);
      setenv ("VERIF_LIFE", plan, 1);
      setenv ("LD_LIBRARY_PATH", build_dir().c_str(), 1);
      execl (exe.c_str(), exe.c_str(), (char *) nullptr);
      _exit (99);
    }
  Result r;
  int st = 0;
  while (waitpid (pid, &st, 0) < 0 && errno == EINTR)
    ;
  r.status = st;
  auto slurp = [] (int fd, auto& s) {
    const off_t n = lseek (fd, 0, SEEK_END);
    s.resize (n);
    for (off_t k = 0; k < n; )
      {
        const ssize_t g = pread (fd, &s[k], n - k, k);
        if (g <= 0)
          break;
        k += g;
      }
    close (fd);
  };
  slurp (out, r.data);
  slurp (err, r.err);
  return r;
}

static void
check_run (Ctx& ctx, const Result& r)
{
  if (WIFSIGNALED (r.status))
    ctx.fail ("the program was ended by signal %d %s", WTERMSIG (r.status), r.err.substr (0, 200).c_str());
  if (WEXITSTATUS (r.status) == 99)
    {
      printf ("cannot execute the program\n");
      _exit (3);
    }
  if (r.status)
    ctx.fail ("the program ended with status %d %s", WEXITSTATUS (r.status), r.err.substr (0, 200).c_str());
  if (r.err.size())
    ctx.fail ("diagnostics: %s", r.err.substr (0, 200).c_str());
}

// output of the instances per configuration
static std::map<int, vector<float>>
parse (Ctx& ctx, const Result& r)
{
  static const unsigned blocks[] = { 41, 3, 70, 1, 300, 16 };
  // same order as in the program
  static vector<int> opf;
  if (opf.empty())
    for (int f = 0; f < 2; f++)
      for (unsigned ratio = 1; ratio <= 8; ratio *= 2)
        for (int p : { 1, 8, 12, 16, 20, 24 })
          for (int mode = 0; mode < 2; mode++)
            for (int sse = 0; sse < 2; sse++)
              if (!(f == 1 && p == 1) && !(ratio == 1 && p != 16))
                opf.push_back (mode ? 1 : ratio);
  std::map<int, vector<float>> m;
  std::map<int, int> count;
  size_t pos = 0;
  while (pos + 4 <= r.data.size())
    {
      int i;
      memcpy (&i, &r.data[pos], 4);
      pos += 4;
      if (i < 0 || i >= int (opf.size()))
        ctx.fail ("output of the program is damaged");
      const size_t n = 3 + blocks[count[i]++ % 6] * opf[i];
      if (pos + n * 4 > r.data.size())
        ctx.fail ("output of the program is not complete");
      const float *f = (const float *) &r.data[pos];
      auto& v = m[i];
      const size_t o = v.size();
      v.resize (o + n);
      memcpy (&v[o], f, n * 4);
      pos += n * 4;
    }
  return m;
}

static void
explore (Ctx& ctx, const string& pack, int create)
{
  std::map<std::pair<int, int>, std::map<int, vector<float>>> refs;
  const std::map<int, vector<float>> *ref = nullptr;
  // references: instances in main of this process, by number of blocks and the block before which there is a reset
  auto reference = [&] (int n, int reset_before) -> const std::map<int, vector<float>>& {
    auto& m = refs[{ n, reset_before }];
    if (m.empty())
      {
        int idx = 0;
        static const unsigned blocks[] = { 41, 3, 70, 1, 300, 16 };
        Exec ex (1 << 13);
        for (int f = 0; f < 2; f++)
          for (unsigned ratio = 1; ratio <= 8; ratio *= 2)
            for (int p : { 1, 8, 12, 16, 20, 24 })
              for (int mode = 0; mode < 2; mode++)
                for (int sse = 0; sse < 2; sse++)
                  if (!(f == 1 && p == 1) && !(ratio == 1 && p != 16))
                    {
                      const Cfg c { mode ? R::DOWN : R::UP, ratio, R::Precision (p), bool (sse), f ? R::FILTER_IIR : R::FILTER_FIR };
                      R r = c.make();
                      vector<float> v;
                      size_t pos = 0;
                      for (int b = 0; b < n; b++)
                        {
                          if (b == reset_before)
                            r.reset();
                          const unsigned frames = blocks[b % 6];
                          vector<float> x (frames * c.in_per_frame()), y;
                          for (auto& s : x)
                            {
                              uint32_t h = (pos++ + 1) * 2654435761u;
                              h ^= h >> 15;
                              h *= 2246822519u;
                              s = int32_t (h ^ h >> 13) / 2147483648.f;
                            }
                          ex.step (r, c, { frames, 0, 0 }, x, 0, y);
                          v.insert (v.end(), { float (r.order()), float (r.delay()), float (r.sse_enabled()) });
                          v.insert (v.end(), y.begin(), y.end());
                        }
                      m[idx++] = v;
                    }
      }
    return m;
  };
  const int n_cfg = reference (1, -1).size();
  auto trace = [&] (const LifePlan& p) {
    if (!ctx.begin ("created in: %s, destroyed in: %s, used in phases %#x%s%s%s", phase_name[p.create], phase_name[p.destroy], p.uses,
                    p.reset >= 0 ? (string (", reset in: ") + phase_name[p.reset]).c_str() : "", p.fork ? ", with fork" : "",
                    p.n > 0 ? (", only configuration " + std::to_string (p.first)).c_str() : ""))
      return;
    const Result r = run_plan (pack, p);
    check_run (ctx, r);
    auto got = parse (ctx, r);
    int n = 0, reset_before = -1;
    for (int ph = p.create; ph <= p.destroy; ph++)
      {
        if (ph == p.reset)
          reset_before = n;
        n += p.uses >> ph & 1;
      }
    ref = &reference (n, reset_before);
    for (int i = p.first; i < (p.n > 0 ? p.first + p.n : n_cfg); i++)
      {
        const vector<float>& e = ref->at (i), &g = got[i];
        if (g.size() != e.size())
          ctx.fail ("configuration %d: %zu values, expected %zu", i, g.size(), e.size());
        for (size_t k = 0; k < e.size(); k++)
          if (!(fabs (double (g[k]) - e[k]) <= 8e-6))
            ctx.fail ("configuration %d: value %zu is %.9g, but %.9g for an instance in main", i, k, double (g[k]), double (e[k]));
        ctx.eval (e.size());
      }
    const uint64_t h = mix (mix (p.create, p.destroy), mix (p.uses, mix (p.reset + 2, p.fork * 1000 + p.first)));
    ctx.state (h);
    ctx.transition (h);
    ctx.outcome (mix (h, r.data.size()));
  };
  const int all = (1 << N_PHASES) - 1;
  for (int d = create; d < N_PHASES; d++)
    for (int fork : { 0, 1 })
      {
        if (fork && (create >= PH_FORK || d < PH_FORK))
          continue;
        for (int uses : { all, 1 << create | 1 << d, 1 << d, 1 << create })
          trace ({ create, d, uses, -1, fork, 0, 0 });
        for (int r = create; r <= d; r++)
          trace ({ create, d, all, r, fork, 0, 0 });
      }
  // a single configuration: nothing else was done before
  for (int i = 0; i < n_cfg; i++)
    {
      trace ({ create, create, 1 << create, -1, 0, i, 1 });
      if (ctx.thorough || create < PH_MAIN)
        {
          trace ({ create, N_PHASES - 1, all, -1, 0, i, 1 });
          trace ({ create, PH_MAIN, all, -1, 0, i, 1 });
        }
    }
}

// plugins: all sequences of load, use, unload of two copies, in a process each
static void
plugins (Ctx& ctx, uint slice)
{
  struct Fn { void *h; unsigned (*op) (int, void *, int, unsigned, int, int, int, const float *, unsigned, float *); };
  const char *files[2] = { "libc33-plugin-hdr.so", "libc33-plugin-lib.so" };
  const vector<Cfg> cs = configs (FIR | IIR);
  vector<vector<float>> xs, es;
  for (auto& c : cs)
    {
      vector<float> x (100 * c.in_per_frame());
      for (size_t i = 0; i < x.size(); i++)
        x[i] = dense (i, 33);
      R r = c.make();
      Exec ex (1000);
      es.push_back (ex.run (r, c, { { 60, 0, 0 }, { 40, 0, 0 } }, x));
      xs.push_back (x);
    }
  // operations: 0/1 load, 2/3 create and use the first half, 4/5 use the second half and destroy, 6/7 unload, 8 short-lived thread
  const uint N_OPS = 8, depth = ctx.thorough ? 8 : 7;
  struct St { int loaded[2], live[2]; };
  vector<int> seq;
  uint counter = 0;
  std::function<void (St)> rec = [&] (St s) {
    if (seq.size() == depth)
      {
        if (counter++ % 8 != slice)
          return;
        string d;
        for (int o : seq)
          d += string (d.empty() ? "" : ", ") + (o / 2 == 0 ? "load " : o / 2 == 1 ? "create and use " : o / 2 == 2 ? "use and destroy " : "unload ") + (o & 1 ? "B" : "A");
        if (!ctx.begin ("%s", d.c_str()))
          return;
        int msg[2];
        if (pipe (msg))
          abort();
        fflush (nullptr);
        const pid_t pid = fork();
        if (pid == 0)
          {
            prctl (PR_SET_PDEATHSIG, SIGKILL);
            close (msg[0]);
            Fn fn[2] = {};
            // instances per plugin and configuration
            const uint step = 5, off = counter % 5;
            vector<vector<uint64_t>> mem[2];
            mem[0].resize (cs.size());
            mem[1].resize (cs.size());
            alignas (64) static float in[2000], out[2000];
            auto use = [&] (int k, size_t i, uint from, uint n) {
              const Cfg& c = cs[i];
              memcpy (in, &xs[i][from * c.in_per_frame()], n * c.in_per_frame() * 4);
              fn[k].op (1, mem[k][i].data(), 0, 0, 0, 0, 0, in, n * c.in_per_frame(), out);
              for (size_t j = 0; j < n * c.out_per_frame(); j++)
                if (!(fabs (double (out[j]) - es[i][from * c.out_per_frame() + j]) <= 8e-6))
                  {
                    char b[200];
                    snprintf (b, sizeof (b), "%s: output %zu is %.9g, expected %.9g", c.name().c_str(), j, double (out[j]), double (es[i][from * c.out_per_frame() + j]));
                    if (write (msg[1], b, strlen (b))) {}
                    _exit (0);
                  }
            };
            for (int o : seq)
              {
                const int k = o & 1;
                switch (o / 2)
                  {
                    case 0: fn[k].h = dlopen ((build_dir() + "/" + files[k]).c_str(), RTLD_NOW | RTLD_LOCAL);
                            if (!fn[k].h)
                              {
                                const char *e = dlerror();
                                if (write (msg[1], e, strlen (e))) {}
                                _exit (0);
                              }
                            *(void **) &fn[k].op = dlsym (fn[k].h, "plugin_op");
                            break;
                    case 1: for (size_t i = off; i < cs.size(); i += step)
                              {
                                mem[k][i].assign (64, 0);
                                fn[k].op (0, mem[k][i].data(), cs[i].mode == R::DOWN, cs[i].ratio, cs[i].prec, cs[i].sse, cs[i].filt == R::FILTER_IIR, nullptr, 0, nullptr);
                                use (k, i, 0, 60);
                              }
                            break;
                    case 2: for (size_t i = off; i < cs.size(); i += step)
                              {
                                use (k, i, 60, 40);
                                fn[k].op (2, mem[k][i].data(), 0, 0, 0, 0, 0, nullptr, 0, nullptr);
                              }
                            break;
                    case 3: dlclose (fn[k].h);
                            break;
                  }
              }
            exit (0);
          }
        close (msg[1]);
        char b[400];
        const ssize_t n = read (msg[0], b, sizeof (b) - 1);
        close (msg[0]);
        int st = 0;
        while (waitpid (pid, &st, 0) < 0 && errno == EINTR)
          ;
        if (n > 0)
          {
            b[n] = 0;
            ctx.fail ("%s", b);
          }
        if (st)
          ctx.fail ("the process ended with status %#x", st);
        ctx.eval();
        ctx.state (counter);
        ctx.transition (counter);
        ctx.outcome (mix (counter, n));
        return;
      }
    for (uint o = 0; o < N_OPS; o++)
      {
        const int k = o & 1;
        St t = s;
        switch (o / 2)
          {
            case 0: if (s.loaded[k]) continue; t.loaded[k] = 1; break;
            case 1: if (!s.loaded[k] || s.live[k]) continue; t.live[k] = 1; break;
            case 2: if (!s.live[k]) continue; t.live[k] = 0; break;
            case 3: if (!s.loaded[k] || s.live[k]) continue; t.loaded[k] = 0; break;
          }
        seq.push_back (o);
        rec (t);
        seq.pop_back();
      }
  };
  rec (St());
}

int
main (int argc, char **argv)
{
  vector<Item> items;
  for (const char *pack : { "liblast", "libfirst", "shared", "hdr" })
    for (int c = 0; c < N_PHASES; c++)
      {
        const string p = pack;
        items.push_back ({ p + "-" + std::to_string (c), [=] (Ctx& ctx) { explore (ctx, p, c); } });
      }
  for (uint slice = 0; slice < 8; slice++)
    items.push_back ({ "plugins-" + std::to_string (slice), [=] (Ctx& ctx) { plugins (ctx, slice); } });
  return mc::main (argc, argv, items);
}
