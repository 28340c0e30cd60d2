// C14: the built-in IIR filters are those which the design program prints.
// Model: cascade of two-path all-pass filters with the coefficients printed by filter-design/mkiir, in double precision.
// Conformance: response of the real resampler in every enumerated history, order() and delay().
#include "freq.hh"
#include <fcntl.h>
#include <sys/stat.h>

struct Stage {
  std::vector<double> c;
  double gd = -1;
};
typedef std::map<std::pair<int, int>, Stage> Table;           // (stage ratio, bits)

static const char *VARIANTS[] = { "mkiir-g0", "mkiir-g3", "mkiir-c2", "mkiir-san" };

// runs a build of mkiir in directory dir
static std::string
run_tool (mc::Ctx& ctx, const std::string& exe, const std::string& dir, const char *perturb, const char *locale)
{
  int p[2];
  if (pipe (p))
    exit (3);
  mkdir (dir.c_str(), 0700);
  pid_t pid = fork();
  if (pid == 0)
    {
      dup2 (p[1], 1);
      close (p[0]);
      close (p[1]);
      if (chdir (dir.c_str()))
        _exit (99);
      setenv ("MALLOC_PERTURB_", perturb, 1);
      setenv ("LC_ALL", locale, 1);
      struct rlimit rl = { 60, 60 };
      setrlimit (RLIMIT_CPU, &rl);
      execl (exe.c_str(), exe.c_str(), nullptr);
      _exit (99);
    }
  close (p[1]);
  std::string s;
  char b[4096];
  for (ssize_t n; (n = read (p[0], b, sizeof (b))) > 0; )
    s.append (b, n);
  close (p[0]);
  int st;
  while (waitpid (pid, &st, 0) < 0 && errno == EINTR)
    ;
  if (!WIFEXITED (st) || WEXITSTATUS (st))
    ctx.fail ("%s: design program ended with status 0x%x", exe.c_str(), st);
  return s;
}

static Table
parse (mc::Ctx& ctx, const std::string& s)
{
  Table t;
  const char *p = s.c_str();
  // coeffs<stage>_<bits> = { numbers }
  while ((p = strstr (p, "coeffs")))
    {
      int stage, bits, n = 0;
      if (sscanf (p, "coeffs%d_%d%n", &stage, &bits, &n) != 2 || !n)
        {
          p += 6;
          continue;
        }
      const std::pair<int, int> key (stage, bits);
      const char *before = p;
      p += n;
      while (*p == ' ')
        p++;
      if (*p == '=')
        {
          int declared = -1;
          for (const char *q = before; q > s.c_str() && *q != '\n'; q--)
            if (*q == ',')
              {
                sscanf (q, ",%d", &declared);
                break;
              }
          if (t.count (key))
            ctx.fail ("filter %d_%d is printed twice", stage, bits);
          p = strchr (p, '{');
          const char *e = p ? strchr (p, '}') : nullptr;
          if (!e)
            ctx.fail ("filter %d_%d: no coefficients printed", stage, bits);
          for (p++; p < e; )
            {
              char *q;
              const double v = strtod (p, &q);
              if (q == p)
                p++;
              else
                {
                  t[key].c.push_back (v);
                  p = q;
                }
            }
          if (declared != int (t[key].c.size()))
            ctx.fail ("filter %d_%d: %d coefficients declared, %zu printed", stage, bits, declared, t[key].c.size());
        }
      else if (*p == ',')
        t[key].gd = strtod (p + 1, nullptr);
    }
  return t;
}

static void
check_complete (mc::Ctx& ctx, const Table& t)
{
  for (int bits : { 8, 12, 16, 20, 24 })
    for (int stage : { 2, 4, 8 })
      {
        auto it = t.find ({ stage, bits });
        if (it == t.end() || it->second.c.empty())
          ctx.fail ("design program does not print the filter for stage %d, %d dB", stage, bits * 6);
        if (!(it->second.gd > 0))
          ctx.fail ("design program does not print the group delay for stage %d, %d dB", stage, bits * 6);
      }
  if (t.size() != 15)
    ctx.fail ("design program prints %zu filters, expected 15", t.size());
}

static std::string
tool (const char *v)
{
  return std::string (getenv ("VERIF_BUILD")) + "/" + v;
}

// two-path all-pass sections: path 0: even coefficients, path 1: odd ones
struct Half {
  std::vector<double> c, x1, y1;
  explicit Half (const std::vector<double>& c) : c (c), x1 (c.size()), y1 (c.size()) {}
  double
  path (int which, double in)
  {
    for (size_t i = which; i < c.size(); i += 2)
      {
        const double y = c[i] * (in - y1[i]) + x1[i];
        x1[i] = in;
        y1[i] = y;
        in = y;
      }
    return in;
  }
};

// the model's response: UP: output for a unit impulse, DOWN: as in freq.hh (h[m * ratio + ratio-1 - p])
static std::vector<double>
model (const Cfg& c, const Table& t, uint F)
{
  std::vector<int> stages;
  const int bits = int (c.prec);
  for (int s = 2; s <= int (c.ratio); s *= 2)
    stages.push_back (s);
  std::vector<double> h (F * c.ratio);
  if (c.mode == R::UP)
    {
      std::vector<double> x (F);
      x[0] = 1;
      for (int s : stages)
        {
          Half f (t.at ({ s, bits }).c);
          std::vector<double> y;
          for (double v : x)
            {
              y.push_back (f.path (0, v));
              y.push_back (f.path (1, v));
            }
          x = y;
        }
      return x;
    }
  for (uint p = 0; p < c.ratio; p++)
    {
      std::vector<double> x (F * c.ratio);
      x[p] = 1;
      for (auto s = stages.rbegin(); s != stages.rend(); ++s)
        {
          Half f (t.at ({ *s, bits }).c);
          std::vector<double> y;
          for (size_t i = 0; i + 1 < x.size(); i += 2)
            y.push_back ((f.path (0, x[i + 1]) + f.path (1, x[i])) * 0.5);
          x = y;
        }
      for (uint m = 0; m < F; m++)
        h[m * c.ratio + c.ratio - 1 - p] = x[m];
    }
  return h;
}

static double
model_delay (const Cfg& c, const Table& t)
{
  double d = 0;
  const int bits = int (c.prec);
  if (c.mode == R::UP)
    for (uint s = 2; s <= c.ratio; s *= 2)
      d = d * 2 + t.at ({ int (s), bits }).gd;
  else
    for (uint s = c.ratio; s >= 2; s /= 2)
      d = d / 2 + (t.at ({ int (s), bits }).gd - 1) / 2;
  return d;
}

static void
tools_item (mc::Ctx& ctx)
{
  Table ref;
  for (const char *v : VARIANTS)
    {
      std::string first;
      int k = 0;
      for (const char *perturb : { "0", "85", "170", "255" })
        for (const char *loc : { "C", "C.UTF-8" })
          {
            if (!ctx.begin ("%s run %d", v, k))
              {
                k++;
                continue;
              }
            const std::string out = run_tool (ctx, tool (v), tool ("scratch-") + v + std::to_string (k), perturb, loc);
            const Table t = parse (ctx, out);
            check_complete (ctx, t);
            if (first.empty())
              first = out;
            if (out != first)
              ctx.fail ("two runs of the design program print different output");
            if (ref.empty())
              ref = t;
            for (auto& f : t)
              {
                const Stage& a = ref[f.first];
                const Stage& b = f.second;
                if (a.c.size() != b.c.size() || fabs (a.gd - b.gd) > 2e-6)
                  ctx.fail ("filter %d_%d depends on the build of the design program", f.first.first, f.first.second);
                for (size_t i = 0; i < a.c.size(); i++)
                  if (fabs (a.c[i] - b.c[i]) > 1e-11)
                    ctx.fail ("filter %d_%d coefficient %zu depends on the build of the design program: %.17g / %.17g", f.first.first, f.first.second, i, a.c[i], b.c[i]);
                ctx.eval (a.c.size() + 1);
                for (double x : b.c)
                  ctx.outcome (mc::mix (1, x * 1e15));
              }
            ctx.state (mc::mix (7, k));
            ctx.transition (mc::mix (9, k * 10 + (v[6] & 15)));
            k++;
          }
    }
}

static void
cfg_item (mc::Ctx& ctx, const Cfg& c)
{
  const Table t = parse (ctx, run_tool (ctx, tool (VARIANTS[1]), tool ("scratch-") + c.name(), "0", "C"));
  check_complete (ctx, t);
  const uint F = 300;
  const std::vector<double> ref = model (c, t, F);
  double peak = 0;
  for (double v : ref)
    peak = std::max (peak, fabs (v));
  const double tol = 1e-6 * peak, delay = model_delay (c, t);
  const uint order = t.at ({ 2, int (c.prec) }).c.size();
  double worst = 0;
  const uint64_t id = mc::mix (0, std::hash<std::string>() (c.name()));
  histories (c, ctx.thorough, [&] (const char *what, const std::vector<Block>& blocks, size_t pos, const std::function<void (R&)>& setup) {
    if (!ctx.begin ("%s: impulse in frame %zu, %s", what, pos, seq_str (blocks).c_str()))
      return;
    const Response r = observe (c, blocks, pos, setup, F);
    for (size_t i = 0; i < ref.size(); i++)
      {
        const double e = fabs (r.h[i] - ref[i]);
        worst = std::max (worst, e / peak);
        if (!(e <= tol))
          ctx.fail ("response sample %zu is %.9g, the printed coefficients give %.9g", i, r.h[i], ref[i]);
      }
    ctx.eval (ref.size());
    ctx.outcome (hash_out (r.h));
    ctx.state (mc::mix (id, pos));
    ctx.transition (mc::mix (id, mc::mix (pos, blocks.size() ? blocks[0].frames : 0)));
    R m = c.make();
    setup (m);
    if (m.order() != order)
      ctx.fail ("order() is %u, the filter printed has %u coefficients", m.order(), order);
    if (!(fabs (m.delay() - delay) <= 1.5e-5))
      ctx.fail ("delay() is %.9g, the printed group delays give %.9g", m.delay(), delay);
    ctx.eval (2);
  });
  char b[100];
  snprintf (b, sizeof (b), "largest deviation %.3g of the peak, delay %.7g", worst, delay);
  ctx.note (b);
}

int
main (int argc, char **argv)
{
  std::vector<mc::Item> items;
  items.push_back ({ "mkiir", tools_item });
  for (auto& c : configs (IIR))
    items.push_back ({ c.name(), [c] (mc::Ctx& ctx) { cfg_item (ctx, c); } });
  return mc::main (argc, argv, items);
}
