// C26: the built-in FIR filters are those of the design procedure.
// The design script filter-design/mkfir.sh is run with a stand-in for octave (this program, by the name "octave") that computes
// the windowed sinc filters asked for with its own implementation of the ultraspherical window, so the script decides about
// number of coefficients, window parameters and the selection of coefficients.
// Model: half-band stages with the coefficients printed by the script, in double precision.
// Conformance: response of the real resampler and order() in every enumerated history.
#include "freq.hh"
#include <fcntl.h>
#include <sys/stat.h>

typedef long double ld;

// Gegenbauer polynomial
static ld
gegen (int n, ld mu, ld x)
{
  ld a = 1, b = 2 * mu * x;
  if (!n)
    return a;
  for (int k = 2; k <= n; k++)
    {
      const ld t = (2 * x * (k + mu - 1) * b - (k + 2 * mu - 2) * a) / k;
      a = b;
      b = t;
    }
  return b;
}

/* ultraspherical window of odd length m: the transform is the Gegenbauer polynomial of degree m - 1 at x0 cos(w/2);
 * latt: attenuation (dB) of the last side lobe that is not centered at half the sampling rate */
static std::vector<ld>
ultraspherical (int m, ld mu, ld latt)
{
  const int d = m - 1;
  // smallest positive extremum: zero of the derivative
  ld lo = 1e-9L, hi = 0;
  for (ld x = 0.001L; x < 1; x += 0.001L)
    if ((gegen (d - 1, mu + 1, x) > 0) != (gegen (d - 1, mu + 1, lo) > 0))
      {
        hi = x;
        break;
      }
  for (int i = 0; i < 200; i++)
    {
      const ld mid = (lo + hi) / 2;
      ((gegen (d - 1, mu + 1, mid) > 0) == (gegen (d - 1, mu + 1, lo) > 0) ? lo : hi) = mid;
    }
  const ld target = fabsl (gegen (d, mu, lo)) * powl (10, latt / 20);
  ld a = 1, b = 2;
  while (gegen (d, mu, b) < target)
    b *= 2;
  for (int i = 0; i < 200; i++)
    {
      const ld mid = (a + b) / 2;
      (gegen (d, mu, mid) < target ? a : b) = mid;
    }
  std::vector<ld> w (m);
  const ld PI = acosl (-1.0L);
  for (int k = -d / 2; k <= d / 2; k++)
    {
      ld s = 0;
      for (int j = 0; j < m; j++)
        s += gegen (d, mu, a * cosl (PI * j / m)) * cosl (2 * PI * j * k / m);
      w[k + d / 2] = s;
    }
  const ld c = w[d / 2];
  for (auto& v : w)
    v /= c;
  return w;
}

// us_sinc.m
static std::vector<ld>
us_sinc (int n, ld mu, ld latt)
{
  std::vector<ld> w = ultraspherical (2 * n + 1, mu, latt);
  const ld PI = acosl (-1.0L);
  for (int k = -n; k <= n; k++)
    {
      const ld t = PI * k / 2;
      w[k + n] *= k == 0 ? 0.5L : k % 2 == 0 ? 0 : sinl (t) / t / 2;
    }
  return w;
}

static void
collect (FILE *f, std::string& s)
{
  char b[4096];
  for (size_t n; (n = fread (b, 1, sizeof (b), f)) > 0; )
    s.append (b, n);
}

// stand-in for octave: understands scripts of the form "...; c=us_sinc(n,mu,latt,rate)'; save FILE c;"
static int
octave (int argc, char **argv)
{
  std::string s;
  for (int i = 1; i < argc; i++)
    if (argv[i][0] != '-')
      if (FILE *f = fopen (argv[i], "r"))
        {
          collect (f, s);
          fclose (f);
        }
      else if (!strcmp (argv[i - 1], "--eval"))
        s += argv[i];
  if (s.empty())
    collect (stdin, s);
  double n, mu, latt;
  const size_t p = s.find ("us_sinc("), q = s.find ("save ");
  char file[200];
  if (p == std::string::npos || q == std::string::npos || sscanf (s.c_str() + p, "us_sinc( %lf , %lf , %lf", &n, &mu, &latt) != 3 || sscanf (s.c_str() + q, "save %199[^ ;]", file) != 1)
    {
      fprintf (stderr, "octave stand-in: unknown script\n");
      return 98;
    }
  const std::vector<ld> c = us_sinc (int (n), mu, latt);
  FILE *f = fopen (file, "w");
  fprintf (f, "# Created by a stand-in for Octave\n# name: c\n# type: matrix\n# rows: %zu\n# columns: 1\n", c.size());
  for (ld v : c)
    if (v == 0)
      fprintf (f, " 0\n");
    else
      fprintf (f, " %.17g\n", double (v));
  fprintf (f, "\n\n");
  fclose (f);
  f = fopen ("us_sinc.dump", "w");
  fprintf (f, "# Created by a stand-in for Octave\n 0 1\n");
  fclose (f);
  return 0;
}

typedef std::map<std::pair<int, int>, std::vector<double>> Table;         // (stage ratio, bits)
static std::string g_self;

static std::string
run_script (mc::Ctx& ctx, const std::string& name)
{
  const std::string dir = std::string (getenv ("VERIF_BUILD")) + "/scratch-" + name;
  mkdir (dir.c_str(), 0700);
  unlink ((dir + "/octave").c_str());
  if (symlink (g_self.c_str(), (dir + "/octave").c_str()))
    ctx.fail ("cannot prepare the design script");
  unlink ((dir + "/mkfir.gen.cc").c_str());
  pid_t pid = fork();
  if (pid == 0)
    {
      if (chdir (dir.c_str()))
        _exit (99);
      setenv ("PATH", (dir + ":" + getenv ("PATH")).c_str(), 1);
      setenv ("LC_ALL", "C", 1);
      const std::string script = std::string (getenv ("VERIF_REPO")) + "/filter-design/mkfir.sh";
      if (!freopen ("/dev/null", "r", stdin))
        _exit (99);
      execlp ("bash", "bash", script.c_str(), nullptr);
      _exit (99);
    }
  int st;
  while (waitpid (pid, &st, 0) < 0 && errno == EINTR)
    ;
  std::string s;
  if (FILE *f = fopen ((dir + "/mkfir.gen.cc").c_str(), "r"))
    {
      collect (f, s);
      fclose (f);
    }
  if (!WIFEXITED (st) || WEXITSTATUS (st) || s.empty())
    ctx.fail ("the design script ended with status 0x%x and %zu bytes of output", st, s.size());
  return s;
}

static Table
parse (mc::Ctx& ctx, const std::string& s)
{
  Table t;
  const char *p = s.c_str();
  // coeffs<stage>_<bits>[<n>] = { numbers };
  while ((p = strstr (p, "coeffs")))
    {
      int stage, bits, declared, n = 0;
      if (sscanf (p, "coeffs%d_%d[%d] =%n", &stage, &bits, &declared, &n) != 3 || !n)
        {
          p += 6;
          continue;
        }
      p = strchr (p, '{');
      const char *e = p ? strchr (p, '}') : nullptr;
      if (!e)
        ctx.fail ("filter %d_%d: no coefficients printed", stage, bits);
      std::vector<double>& c = t[{ stage, bits }];
      if (!c.empty())
        ctx.fail ("filter %d_%d is printed twice", stage, bits);
      for (p++; p < e; )
        {
          char *q;
          const double v = strtod (p, &q);
          if (q == p)
            p++;
          else
            {
              c.push_back (v);
              p = q;
            }
        }
      if (declared != int (c.size()) || c.size() % 2)
        ctx.fail ("filter %d_%d: %d coefficients declared, %zu printed", stage, bits, declared, c.size());
    }
  for (int bits : { 8, 12, 16, 20, 24 })
    for (int stage : { 2, 4, 8 })
      if (!t.count ({ stage, bits }))
        ctx.fail ("the design script does not print the filter for stage %d, %d dB", stage, bits * 6);
  if (t.size() != 15)
    ctx.fail ("the design script prints %zu filters, expected 15", t.size());
  for (int stage : { 2, 4, 8 })
    t[{ stage, 1 }] = { 0.25, 0.25 };                   // linear interpolation
  return t;
}

// responses in double precision and the sum of magnitudes of all products
struct Resp {
  std::vector<double> h, m;
};

static Resp
model (const Cfg& c, const Table& t, uint F)
{
  const int bits = int (c.prec);
  Resp res;
  // half-band filter at the higher rate of a stage: taps at odd distances from the center, 0.5 in the center
  auto half = [] (const std::vector<double>& taps, double gain) {
    std::vector<double> g (taps.size() * 2 - 1);
    for (size_t i = 0; i < taps.size(); i++)
      g[2 * i] = taps[i] * gain;
    g[taps.size() - 1] += 0.5 * gain;
    return g;
  };
  auto conv = [] (const std::vector<double>& x, const std::vector<double>& g) {
    std::vector<double> y (x.size());
    for (size_t i = 0; i < x.size(); i++)
      if (x[i] != 0)
        for (size_t k = 0; k < g.size() && i + k < y.size(); k++)
          y[i + k] += x[i] * g[k];
    return y;
  };
  auto absv = [] (std::vector<double> v) {
    for (double& d : v)
      d = fabs (d);
    return v;
  };
  if (c.mode == R::UP)
    {
      std::vector<double> x (F), m;
      x[0] = 1;
      m = x;
      for (uint s = 2; s <= c.ratio; s *= 2)
        {
          const std::vector<double> g = half (t.at ({ int (s), bits }), 2);
          auto stuff = [] (const std::vector<double>& v) {
            std::vector<double> y (v.size() * 2);
            for (size_t i = 0; i < v.size(); i++)
              y[2 * i] = v[i];
            return y;
          };
          x = conv (stuff (x), g);
          m = conv (stuff (m), absv (g));
        }
      res.h = x;
      res.m = m;
      return res;
    }
  // down: h[m * ratio + ratio-1 - p] is output m for an impulse at input sample p
  res.h.resize (F * c.ratio);
  res.m.resize (F * c.ratio);
  for (uint p = 0; p < c.ratio; p++)
    {
      std::vector<double> x (F * c.ratio), m;
      x[p] = 1;
      m = x;
      for (uint s = c.ratio; s >= 2; s /= 2)
        {
          const std::vector<double> g = half (t.at ({ int (s), bits }), 1);
          auto decimate = [] (const std::vector<double>& v) {
            std::vector<double> y;
            for (size_t i = 0; i + 1 < v.size(); i += 2)
              y.push_back (v[i]);
            return y;
          };
          x = decimate (conv (x, g));
          m = decimate (conv (m, absv (g)));
        }
      for (uint k = 0; k < F; k++)
        {
          res.h[k * c.ratio + c.ratio - 1 - p] = x[k];
          res.m[k * c.ratio + c.ratio - 1 - p] = m[k];
        }
    }
  return res;
}

static void
script_item (mc::Ctx& ctx)
{
  std::string first;
  for (int k = 0; k < 3; k++)
    {
      if (!ctx.begin ("mkfir.sh, run %d", k))
        continue;
      const std::string s = run_script (ctx, "run" + std::to_string (k));
      if (first.empty())
        first = s;
      if (s != first)
        ctx.fail ("two runs of the design script print different output");
      const Table t = parse (ctx, s);
      for (auto& f : t)
        for (size_t i = 0; i < f.second.size(); i++)
          {
            ctx.eval();
            ctx.outcome (mc::mix (1, f.second[i] * 1e15));
            if (fabs (f.second[i] - f.second[f.second.size() - 1 - i]) > 1e-15)
              ctx.fail ("filter %d_%d is not symmetric", f.first.first, f.first.second);
          }
      ctx.state (mc::mix (7, k));
      ctx.transition (mc::mix (9, k));
    }
}

static void
cfg_item (mc::Ctx& ctx, const Cfg& c)
{
  const Table t = parse (ctx, run_script (ctx, c.name()));
  const uint F = 150;
  const Resp ref = model (c, t, F);
  const uint order = t.at ({ 2, int (c.prec) }).size();
  const double rel = 2.5e-7 * (c.ratio == 2 ? 1 : c.ratio == 4 ? 3 : 5);
  double worst = 0;
  const uint64_t id = mc::mix (0, std::hash<std::string>() (c.name()));
  histories (c, ctx.thorough, [&] (const char *what, const std::vector<Block>& blocks, size_t pos, const std::function<void (R&)>& setup) {
    if (!ctx.begin ("%s: impulse in frame %zu, %s", what, pos, seq_str (blocks).c_str()))
      return;
    const Response r = observe (c, blocks, pos, setup, F);
    for (size_t i = 0; i < ref.h.size(); i++)
      {
        const double e = fabs (r.h[i] - ref.h[i]);
        if (ref.m[i] > 0)
          worst = std::max (worst, e / ref.m[i]);
        if (!(e <= rel * ref.m[i]))
          ctx.fail ("response sample %zu is %.9g, the designed coefficients give %.9g", i, r.h[i], ref.h[i]);
      }
    ctx.eval (ref.h.size());
    ctx.outcome (hash_out (r.h));
    ctx.state (mc::mix (id, pos));
    ctx.transition (mc::mix (id, mc::mix (pos, blocks.size() ? blocks[0].frames : 0)));
    R m = c.make();
    setup (m);
    if (m.order() != order)
      ctx.fail ("order() is %u, the filter designed has %u coefficients", m.order(), order);
    ctx.eval();
  });
  char b[100];
  snprintf (b, sizeof (b), "largest relative deviation %.3g (allowed: %.3g)", worst, rel);
  ctx.note (b);
}

int
main (int argc, char **argv)
{
  const char *base = strrchr (argv[0], '/');
  if (!strcmp (base ? base + 1 : argv[0], "octave"))
    return octave (argc, argv);
  char self[4096];
  const ssize_t n = readlink ("/proc/self/exe", self, sizeof (self) - 1);
  g_self = std::string (self, n > 0 ? n : 0);
  std::vector<mc::Item> items;
  items.push_back ({ "mkfir", script_item });
  for (auto& c : configs (FIR))
    items.push_back ({ c.name(), [c] (mc::Ctx& ctx) { cfg_item (ctx, c); } });
  return mc::main (argc, argv, items);
}
