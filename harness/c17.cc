// C17: all build modes yield the same resampler.
// Every build of the matrix (compiler x optimization x language standard x packaging x instruction set x NDEBUG) is a program of its own
// that executes requests; this harness enumerates traces and compares each result with the reference build linked in here.
#include "freq.hh"
#include "c17_rpc.hh"

static std::string
env (const char *n)
{
  const char *v = getenv (n);
  return v ? v : "";
}

struct Peer {
  int to, from;
  pid_t pid;
  explicit Peer (const std::string& exe)
  {
    int a[2], b[2];
    if (pipe (a) || pipe (b))
      exit (3);
    signal (SIGPIPE, SIG_IGN);
    pid = fork();
    if (pid == 0)
      {
        prctl (PR_SET_PDEATHSIG, SIGKILL);
        dup2 (a[0], 0);
        dup2 (b[1], 1);
        for (int i : { a[0], a[1], b[0], b[1] })
          close (i);
        struct rlimit rl = { 600, 600 };
        setrlimit (RLIMIT_CPU, &rl);
        execl (exe.c_str(), exe.c_str(), nullptr);
        _exit (99);
      }
    close (a[0]);
    close (b[1]);
    to = a[1];
    from = b[0];
  }
  ~Peer()
  {
    close (to);
    close (from);
    kill (pid, SIGKILL);
    waitpid (pid, nullptr, 0);
  }
  void
  io (mc::Ctx& ctx, bool out, void *p, size_t n)
  {
    char *c = (char *) p;
    while (n)
      {
        ssize_t k = out ? write (to, c, n) : read (from, c, n);
        if (k < 0 && errno == EINTR)
          continue;
        if (k <= 0)
          {
            int st = 0;
            waitpid (pid, &st, 0);
            ctx.fail ("the program ended: %s %d", WIFSIGNALED (st) ? "signal" : "exit status", WIFSIGNALED (st) ? WTERMSIG (st) : WEXITSTATUS (st));
          }
        c += k;
        n -= k;
      }
  }
  C17Response
  call (mc::Ctx& ctx, C17Request q, const std::vector<C17Block>& blocks, const std::vector<float>& x, std::vector<float>& y)
  {
    q.n_blocks = blocks.size();
    q.n_samples = x.size();
    io (ctx, true, &q, sizeof (q));
    io (ctx, true, (void *) blocks.data(), blocks.size() * sizeof (C17Block));
    io (ctx, true, (void *) x.data(), x.size() * sizeof (float));
    C17Response a;
    io (ctx, false, &a, sizeof (a));
    if (a.n_out > C17_MAX * 8)
      exit (3);
    y.resize (a.n_out);
    io (ctx, false, y.data(), y.size() * sizeof (float));
    return a;
  }
};

// reference: the same request on the library linked to this program
int run_ref (const C17Request& q, C17Response& a, const C17Block *blocks, const float *x, float *y);

static std::vector<std::vector<C17Block>>
programs (const Cfg& c, bool th)
{
  const uint N = 130;
  std::vector<std::vector<C17Block>> v;
  v.push_back ({ { N, 0, 0 } });
  for (uint n : { 1u, 2u, 3u, 4u, 5u, 7u, 8u, 13u, 16u, 33u, 64u })
    {
      std::vector<C17Block> p;
      for (uint t = 0; t < N; t += n)
        p.push_back ({ std::min (n, N - t), n % 4, t % 4 });
      v.push_back (p);
    }
  for (uint n = 1; n <= (th ? 70 : 9); n++)
    v.push_back ({ { n, n % 4, 0 }, { N - n, (n + 1) % 4, 1 } });
  v.push_back ({ { 40, 1, 0 }, { C17_RESET, 0, 0 }, { 90, 0, 1 } });
  v.push_back ({ { 512, 0, 0 }, { 7, 0, 0 }, { 129, 3, 3 } });
  v.push_back ({ { 1025, 1, 0 }, { 40, 0, 0 } });
  if (th)
    for (uint a = 1; a <= 9; a++)
      for (uint b = 1; b <= 9; b++)
        v.push_back ({ { a, 0, 0 }, { b, 1, 1 }, { N - a - b, a % 4, b % 4 } });
  return v;
}

static void
variant (mc::Ctx& ctx, const std::string& name, const std::string& isa, bool one_tu)
{
  if (isa == "avx" && !(__builtin_cpu_supports ("avx2") && __builtin_cpu_supports ("fma")))
    {
      ctx.note ("skipped: this machine has no AVX2");
      return;
    }
  Peer peer (env ("VERIF_BUILD") + "/c17-" + name);
  const uint64_t id = std::hash<std::string>() (name);
  const bool simd = isa != "nosse";
  std::vector<float> y, z;
  static float buf[C17_MAX * 8];
  for (uint tu = 0; tu < (one_tu ? 1 : 2); tu++)
    for (uint bits = 0; bits <= 40; bits++)
      {
        if (!ctx.begin ("static functions, bits/size %u, translation unit %u", bits, tu))
          continue;
        C17Request q = { 1, tu, 0, bits, bits < 6 ? uint (kPrecs[bits]) : bits };
        C17Response a = peer.call (ctx, q, {}, {}, y), b;
        run_ref (q, b, nullptr, nullptr, nullptr);
        if (a.bad)
          ctx.fail ("AlignedArray of %u floats is wrong", bits);
        if (a.order != b.order)
          ctx.fail ("find_precision_for_bits (%u) is %u, reference build: %u", bits, a.order, b.order);
        if (strncmp (a.text, b.text, sizeof (a.text)))
          ctx.fail ("precision_name (%u) is '%.60s', reference build: '%.60s'", q.prec, a.text, b.text);
        if (!a.sse_enabled)
          ctx.fail ("test_filter_impl reports an error");
        if (bool (a.sse_available) != simd)
          ctx.fail ("sse_available() is %u", a.sse_available);
        ctx.eval (5);
      }
  double worst[2] = { 0, 0 };
  for (auto& c : configs (FIR | IIR))
    {
      const bool fir = c.filt == R::FILTER_FIR;
      const auto progs = programs (c, ctx.thorough);
      std::vector<float> imp;
      std::vector<std::pair<size_t, float>> imps;
      const uint ipf = c.in_per_frame();
          const size_t total = 1200 * ipf;
      imp.resize (total);
      for (size_t t = 0, k = 0; t + 60 * ipf < total; t += 61 * ipf + 1, k++)
        {
          imps.push_back ({ t, k % 3 == 1 ? -0.5f : 1 });
          imp[t] = imps.back().second;
        }
      FirModel model (fir ? c : configs (FIR)[0]);
      for (uint tu = 0; tu < (one_tu ? 1 : 2); tu++)
        for (int sig = 0; sig < 2; sig++)
          for (size_t k = 0; k < progs.size(); k++)
            {
              if (!ctx.begin ("%s, program %zu, %s, translation unit %u", c.name().c_str(), k, sig ? "dense" : "impulses", tu))
                continue;
              const std::vector<C17Block>& p = progs[k];
              size_t frames = 0;
              bool has_reset = false;
              for (auto& b : p)
                if (b.frames == C17_RESET)
                  has_reset = true;
                else
                  frames += b.frames;
              std::vector<float> x (imp.begin(), imp.begin() + frames * ipf);
              if (sig)
                for (size_t i = 0; i < x.size(); i++)
                  x[i] = dense (i, k);
              C17Request q = { 0, tu, uint (c.mode), c.ratio, uint (c.prec), c.sse, uint (c.filt), uint (p.size()), uint (x.size()) };
              const C17Response a = peer.call (ctx, q, p, x, y);
              C17Response b;
              run_ref (q, b, p.data(), x.data(), buf);
              if (a.order != b.order)
                ctx.fail ("order() is %u, reference build: %u", a.order, b.order);
              if (!(fabs (a.delay - b.delay) <= 1e-12 * (1 + fabs (b.delay))))
                ctx.fail ("delay() is %.17g, reference build: %.17g", a.delay, b.delay);
              if (!c.sse && a.sse_enabled)
                ctx.fail ("sse_enabled() without being requested");
              if (!simd && a.sse_enabled)
                ctx.fail ("sse_enabled() in a build without SSE");
              if (simd && c.sse && !a.sse_enabled && (fir || isa != "neon"))
                ctx.fail ("sse_enabled() is false, although requested and available");
              if (a.n_out != frames * c.out_per_frame())
                ctx.fail ("%u output samples, expected %zu", a.n_out, frames * c.out_per_frame());
              if (fir && c.ratio == 2 && !sig && !has_reset)
                {
                  double expect;
                  long i = model.check (imps, y, expect);
                  if (i >= 0)
                    ctx.fail ("output %ld is %.9g, reference build: %.9g", i, y[i], expect);
                }
              const double tol = sig ? 4e-6 : 1e-6;
              for (size_t i = 0; i < y.size(); i++)
                {
                  const double d = fabs (double (y[i]) - buf[i]);
                  worst[sig] = std::max (worst[sig], d);
                  if (!(d <= tol))
                    ctx.fail ("output %zu is %.9g, reference build: %.9g", i, y[i], buf[i]);
                }
              if (!simd && c.sse)
                {
                  // scalar code, even if SSE is requested
                  C17Request q2 = q;
                  q2.sse = 0;
                  peer.call (ctx, q2, p, x, z);
                  if (y.size() != z.size() || !same_bits (y.data(), z.data(), y.size()))
                    ctx.fail ("output is not that of the scalar code");
                }
              ctx.eval (y.size() + 4);
              ctx.state (mc::mix (id, mc::mix (std::hash<std::string>() (c.name()), k)));
              ctx.transition (mc::mix (id + sig + 2 * tu, mc::mix (std::hash<std::string>() (c.name()), k)));
              ctx.outcome (hash_out (y));
            }
    }
  char b[100];
  snprintf (b, sizeof (b), "largest deviation from the reference build %.3g (impulses), %.3g (dense)", worst[0], worst[1]);
  ctx.note (b);
}

#define RUN run_ref
#include "c17_tu.hh"

int
main (int argc, char **argv)
{
  std::vector<mc::Item> items;
  // list of variants: name isa one_tu; ...
  const char *p = VARIANTS;
  char name[200], isa[50];
  int one, n = 0;
  while (sscanf (p, " %199s %49s %d ; %n", name, isa, &one, &n) == 3)
    {
      std::string nm = name, i = isa;
      items.push_back ({ nm, [nm, i, one] (mc::Ctx& ctx) { variant (ctx, nm, i, one); } });
      p += n;
    }
  if (*p)
    return 3;
  return mc::main (argc, argv, items);
}
