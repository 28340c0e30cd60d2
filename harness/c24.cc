// C24: programs that create, use, reset, move, swap and destroy several instances.
#include "alloc.hh"
#include "rs.hh"
#include <map>
#include <memory>
using namespace mc;
using std::vector;

static const uint N_SALT = 4;

struct Pool {
  // the stream with number `salt`, and the response of each configuration to it
  Cfg            cfg[2];
  vector<float>  x[2][N_SALT], y[2][N_SALT];
  vector<double> tol[2];
  static const uint FRAMES = 420;
};

struct Life { int cfg = -1; uint salt = 0, pos = 0; };          // abstract state of a slot; cfg -1: empty, -2: moved from

enum OpKind { CREATE, PROCESS, RESET, MOVEC, MOVEA, SWAP, DESTROY };
struct Op { OpKind k; int a, b; };

struct World {
  static const int S = 3;
  Ctx&  ctx;
  Pool& pool;
  Exec& ex;
  alignas (64) unsigned char mem[S][sizeof (R) + 64];
  Life  life[S];
  uint  lineages = 0;
  World (Ctx& ctx, Pool& pool, Exec& ex) : ctx (ctx), pool (pool), ex (ex) {}

  R *at (int s) { return reinterpret_cast<R *> (mem[s] + 8 * s); }
  void
  destroy (int s)
  {
    if (life[s].cfg != -1)
      {
        heap::tracked ([&] { at (s)->~R(); });
        memset (mem[s], 0xcd, sizeof (mem[s]));
        life[s] = Life();
      }
  }
  void
  create (int s, int cfg)
  {
    destroy (s);
    const Cfg& c = pool.cfg[cfg];
    heap::tracked ([&] { new (at (s)) R (c.mode, c.ratio, c.prec, c.sse, c.filt); });
    life[s].cfg = cfg;
    life[s].salt = lineages++ % N_SALT;
    life[s].pos = 0;
  }
  static void
  process_check (Ctx& ctx, Pool& pool, Exec& ex, R& r, Life& l, uint n, const char *what, int idx)
  {
    static vector<float> y;
    y.clear();
    const Cfg& c = pool.cfg[l.cfg];
    const uint opf = c.out_per_frame();
    n = std::min (n, Pool::FRAMES - l.pos);
    ex.step (r, c, { n, l.pos & 3, l.salt & 3 }, pool.x[l.cfg][l.salt], l.pos, y);
    const float *e = &pool.y[l.cfg][l.salt][l.pos * opf];
    for (size_t i = 0; i < y.size(); i++)
      if (!(fabs (double (y[i]) - e[i]) <= 8e-6))
        ctx.fail ("%s %d: output %zu of this instance is %.9g, alone it produces %.9g", what, idx, l.pos * opf + i, double (y[i]), double (e[i]));
    ctx.eval (y.size());
    l.pos += n;
  }
  void
  process (int s, uint n)
  {
    process_check (ctx, pool, ex, *at (s), life[s], n, "slot", s);
  }
  bool
  enabled (const Op& o) const
  {
    const bool la = life[o.a].cfg >= 0;
    switch (o.k)
      {
        case CREATE:  return o.a == 0 || life[o.a - 1].cfg != -1 || life[o.a].cfg != -1;        // use the first free slot
        case PROCESS:
        case RESET:   return la;
        case MOVEC:   return la;
        case MOVEA:   return la && life[o.b].cfg != -1;
        case SWAP:    return la && life[o.b].cfg != -1;
        case DESTROY: return life[o.a].cfg != -1;
      }
    return false;
  }
  void
  apply (const Op& o)
  {
    switch (o.k)
      {
        case CREATE:  create (o.a, o.b); break;
        case PROCESS: process (o.a, o.b); break;
        case RESET:   heap::tracked ([&] { at (o.a)->reset(); });
                      life[o.a].pos = 0;
                      break;
        case MOVEC:   destroy (o.b);
                      heap::tracked ([&] { new (at (o.b)) R (std::move (*at (o.a))); });
                      life[o.b] = life[o.a];
                      life[o.a].cfg = -2;
                      break;
        case MOVEA:   heap::tracked ([&] { *at (o.b) = std::move (*at (o.a)); });
                      life[o.b] = life[o.a];
                      life[o.a].cfg = -2;
                      break;
        case SWAP:    heap::tracked ([&] { std::swap (*at (o.a), *at (o.b)); });
                      std::swap (life[o.a], life[o.b]);
                      break;
        case DESTROY: destroy (o.a); break;
      }
    if (heap::error)
      ctx.fail ("%s", heap::error);
  }
  uint64_t
  hash() const
  {
    uint64_t h = 7;
    for (auto& l : life)
      h = mix (h, l.cfg < 0 ? l.cfg + 5 : (l.cfg * 8 + l.salt) * 1000 + l.pos + 10);
    return h;
  }
  void
  finish (bool forward)
  {
    for (int s = 0; s < S; s++)
      if (life[s].cfg >= 0)
        process (s, 37);
    for (int i = 0; i < S; i++)
      destroy (forward ? i : S - 1 - i);
    if (heap::error)
      ctx.fail ("%s", heap::error);
    if (heap::live)
      ctx.fail ("%ld blocks of memory are not returned after all instances were destroyed", heap::live);
  }
};

static std::string
op_str (const Op& o)
{
  static const char *n[] = { "create", "process", "reset", "move-construct", "move-assign", "swap", "destroy" };
  char b[80];
  if (o.k == CREATE) snprintf (b, sizeof (b), "%s %d:%c", n[o.k], o.a, 'A' + o.b);
  else if (o.k == PROCESS) snprintf (b, sizeof (b), "%s %d:%u", n[o.k], o.a, o.b);
  else if (o.k == MOVEC || o.k == MOVEA || o.k == SWAP) snprintf (b, sizeof (b), "%s %d->%d", n[o.k], o.a, o.b);
  else snprintf (b, sizeof (b), "%s %d", n[o.k], o.a);
  return b;
}

static void
make_pool (Pool& p, Exec& ex)
{
  for (int k = 0; k < 2; k++)
    for (uint s = 0; s < N_SALT; s++)
      {
        const Cfg& c = p.cfg[k];
        p.x[k][s].resize (Pool::FRAMES * c.in_per_frame());
        for (size_t i = 0; i < p.x[k][s].size(); i++)
          p.x[k][s][i] = dense (i, s * 7 + 50);
        R r = c.make();
        p.y[k][s] = ex.run (r, c, { { Pool::FRAMES, 0, 0 } }, p.x[k][s]);
      }
}

static void
explore (Ctx& ctx, const Cfg& ca, const Cfg& cb, uint depth)
{
  Pool pool = { { ca, cb } };
  Exec ex (8 * Pool::FRAMES);
  make_pool (pool, ex);
  vector<Op> all;
  for (int s = 0; s < World::S; s++)
    {
      all.push_back ({ CREATE, s, 0 });
      all.push_back ({ CREATE, s, 1 });
      all.push_back ({ PROCESS, s, 3 });
      all.push_back ({ PROCESS, s, 21 });
      all.push_back ({ RESET, s, 0 });
      for (int t = 0; t < World::S; t++)
        if (s != t)
          {
            all.push_back ({ MOVEC, s, t });
            all.push_back ({ MOVEA, s, t });
            if (s < t)
              all.push_back ({ SWAP, s, t });
          }
      all.push_back ({ DESTROY, s, 0 });
    }
  // every program of `depth` operations, starting with the two instances A (used) and B (used)
  static const Op start[2][4] = { { { CREATE, 0, 0 }, { PROCESS, 0, 5 }, { CREATE, 1, 1 }, { PROCESS, 1, 40 } }, { { CREATE, 0, 0 }, { CREATE, 1, 1 }, { PROCESS, 1, 1 }, { PROCESS, 0, 33 } } };
  vector<uint> prog (depth);
  std::function<void (uint, const vector<Life>&, int)> rec;
  uint64_t leaf = 0;
  std::unique_ptr<World> wp;
  // the abstract effect of an operation decides which operations are enabled
  auto abstract = [&] (vector<Life> l, const Op& o, uint& lin) {
    switch (o.k)
      {
        case CREATE:  l[o.a] = Life(); l[o.a].cfg = o.b; break;
        case MOVEC:
        case MOVEA:   l[o.b] = l[o.a]; l[o.a].cfg = -2; break;
        case SWAP:    std::swap (l[o.a], l[o.b]); break;
        case DESTROY: l[o.a] = Life(); break;
        default: break;
      }
    return l;
  };
  World probe (ctx, pool, ex);
  rec = [&] (uint d, const vector<Life>& l, int init) {
    if (d == depth)
      {
        leaf++;
        std::string desc = init ? "A, B, B:1 A:33" : "A A:5 B B:40";
        if (ctx.only < 0 || ctx.only == (int64_t) ctx.s->cur_trace + 1)
          for (uint i : prog)
            desc += "; " + op_str (all[i]);
        if (!ctx.begin ("%s; end %s", desc.c_str(), leaf & 1 ? "0,1,2" : "2,1,0"))
          return;
        World w (ctx, pool, ex);
        uint64_t h = w.hash();
        auto ap = [&] (const Op& o) {
          w.apply (o);
          const uint64_t n = w.hash();
          ctx.state (n);
          ctx.transition (mix (h, mix (n, o.k * 64 + o.a * 8 + o.b)));
          h = n;
        };
        for (auto& o : start[init])
          ap (o);
        for (uint i : prog)
          ap (all[i]);
        w.finish (leaf & 1);
        ctx.outcome (h);
        return;
      }
    for (int s = 0; s < World::S; s++)
      probe.life[s] = l[s];
    vector<uint> en;
    for (uint i = 0; i < all.size(); i++)
      if (probe.enabled (all[i]))
        en.push_back (i);
    for (uint i : en)
      {
        prog[d] = i;
        uint lin = 0;
        rec (d + 1, abstract (l, all[i], lin), init);
      }
  };
  for (int init = 0; init < 2; init++)
    {
      vector<Life> l (World::S);
      l[0].cfg = 0;
      l[1].cfg = 1;
      rec (0, l, init);
    }
  // instances in a container: growth moves them, erase and insert shift them by move assignment
  const uint vdepth = depth + 1, V = 6;
  const char *vn[V] = { "push A", "push B", "insert A at 0", "erase first", "erase last", "rotate" };
  uint total = 1;
  for (uint i = 0; i < vdepth; i++)
    total *= V;
  for (uint v = 0; v < total; v++)
    {
      std::string desc = "vector: 2 instances";
      for (uint i = 0, q = v; i < vdepth; i++, q /= V)
        desc += std::string ("; ") + vn[q % V];
      if (!ctx.begin ("%s", desc.c_str()))
        continue;
      {
        vector<Life> lf;
        uint lin = 0;
        heap::live = 0;
        std::unique_ptr<vector<R>> rp;
        heap::tracked ([&] { rp.reset (new vector<R>()); });
        vector<R>& rs = *rp;
        auto push = [&] (size_t pos, int k) {
          const Cfg& c = pool.cfg[k];
          heap::tracked ([&] {
            if (pos == rs.size())
              rs.emplace_back (c.mode, c.ratio, c.prec, c.sse, c.filt);
            else
              rs.insert (rs.begin() + pos, R (c.mode, c.ratio, c.prec, c.sse, c.filt));
          });
          Life l;
          l.cfg = k;
          l.salt = lin++ % N_SALT;
          lf.insert (lf.begin() + pos, l);
        };
        auto all_process = [&] (uint n) {
          for (size_t i = 0; i < rs.size(); i++)
            World::process_check (ctx, pool, ex, rs[i], lf[i], n + i, "element", i);
        };
        push (0, 0);
        push (1, 1);
        all_process (9);
        for (uint i = 0, q = v; i < vdepth; i++, q /= V)
          {
            switch (q % V)
              {
                case 0: push (rs.size(), 0); break;
                case 1: push (rs.size(), 1); break;
                case 2: push (0, 0); break;
                case 3: if (rs.size())
                          {
                            heap::tracked ([&] { rs.erase (rs.begin()); });
                            lf.erase (lf.begin());
                          }
                        break;
                case 4: if (rs.size())
                          {
                            heap::tracked ([&] { rs.pop_back(); });
                            lf.pop_back();
                          }
                        break;
                case 5: if (rs.size() > 1)
                          {
                            heap::tracked ([&] { std::rotate (rs.begin(), rs.begin() + 1, rs.end()); });
                            std::rotate (lf.begin(), lf.begin() + 1, lf.end());
                          }
                        break;
              }
            uint64_t h = 77;
            for (auto& l : lf)
              h = mix (h, (l.cfg * 8 + l.salt) * 1000 + l.pos + 10);
            ctx.state (h);
            ctx.transition (mix (h, q % V));
            all_process (i & 1 ? 31 : 2);
          }
        all_process (17);
        heap::tracked ([&] { rp.reset(); });
      }
      if (heap::error)
        ctx.fail ("%s", heap::error);
      if (heap::live)
        ctx.fail ("%ld blocks of memory are not returned", heap::live);
    }
}

// each program in a process of its own, in which no instance existed before
static void
fresh (Ctx& ctx, const std::function<void()>& fn)
{
  fflush (nullptr);
  pid_t p = fork();
  if (p == 0)
    {
      prctl (PR_SET_PDEATHSIG, SIGKILL);
      Ctx::rearm();
      fn();
      _exit (0);
    }
  int st = 0;
  while (waitpid (p, &st, 0) < 0 && errno == EINTR)
    ;
  if (WIFEXITED (st) && WEXITSTATUS (st) == 7)
    _exit (7);
  if (!WIFEXITED (st) || WEXITSTATUS (st))
    ctx.fail ("the process ended with status 0x%x", st);
}

// every ordered pair of configurations: the subject's output does not depend on which others exist or existed
static void
pairs (Ctx& ctx, const Cfg& c, const vector<Cfg>& all)
{
  const uint opf = c.out_per_frame();
  const vector<uint> part = { 60, 3, 50, 40 };
  const uint T = 153;
  float *base = (float *) mmap (nullptr, 2 * T * opf * sizeof (float), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  Exec ex (1024 * 8);
  auto stream = [] (const Cfg& q, uint salt) {
    vector<float> x (400 * q.in_per_frame());
    for (size_t i = 0; i < x.size(); i++)
      x[i] = dense (i, salt);
    return x;
  };
  const vector<float> xs[2] = { stream (c, 80), stream (c, 81) };
  for (int k = 0; k < 2; k++)
    fresh (ctx, [&] {
      R r = c.make();
      vector<float> y;
      uint pos = 0;
      for (uint n : part)
        {
          ex.step (r, c, { n, 0, 0 }, xs[k], pos, y);
          pos += n;
        }
      memcpy (base + k * T * opf, y.data(), y.size() * sizeof (float));
    });
  for (size_t b = 0; b < all.size(); b++)
    {
      const Cfg& o = all[b];
      if (!ctx.begin ("new process: %s before, between and after", o.name().c_str()))
        continue;
      fresh (ctx, [&] {
        const vector<float> z = stream (o, 82);
        uint pos[2] = {}, part_i[2] = {}, opos = 0;
        std::unique_ptr<R> a[2], b1, b2;
        auto use = [&] (int k) {
          vector<float> y;
          const uint n = part[part_i[k]++];
          ex.step (*a[k], c, { n, 0, 0 }, xs[k], pos[k], y);
          for (size_t i = 0; i < y.size(); i++)
            {
              const float e = base[(k * T + pos[k]) * opf + i];
              if (!(fabs (double (y[i]) - e) <= 8e-6))
                ctx.fail ("instance %d: output %zu is %.9g, alone it produces %.9g", k, pos[k] * opf + i, y[i], e);
            }
          ctx.eval (y.size());
          pos[k] += n;
        };
        auto disturb = [&] (R& r, uint n) {
          vector<float> y;
          ex.step (r, o, { n, 0, 0 }, z, opos, y);
          opos += n;
        };
        b1.reset (o.make_new());
        disturb (*b1, 90);
        a[0].reset (c.make_new());
        use (0);
        disturb (*b1, 20);
        use (0);
        a[1].reset (c.make_new());
        use (1);
        b2.reset (o.make_new());
        disturb (*b2, 70);
        use (1);
        b1.reset();
        use (0);
        b2->reset();
        use (1);
        disturb (*b2, 10);
        use (0);
        a[0].reset();
        use (1);
      });
      ctx.state (mix (5, b));
      ctx.transition (mix (6, b));
      ctx.outcome (mix (7, b));
    }
}

// large populations: P instances alive at the same time, of all configurations, and long series of creations
static void
population (Ctx& ctx, const vector<Cfg>& all, const vector<uint>& sizes, uint creations)
{
  Exec ex (1024 * 8);
  const uint N_REF = 3, T = 400;
  vector<vector<float>> xs[N_REF], ys[N_REF];
  for (uint k = 0; k < N_REF; k++)
    for (auto& c : all)
      {
        vector<float> x (T * c.in_per_frame()), y;
        for (size_t i = 0; i < x.size(); i++)
          x[i] = dense (i, 90 + k);
        R r = c.make();
        ex.step (r, c, { T, 0, 0 }, x, 0, y);
        xs[k].push_back (x);
        ys[k].push_back (y);
      }
  struct One { std::unique_ptr<R> r; uint cfg, k, pos; };
  auto make = [&] (uint i) {
    One o;
    o.cfg = i % all.size();
    o.k = (i / all.size() + i) % N_REF;
    o.pos = 0;
    o.r.reset (all[o.cfg].make_new());
    return o;
  };
  auto use = [&] (One& o, uint n, const char *when, size_t idx) {
    const Cfg& c = all[o.cfg];
    if (o.pos + n > T)
      {
        o.r->reset();
        o.pos = 0;
      }
    vector<float> y;
    ex.step (*o.r, c, { n, 0, 0 }, xs[o.k][o.cfg], o.pos, y);
    for (size_t i = 0; i < y.size(); i++)
      {
        const float e = ys[o.k][o.cfg][o.pos * c.out_per_frame() + i];
        if (!(fabs (double (y[i]) - e) <= 8e-6))
          ctx.fail ("%s: instance %zu (%s): output %zu is %.9g, alone it produces %.9g", when, idx, c.name().c_str(), o.pos * c.out_per_frame() + i, y[i], e);
      }
    o.pos += n;
    ctx.eval (y.size());
  };
  for (uint P : sizes)
    for (uint rot : { 0u, 5u })
      {
        if (!ctx.begin ("%u instances, starting with configuration %u", P, rot))
          continue;
        vector<One> v;
        for (uint i = 0; i < P; i++)
          v.push_back (make (i + rot * 11));
        for (uint round = 0; round < 3; round++)
          for (size_t i = 0; i < v.size(); i++)
            use (v[i], 5 + (i + round * 7) % 40, "all alive", i);
        // from the last to the first, with some resets
        for (size_t i = v.size(); i--;)
          {
            if (i % 5 == 2)
              {
                v[i].r->reset();
                v[i].pos = 0;
              }
            use (v[i], 33, "backwards", i);
          }
        for (size_t i = 0; i < v.size(); i += 2)
          v[i].r.reset();
        for (size_t i = 1; i < v.size(); i += 2)
          use (v[i], 12, "every other one destroyed", i);
        for (size_t i = 0; i < v.size(); i += 2)
          v[i] = make (i + P);
        for (size_t i = 0; i < v.size(); i++)
          use (v[i], 47, "replaced", i);
        ctx.state (mix (P, rot));
        ctx.transition (mix (P, rot));
        ctx.outcome (mix (P, rot));
      }
  if (creations && ctx.begin ("%u creations", creations))
    {
      vector<One> v;
      for (uint i = 0; i < all.size(); i++)
        v.push_back (make (i));
      for (uint i = 0; i < creations; i++)
        {
          One o = make (i + i / 7);
          use (o, 1 + i % 30, "series of creations", i);
          if (i % 64 == 0)
            use (v[i / 64 % v.size()], 7, "survivor", i / 64 % v.size());
          ctx.state (mix (9, i));
        }
      for (uint i = 0; i < all.size(); i++)
        use (v[i], 50, "survivor", i);
    }
}

int
main (int argc, char **argv)
{
  vector<Item> items;
  const vector<Cfg> cs = configs (FIR | IIR, { 1, 2, 4, 8 });
  const bool th = [&] { for (int i = 1; i + 1 < argc; i++) if (!strcmp (argv[i], "--tier")) return !strcmp (argv[i + 1], "thorough"); return false; } ();
  const vector<uint> sizes = { 5, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2049 };
  for (int part = 0; part < 3; part++)
    {
      vector<uint> some;
      for (size_t i = part; i < sizes.size(); i += 3)
        some.push_back (sizes[i]);
      items.push_back ({ "population-" + std::to_string (part), [=] (Ctx& ctx) { population (ctx, cs, some, part ? 0 : th ? 1000000 : 70000); } });
    }
  for (auto& c : cs)
    items.push_back ({ "population-" + c.name(), [=] (Ctx& ctx) { population (ctx, { c }, { th ? 70000u : 4500u }, 0); } });
  for (size_t i = 0; i < cs.size(); i++)
    items.push_back ({ "pairs-" + cs[i].name(), [=] (Ctx& ctx) { pairs (ctx, cs[i], cs); } });
  for (size_t i = 0; i < cs.size(); i++)
    {
      // partners: the same configuration, the one for the way back, and one of the other family
      Cfg inv = cs[i];
      inv.mode = cs[i].mode == R::UP ? R::DOWN : R::UP;
      const Cfg other = cs[(i * 37 + 61) % cs.size()];
      int k = 0;
      for (const Cfg& p : { cs[i], inv, other })
        {
          const uint depth = th ? 4 : (i + k) % 12 == 0 ? 4 : 3;
          items.push_back ({ cs[i].name() + "+" + p.name(), [=] (Ctx& ctx) { explore (ctx, cs[i], p, depth); } });
          k++;
        }
    }
  return mc::main (argc, argv, items);
}
