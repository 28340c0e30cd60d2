// C31: the library is re-entrant: an operation that is interrupted at any point by operations on other instances in the same
// thread (signal handler, interrupt, fiber) gives the result of the uninterrupted operation, and so do the others.
// The library is compiled with instrumentation of every control flow edge, load and store; every one of them is a point
// at which the operation is interrupted.
#include "rs.hh"
#include "c31.hh"
#ifdef THREADS
#include <thread>
#include <semaphore.h>
#endif
#include <memory>
using namespace mc;
using std::vector;

static bool armed = false;
static uint64_t point = 0, target = 0;
static std::function<void()> *handler;

// chains: operation of instance 0 is interrupted by that of instance 1, this one by that of instance 2 ...
static bool chained = false;
static uint level = 0, depth = 0;
static vector<uint64_t> seen, at;
static std::function<void (uint)> *next_level;

static inline void
visit()
{
  if (__builtin_expect (chained, 0))
    {
      if (seen[level]++ == at[level] && level + 1 < depth)
        {
          level++;
          (*next_level) (level);
          level--;
        }
      return;
    }
  if (armed && point++ == target)
    {
      armed = false;
      (*handler) ();
    }
}
extern "C" {
void __sanitizer_cov_trace_pc() { visit(); }
#define ACCESS(n) void __sanitizer_cov_load##n (void *) { visit(); } void __sanitizer_cov_store##n (void *) { visit(); }
ACCESS (1) ACCESS (2) ACCESS (4) ACCESS (8) ACCESS (16)
}

struct Inst {
  const Cfg c;
  const uint salt;
  alignas (64) unsigned char mem[2][sizeof (R) + 64];
  R *r = nullptr;
  int at = 0;
  size_t pos = 0;
  Arena in, out;
  Inst (const Cfg& c, uint salt, uint frames) : c (c), salt (salt), in (frames * c.in_per_frame() + 64), out (frames * c.out_per_frame() + 64) {}
  void
  create()
  {
    at = 0;
    pos = 0;
    r = op_create (mem[0], c.mode, c.ratio, c.prec, c.sse, c.filt);
  }
  void
  move()
  {
    R *n = op_move (mem[1 - at], r);
    op_destroy (r);
    r = n;
    at = 1 - at;
  }
  void
  destroy()
  {
    op_destroy (r);
    r = nullptr;
  }
  // the block is prepared before, so the handler only processes it
  void
  prepare (uint n)
  {
    for (uint i = 0; i < n * c.in_per_frame(); i++)
      in.at (n & 3)[i] = dense (pos + i, salt);
    for (uint i = 0; i < n * c.out_per_frame(); i++)
      out.at (0)[i] = 777;
  }
  void
  block (uint n)
  {
    op_process (r, in.at (n & 3), n * c.in_per_frame(), out.at (0));
    pos += n * c.in_per_frame();
  }
  void
  take (vector<float>& y, uint n)
  {
    y.insert (y.end(), out.at (0), out.at (0) + n * c.out_per_frame());
  }
};

enum Op { CREATE, BLOCK, RESET, META, MOVE, DESTROY };
struct Step { Op op; uint n; };
static const char *kOps[] = { "construction", "process_block", "reset", "delay, order", "move", "destruction" };

static std::string
str (const Step& s)
{
  return s.op == BLOCK ? "block of " + std::to_string (s.n) : kOps[s.op];
}

// state of an instance before step s: one block of 21 frames has been processed
static void
bring (Inst& i, const Step& s, vector<float>& y)
{
  i.create();
  i.prepare (21);
  i.block (21);
  i.take (y, 21);
  if (s.op == CREATE)
    i.destroy();
  if (s.op == BLOCK)
    i.prepare (s.n);
}
static void
run_step (Inst& i, const Step& s, vector<float> *y)
{
  switch (s.op)
    {
    case CREATE:  i.create(); break;
    case BLOCK:   i.block (s.n); break;
    case RESET:   op_reset (i.r); break;
    case META:    if (y) y->push_back (op_meta (i.r)); else op_meta (i.r); break;
    case MOVE:    i.move(); break;
    case DESTROY: i.destroy(); break;
    }
}
// afterwards: what remains
static void
finish (Inst& i, const Step& s, vector<float>& y)
{
  if (s.op == BLOCK)
    i.take (y, s.n);
  if (s.op == DESTROY)
    i.create();
  i.prepare (40);
  i.block (40);
  i.take (y, 40);
  y.push_back (op_meta (i.r));
  i.destroy();
}
static vector<float>
alone (Inst& i, const Step& s)
{
  vector<float> y;
  bring (i, s, y);
  run_step (i, s, &y);
  finish (i, s, y);
  return y;
}

static void
explore (Ctx& ctx, const Cfg& c, const vector<Cfg>& others)
{
  const bool th = ctx.thorough;
  const uint chunk = c.mode == R::UP ? 1030 : 1030 / c.ratio + 2;       // longer than one chunk of process_block
  const vector<Step> outer = { { CREATE, 0 }, { BLOCK, 3 }, { BLOCK, 40 }, { RESET, 0 }, { META, 0 }, { MOVE, 0 }, { DESTROY, 0 }, { BLOCK, chunk } };
  const vector<Step> inner = { { BLOCK, 3 }, { BLOCK, 33 }, { CREATE, 0 }, { RESET, 0 }, { META, 0 }, { MOVE, 0 }, { DESTROY, 0 } };
  Inst a (c, 81, chunk + 8);
  uint64_t n_points = 0;
  for (size_t o = 0; o < others.size(); o++)
    {
      Inst b (others[o], 82, chunk + 8);
      for (size_t si = 0; si < outer.size(); si++)
        {
          const Step& s = outer[si];
          const vector<float> ea = alone (a, s);
          // number of points
          uint64_t n = 0;
          {
            vector<float> y;
            bring (a, s, y);
            std::function<void()> h = [] {};
            handler = &h;
            target = ~0ull;
            point = 0;
            armed = true;
            run_step (a, s, &y);
            armed = false;
            n = point;
            finish (a, s, y);
          }
          n_points = std::max (n_points, n);
          const bool big = s.n > 100;
          // all points; for the long block and for other combinations than the first ones: with a stride (which is odd)
          for (size_t ti = 0; ti < inner.size(); ti++)
            {
              const Step& t = inner[ti];
              if (!th && ti > 1 && (o || s.n > 3))
                continue;
              uint64_t stride = 1;
              const uint64_t limit = th ? 20000 : ti == 0 && o == 0 && !big ? 3000 : 400;
              if (n > limit)
                stride = (n / limit) | 1;
              const vector<float> eb = alone (b, t);
              for (uint64_t k = 0; k < n; k += stride)
                {
                  if (!ctx.begin ("%s interrupted at point %llu of %llu by %s of %s", str (s).c_str(), (unsigned long long) k, (unsigned long long) n, str (t).c_str(), others[o].name().c_str()))
                    continue;
                  vector<float> ya, yb;
                  ya.reserve (ea.size());
                  yb.reserve (eb.size());
                  bring (a, s, ya);
                  bring (b, t, yb);
                  bool done = false;
                  std::function<void()> h = [&] {
                    run_step (b, t, &yb);
                    done = true;
                  };
                  handler = &h;
                  target = k;
                  point = 0;
                  armed = true;
                  run_step (a, s, &ya);
                  armed = false;
                  if (!done)
                    run_step (b, t, &yb);
                  finish (b, t, yb);
                  finish (a, s, ya);
                  for (size_t i = 0; i < ya.size(); i++)
                    if (i >= ea.size() || !same_bits (&ya[i], &ea[i], 1))
                      ctx.fail ("the interrupted instance: value %zu is %.9g, without interruption %.9g", i, ya[i], ea[i]);
                  for (size_t i = 0; i < yb.size(); i++)
                    if (i >= eb.size() || !same_bits (&yb[i], &eb[i], 1))
                      ctx.fail ("the other instance: value %zu is %.9g, alone %.9g", i, yb[i], eb[i]);
                  if (ya.size() != ea.size() || yb.size() != eb.size())
                    ctx.fail ("number of values");
                  ctx.eval (ya.size() + yb.size());
                  const uint64_t id = mix (mix (o, si), mix (ti, k));
                  ctx.state (id);
                  ctx.transition (id);
                  ctx.outcome (mix (id, hash_out (ya)));
                }
              if (big && ti > 1)
                break;
            }
        }
    }
  char b[100];
  snprintf (b, sizeof (b), "up to %llu points in one operation", (unsigned long long) n_points);
  ctx.note (b);
}

#ifdef THREADS
// long-lived threads; only one of them runs at any time
struct Crew {
  struct One { std::thread t; sem_t go, done; std::function<void()> job; bool quit = false; };
  vector<std::unique_ptr<One>> m;
  // false: the thread waits for another one (a lock), it goes on when it can
  bool
  run (uint i, std::function<void()> f)
  {
    while (m.size() <= i)
      {
        One *o = new One;
        m.emplace_back (o);
        sem_init (&o->go, 0, 0);
        sem_init (&o->done, 0, 0);
        o->t = std::thread ([o] {
          for (;;)
            {
              while (sem_wait (&o->go)) ;
              if (o->quit)
                return;
              o->job();
              sem_post (&o->done);
            }
        });
      }
    One& o = *m[i];
    o.job = f;
    sem_post (&o.go);
    struct timespec ts;
    clock_gettime (CLOCK_REALTIME, &ts);
    ts.tv_sec += 2;
    int r;
    while ((r = sem_timedwait (&o.done, &ts)) && errno == EINTR) ;
    if (r)
      pending.push_back (i);
    return r == 0;
  }
  void
  wait_pending()
  {
    for (uint i : pending)
      while (sem_wait (&m[i]->done)) ;
    pending.clear();
  }
  vector<uint> pending;
  ~Crew()
  {
    for (auto& o : m)
      {
        o->quit = true;
        sem_post (&o->go);
        o->t.join();
      }
  }
};
#endif

static uint64_t
count_points (Inst& a, const Step& s)
{
  vector<float> y;
  bring (a, s, y);
  std::function<void()> h = [] {};
  handler = &h;
  target = ~0ull;
  point = 0;
  armed = true;
  run_step (a, s, &y);
  armed = false;
  const uint64_t n = point;
  finish (a, s, y);
  return n;
}

// many operations that have all begun and not ended: each is interrupted (or its thread preempted) at the same point of
// its operation by the next one
static void
chain (Ctx& ctx, const vector<Cfg>& cs, const vector<Step>& steps, uint d, uint64_t limit)
{
#ifdef THREADS
  Crew crew;
#endif
  for (const Step& s : steps)
    {
      vector<std::unique_ptr<Inst>> v;
      vector<vector<float>> e;
      vector<uint64_t> n;
      uint64_t n_max = 0;
      for (uint i = 0; i < d; i++)
        {
          v.emplace_back (new Inst (cs[i % cs.size()], 100 + i % 16, s.n + 48));
          if (i < 16 * cs.size())
            {
              e.push_back (alone (*v[i], s));
              n.push_back (i < cs.size() ? count_points (*v[i], s) : n[i % cs.size()]);
              n_max = std::max (n_max, n[i]);
            }
        }
      const uint64_t stride = n_max > limit ? n_max / limit | 1 : 1;
      for (uint64_t k = 0; k < n_max; k += stride)
        {
          if (!ctx.begin ("%u instances, %s of each interrupted at point %llu of up to %llu by that of the next one", d, str (s).c_str(), (unsigned long long) k, (unsigned long long) n_max))
            continue;
          vector<vector<float>> y (d);
          seen.assign (d, 0);
          at.resize (d);
          for (uint i = 0; i < d; i++)
            {
              y[i].reserve (e[i % e.size()].size() + 8);
              bring (*v[i], s, y[i]);
              at[i] = k % n[i % n.size()];
            }
#ifdef THREADS
          bool blocked = false;
#endif
          std::function<void (uint)> f = [&] (uint i) {
#ifdef THREADS
            if (!crew.run (i, [&, i] { run_step (*v[i], s, &y[i]); }))
              {
                chained = false;                // no more interruptions: a lock is held
                blocked = true;
              }
#else
            run_step (*v[i], s, &y[i]);
#endif
          };
          next_level = &f;
          depth = d;
          level = 0;
          chained = true;
          f (0);
          chained = false;
#ifdef THREADS
          crew.wait_pending();
#endif
          uint64_t h = mix (k, s.op * 100 + s.n);
          for (uint i = 0; i < d; i++)
            {
              if (!seen[i])
                run_step (*v[i], s, &y[i]);     // was not reached
              finish (*v[i], s, y[i]);
              const vector<float>& x = e[i % e.size()];
              for (size_t j = 0; j < y[i].size(); j++)
                if (j >= x.size() || !same_bits (&y[i][j], &x[j], 1))
                  ctx.fail ("instance %u (%s): value %zu is %.9g, alone %.9g", i, v[i]->c.name().c_str(), j, y[i][j], x[j]);
              if (y[i].size() != x.size())
                ctx.fail ("instance %u: number of values", i);
              ctx.eval (x.size());
            }
          h = mix (h, d);
          ctx.state (h);
          ctx.transition (h);
          ctx.outcome (h);
#ifdef THREADS
          if (blocked)
            break;
#endif
        }
    }
}

int
main (int argc, char **argv)
{
  // nested operations use up to 64 KiB of stack each
  struct rlimit rl;
  getrlimit (RLIMIT_STACK, &rl);
  rl.rlim_cur = rl.rlim_max == RLIM_INFINITY ? 100 << 20 : std::min<rlim_t> (rl.rlim_max, 100 << 20);
  setrlimit (RLIMIT_STACK, &rl);
  vector<Item> items;
  for (auto& c : configs (FIR | IIR, { 1, 2, 4, 8 }))
    {
      Cfg inv = c, other = c, big = c;
      inv.mode = c.mode == R::UP ? R::DOWN : R::UP;
      other.filt = c.filt == R::FILTER_FIR ? R::FILTER_IIR : R::FILTER_FIR;
      if (other.prec == R::PREC_LINEAR)
        other.prec = R::PREC_96DB;
      big.ratio = c.ratio == 8 ? 4 : 8;
      big.sse = !c.sse;
#ifndef THREADS
      items.push_back ({ c.name(), [=] (Ctx& ctx) { explore (ctx, c, { c, inv, big, other }); } });
#endif
      items.push_back ({ "chain-" + c.name(), [=] (Ctx& ctx) {
        const uint f = ctx.thorough ? 20 : 1, chunk = c.mode == R::UP ? 1030 : 1030 / c.ratio + 2;
        chain (ctx, { c, inv, big, other }, { { BLOCK, 3 }, { CREATE, 0 }, { RESET, 0 }, { META, 0 }, { MOVE, 0 }, { DESTROY, 0 } }, 6, 200 * f);
        chain (ctx, { c }, { { BLOCK, 3 }, { BLOCK, 40 }, { CREATE, 0 }, { RESET, 0 }, { META, 0 }, { MOVE, 0 }, { DESTROY, 0 } }, 3, 150 * f);
        chain (ctx, { c }, { { BLOCK, chunk } }, 3, 60 * f);
        chain (ctx, { c }, { { BLOCK, 3 }, { BLOCK, 40 } }, 70, 40 * f);
        chain (ctx, { c }, { { CREATE, 0 }, { RESET, 0 }, { DESTROY, 0 } }, 70, 12 * f);
        chain (ctx, { c }, { { BLOCK, 40 } }, 260, 6 * f);
      } });
    }
  return mc::main (argc, argv, items);
}
