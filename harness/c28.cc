// C28: an instance may be handed from thread to thread between operations: every assignment of the operations of a program
// to threads (main thread, two long-lived threads, a new thread for a single operation) gives the results of one thread.
#include "rs.hh"
#include <memory>
#include <new>
#include <pthread.h>
#include <semaphore.h>
using namespace mc;
using std::vector;

enum Kind { CREATE, BLOCK, RESET, DESTROY, MOVE, META };
struct Op {
  Kind kind;
  int  slot;
  int  arg;             // CREATE: configuration, BLOCK: frames, MOVE: slot moved from
};


static const char *kThread[] = { "main", "A", "B", "new" };

struct Worker {
  pthread_t t;
  sem_t go, done;
  const std::function<void()> *fn = nullptr;
  Worker()
  {
    sem_init (&go, 0, 0);
    sem_init (&done, 0, 0);
    pthread_create (&t, nullptr, [] (void *p) -> void * {
      Worker *w = (Worker *) p;
      for (;;)
        {
          while (sem_wait (&w->go)) {}
          if (!w->fn)
            return nullptr;
          (*w->fn)();
          sem_post (&w->done);
        }
    }, this);
  }
  void
  run (const std::function<void()>& f)
  {
    fn = &f;
    sem_post (&go);
    while (sem_wait (&done)) {}
  }
};

static void
run_new (const std::function<void()>& f)
{
  pthread_attr_t a;
  pthread_attr_init (&a);
  pthread_attr_setstacksize (&a, 256 * 1024);
  pthread_t t;
  if (pthread_create (&t, &a, [] (void *p) -> void * { (*(const std::function<void()> *) p)(); return nullptr; }, (void *) &f))
    abort();
  pthread_join (t, nullptr);
}

struct Machine {
  const vector<Cfg> cfg;
  alignas (64) unsigned char mem[3][sizeof (R) + 64];
  R *inst[3] = {};
  int cur[3] = {};
  size_t pos[3] = {};
  Arena in, out;
  vector<float> result;         // output samples and metadata, in order of the operations
  Machine (const vector<Cfg>& c) : cfg (c), in (20000), out (20000) {}

  void
  exec (const Op& o)
  {
    switch (o.kind)
      {
      case CREATE:
        {
          const Cfg& c = cfg[o.arg];
          inst[o.slot] = new (mem[o.slot]) R (c.mode, c.ratio, c.prec, c.sse, c.filt);
          cur[o.slot] = o.arg;
          pos[o.slot] = 0;
        }
        break;
      case MOVE:
        inst[o.slot] = new (mem[o.slot]) R (std::move (*inst[o.arg]));
        cur[o.slot] = cur[o.arg];
        pos[o.slot] = pos[o.arg];
        break;
      case BLOCK:
        {
          const Cfg& c = cfg[cur[o.slot]];
          const uint ni = o.arg * c.in_per_frame(), no = o.arg * c.out_per_frame();
          const uint ia = (o.arg + o.slot) & 3;
          for (uint i = 0; i < ni; i++)
            in.at (ia)[i] = dense (pos[o.slot]++, 300 + o.slot);
          inst[o.slot]->process_block (in.at (ia), ni, out.at (1));
          result.insert (result.end(), out.at (1), out.at (1) + no);
        }
        break;
      case RESET:
        inst[o.slot]->reset();
        break;
      case META:
        result.push_back (inst[o.slot]->order());
        result.push_back (inst[o.slot]->delay());
        result.push_back (inst[o.slot]->sse_enabled());
        break;
      case DESTROY:
        inst[o.slot]->~R();
        inst[o.slot] = nullptr;
        break;
      }
  }
};

static std::string
op_str (const Op& o)
{
  char b[64];
  switch (o.kind)
    {
    case CREATE:  snprintf (b, sizeof (b), "create%d(%d)", o.slot, o.arg); break;
    case BLOCK:   snprintf (b, sizeof (b), "block%d(%d)", o.slot, o.arg); break;
    case RESET:   snprintf (b, sizeof (b), "reset%d", o.slot); break;
    case DESTROY: snprintf (b, sizeof (b), "destroy%d", o.slot); break;
    case MOVE:    snprintf (b, sizeof (b), "move%d<-%d", o.slot, o.arg); break;
    default:      snprintf (b, sizeof (b), "meta%d", o.slot);
    }
  return b;
}

static void
explore (Ctx& ctx, const vector<Cfg>& cfg, bool th)
{
  // threads: number of different threads allowed; new_thread: also threads for a single operation
  struct Program { const char *name; vector<Op> ops; int threads; bool new_thread; };
  const vector<Program> progs = {
    { "one instance", { { CREATE, 0, 0 }, { BLOCK, 0, 5 }, { BLOCK, 0, 130 }, { RESET, 0 }, { BLOCK, 0, 64 }, { BLOCK, 0, 9 }, { DESTROY, 0 } }, th ? 3 : 2, true },
    { "two instances", { { CREATE, 0, 0 }, { CREATE, 1, 1 }, { BLOCK, 0, 33 }, { BLOCK, 1, 70 }, { BLOCK, 0, 2 }, { DESTROY, 0 }, { CREATE, 0, 1 },
                         { BLOCK, 0, 20 }, { BLOCK, 1, 31 }, { DESTROY, 1 }, { DESTROY, 0 } }, 2, false },
    { "moved", { { CREATE, 0, 0 }, { BLOCK, 0, 40 }, { META, 0 }, { MOVE, 1, 0 }, { BLOCK, 1, 7 }, { DESTROY, 0 }, { CREATE, 0, 0 }, { BLOCK, 0, 20 }, { BLOCK, 1, 64 },
                 { DESTROY, 1 }, { DESTROY, 0 } }, 2, false },
    { "long blocks", { { CREATE, 0, 0 }, { BLOCK, 0, 1200 }, { BLOCK, 0, 3 }, { BLOCK, 0, 600 }, { DESTROY, 0 } }, 3, true },
  };
  Machine m (cfg);
  Worker w[2];
  for (auto& p : progs)
    {
      m.result.clear();
      for (auto& o : p.ops)
        m.exec (o);
      const vector<float> want = m.result;
      const int K = p.threads + p.new_thread;
      size_t total = 1;
      for (size_t i = 0; i < p.ops.size(); i++)
        total *= K;
      for (size_t q = 0; q < total; q++)
        {
          int who[16];
          bool ok = true, usedA = false;
          size_t k = q;
          for (size_t i = 0; i < p.ops.size(); i++, k /= K)
            {
              who[i] = k % K;
              if (who[i] == p.threads)
                who[i] = 3;
              usedA |= who[i] == 1;
              if (who[i] == 2 && !usedA)
                ok = false;             // the same with A and B exchanged
            }
          if (!ok)
            continue;
          std::string s;
          for (size_t i = 0; i < p.ops.size(); i++)
            s += " " + op_str (p.ops[i]) + "@" + kThread[who[i]];
          if (!ctx.begin ("%s:%s", p.name, s.c_str()))
            continue;
          m.result.clear();
          uint64_t st = 0;
          size_t seen = 0;
          for (size_t i = 0; i < p.ops.size(); i++)
            {
              const std::function<void()> f = [&] { m.exec (p.ops[i]); };
              if (who[i] == 0)
                f();
              else if (who[i] == 3)
                run_new (f);
              else
                w[who[i] - 1].run (f);
              for (; seen < m.result.size(); seen++)
                if (!same_bits (&m.result[seen], &want[seen], 1))
                  ctx.fail ("%s in thread %s: value %zu is %.9g, but %.9g if everything runs in one thread", op_str (p.ops[i]).c_str(), kThread[who[i]], seen, m.result[seen], want[seen]);
              const uint64_t nx = mix (st, (p.ops[i].kind * 4 + p.ops[i].slot) * 4 + who[i]);
              ctx.state (nx);
              ctx.transition (mix (st, nx));
              st = nx;
            }
          if (seen != want.size())
            ctx.fail ("%zu instead of %zu values", seen, want.size());
          ctx.eval (seen);
          ctx.outcome (mix (st, hash_out (m.result)));
        }
    }
}

// an instance that is used by a long series of threads, one block each: by new ones that end afterwards, and by P long-lived
// ones in turn; another one is used by the main thread in between
static void
series (Ctx& ctx, const Cfg& c, uint n, uint P, bool another)
{
  if (!ctx.begin ("%s: %u blocks, each in another thread (%s)%s", c.name().c_str(), n, P ? "long-lived ones in turn" : "new one", another ? ", another instance in the main thread" : ""))
    return;
  const uint FR = 3, ipf = c.in_per_frame(), opf = c.out_per_frame(), PERIOD = 64;
  vector<float> x (PERIOD * FR * ipf);
  for (size_t i = 0; i < x.size(); i++)
    x[i] = dense (i, 28);
  std::unique_ptr<R> r, own;
  // which blocks of the stream, which of them in the main thread, where is a reset
  enum Who { CREW, MAIN };
  struct One { uint k; Who who; bool reset; };
  vector<One> todo;
  for (uint k = 0; k < n; k++)
    {
      todo.push_back ({ k, CREW, (k & 0xfff) == 0xfff });
      // around powers of two: another block in the main thread
      bool back = false;
      for (uint b = 6; b < 20; b++)
        back = back || (k + 128 > (1u << b) && k < (1u << b) + 128);
      if (back)
        todo.push_back ({ k + 7, MAIN, false });
    }
  Arena in (FR * ipf), o (FR * opf);
  // expected output, from a thread that does nothing else
  vector<float> expect (todo.size() * FR * opf);
  const std::function<void()> reference = [&] {
    std::unique_ptr<R> ref (c.make_new());
    for (size_t i = 0; i < todo.size(); i++)
      {
        memcpy (in.at (0), &x[todo[i].k % PERIOD * FR * ipf], FR * ipf * sizeof (float));
        ref->process_block (in.at (0), FR * ipf, o.at (0));
        memcpy (&expect[i * FR * opf], o.at (0), FR * opf * sizeof (float));
        if (todo[i].reset)
          ref->reset();
      }
  };
  run_new (reference);
  r.reset (c.make_new());
  own.reset (c.make_new());
  vector<std::unique_ptr<Worker>> crew;
  for (uint i = 0; i < P; i++)
    crew.emplace_back (new Worker);
  for (size_t i = 0; i < todo.size(); i++)
    {
      const uint k = todo[i].k;
      const float *e = &expect[i * FR * opf];
      memcpy (in.at (0), &x[k % PERIOD * FR * ipf], FR * ipf * sizeof (float));
      const std::function<void()> f = [&] {
        r->process_block (in.at (0), FR * ipf, o.at (0));
        if (k % 16 == 5)
          r->delay();
      };
      if (todo[i].who == MAIN)
        f();
      else if (P)
        crew[(k + k / P) % P]->run (f);
      else
        run_new (f);
      if (!same_bits (o.at (0), e, FR * opf))
        ctx.fail ("block %u%s: output differs from that of a single thread", k, todo[i].who == MAIN ? ", again in the main thread" : ", in another thread than those before");
      if (another)
        {
          own->process_block (in.at (0), FR * ipf, o.at (0));
          if (!same_bits (o.at (0), e, FR * opf))
            ctx.fail ("block %u of the instance of the main thread: output differs from that of a single thread", k);
        }
      ctx.eval (2 * FR * opf);
      if ((k & (k - 1)) == 0 || k % 1024 == 0)
        {
          const uint64_t h = mix (mix (k, P), hash_out (vector<float> (e, e + FR * opf)));
          ctx.state (h);
          ctx.transition (h);
          ctx.outcome (h);
        }
      if (todo[i].reset)
        {
          const std::function<void()> reset = [&] { r->reset(); };
          run_new (reset);
          own->reset();
          ctx.rearm();
        }
    }
  for (auto& w : crew)
    {
      w->fn = nullptr;
      sem_post (&w->go);
      pthread_join (w->t, nullptr);
    }
}

int
main (int argc, char **argv)
{
  vector<Item> items;
  for (auto& c : configs (FIR | IIR, { 1, 2, 4, 8 }))
    {
      Cfg d = c;
      d.mode = c.mode == R::UP ? R::DOWN : R::UP;
      if (c.filt == R::FILTER_IIR && c.ratio > 1)
        d.prec = c.prec == R::PREC_96DB ? R::PREC_48DB : R::PREC_96DB;
      items.push_back ({ c.name(), [c, d] (Ctx& ctx) { explore (ctx, { c, d }, ctx.thorough); } });
      const bool many = c.ratio == 2 && (c.prec == R::PREC_LINEAR || (c.filt == R::FILTER_IIR && c.prec == R::PREC_48DB));
      items.push_back ({ "series-" + c.name(), [c, many] (Ctx& ctx) {
        for (bool another : { false, true })
          {
            series (ctx, c, ctx.thorough ? 70000 : many ? 66000 : 600, 0, another);
            for (uint P : { 3u, 9u, 70u, 300u })
              series (ctx, c, 5 * P, P, another);
          }
      } });
    }
  return mc::main (argc, argv, items);
}
