// C20: every allocation failure during construction or copying is clean.
#include "alloc.hh"
#include "rs.hh"
#include <memory>
using namespace mc;
using std::vector;
using PandaResampler::AlignedArray;

enum Outcome { OK, BAD_ALLOC, OTHER };

// runs f (which may keep memory) with the allocation `at` failing (-1: none), or all from `at` on
template<class F> static Outcome
attempt (const F& f, long at, bool rest, bool& injected)
{
  Outcome o = OK;
  heap::n_alloc = 0;
  heap::fail_at = at;
  heap::fail_rest = rest;
  heap::failed = false;
  heap::on = true;
  try { f(); }
  catch (const std::bad_alloc&) { o = BAD_ALLOC; }
  catch (...) { o = OTHER; }
  heap::on = false;
  heap::fail_at = -1;
  heap::fail_rest = false;
  injected = heap::failed;
  return o;
}

static void
clean (Ctx& ctx, long live, const char *what)
{
  if (heap::error)
    ctx.fail ("%s: %s", what, heap::error);
  if (heap::live != live)
    ctx.fail ("%s: %ld blocks of memory are not returned", what, heap::live - live);
}

struct Witness {                // an existing instance with a past
  const Cfg& c;
  Exec& ex;
  vector<float> x, y;
  std::unique_ptr<R> r;
  size_t pos = 0;
  Witness (const Cfg& c, Exec& ex) : c (c), ex (ex), x (600 * c.in_per_frame())
  {
    for (size_t i = 0; i < x.size(); i++)
      x[i] = dense (i, 5);
    R f = c.make();
    y = ex.run (f, c, { { 600, 0, 0 } }, x);
    fresh();
  }
  void
  fresh()
  {
    r.reset (c.make_new());
    pos = 0;
    vector<float> o;
    ex.step (*r, c, { 33, 0, 0 }, x, 0, o);
    pos = 33;
  }
  void
  check (Ctx& ctx, R& who, size_t from, uint n, const char *what)
  {
    vector<float> o;
    ex.step (who, c, { n, 0, 0 }, x, from, o);
    const size_t opf = c.out_per_frame();
    for (size_t i = 0; i < o.size(); i++)
      if (!(fabs (double (o[i]) - y[from * opf + i]) <= 8e-6))
        ctx.fail ("%s: output %zu is %.9g, expected %.9g", what, from * opf + i, double (o[i]), double (y[from * opf + i]));
    ctx.eval (o.size());
  }
  void
  check_old (Ctx& ctx)
  {
    if (pos + 3 > 600)
      fresh();
    check (ctx, *r, pos, 3, "another instance after the failure");
    pos += 3;
  }
};

static void
explore (Ctx& ctx, const Cfg& c)
{
  Exec ex (600 * c.ratio);
  Witness w (c, ex);
  alignas (64) unsigned char mem[sizeof (R)];
  auto construct = [&] { new (mem) R (c.mode, c.ratio, c.prec, c.sse, c.filt); };
  auto destroy = [&] { heap::tracked ([&] { reinterpret_cast<R *> (mem)->~R(); }); };
  auto construct_heap = [&] { delete c.make_new(); };
  auto construct_vector = [&] {
    vector<R> v;
    for (int i = 0; i < 3; i++)
      v.emplace_back (c.mode, c.ratio, c.prec, c.sse, c.filt);
    v.insert (v.begin(), R (c.mode, c.ratio, c.prec, c.sse, c.filt));
  };

  bool inj;
  long live = heap::live;
  if (ctx.begin ("construction and destruction without failure"))
    {
      if (attempt (construct, -1, false, inj) != OK)
        ctx.fail ("construction throws");
      destroy();
      clean (ctx, live, "destruction");
    }
  attempt (construct, -1, false, inj);
  const long N = heap::n_alloc;
  destroy();
  attempt (construct_heap, -1, false, inj);
  const long NH = heap::n_alloc;
  attempt (construct_vector, -1, false, inj);
  const long NV = heap::n_alloc;
  auto fault = [&] (const char *what, const std::function<void()>& f, long k, bool rest) {
    const Outcome o = attempt (f, k, rest, inj);
    ctx.state (mix (k, rest));
    ctx.transition (mix (mix (k, rest), o));
    ctx.outcome (mix (mix (k, rest), o));
    if (!inj)
      ctx.fail ("%s did not reach the allocation", what);
    if (o == OK)
      ctx.fail ("%s does not report that allocation %ld failed", what, k);
    if (o == OTHER)
      ctx.fail ("%s throws something else than std::bad_alloc when allocation %ld fails", what, k);
    clean (ctx, live, what);
    w.check_old (ctx);
  };
  for (int rest = 0; rest < 2; rest++)
    {
      for (long k = 0; k < N; k++)
        {
          if (!ctx.begin ("construction (%ld allocations): allocation %ld fails%s, then again", N, k, rest ? " and all later ones" : ""))
            continue;
          memset (mem, 0xcd, sizeof (mem));
          fault ("construction", construct, k, rest);
          // memory is available again
          if (attempt (construct, -1, false, inj) != OK)
            ctx.fail ("construction fails although memory is available");
          w.check (ctx, *reinterpret_cast<R *> (mem), 0, 90, "instance constructed afterwards");
          destroy();
          clean (ctx, live, "destruction");
        }
      for (long k = 0; k < NH; k++)
        if (ctx.begin ("construction with new: allocation %ld of %ld fails%s", k, NH, rest ? " and all later ones" : ""))
          fault ("construction with new", construct_heap, k, rest);
      for (long k = 0; k < NV; k++)
        if (ctx.begin ("four instances in a vector: allocation %ld of %ld fails%s", k, NV, rest ? " and all later ones" : ""))
          fault ("construction in a vector", construct_vector, k, rest);
    }
  // two failures in a row, in every combination
  for (long k = 0; k < N; k++)
    for (long j = 0; j < N; j++)
      {
        if (!ctx.begin ("allocation %ld fails, at the next attempt allocation %ld", k, j))
          continue;
        fault ("first construction", construct, k, false);
        fault ("second construction", construct, j, true);
        attempt (construct, -1, false, inj);
        w.check (ctx, *reinterpret_cast<R *> (mem), 0, 70, "instance constructed afterwards");
        destroy();
        clean (ctx, live, "destruction");
      }
}

static long g_alive;
struct Elem {
  std::unique_ptr<int> p { new int (3) };
  int v = 0;
  Elem() { g_alive++; }
  explicit Elem (int i) : v (i) { g_alive++; }
  Elem (const Elem& o) : p (new int (*o.p)), v (o.v) { g_alive++; }
  Elem& operator= (const Elem& o) { *p = *o.p; v = o.v; return *this; }
  ~Elem() { g_alive--; }
  operator int() const { return v; }
};

template<class T> static void
arrays (Ctx& ctx)
{
  for (size_t n : { 0, 1, 2, 7, 64, 1000 })
    {
      vector<T> src;
      for (size_t i = 0; i < n; i++)
        src.push_back (T (int (i + 1)));
      std::unique_ptr<AlignedArray<T>> a (new AlignedArray<T> (src));
      const long live = heap::live, alive = g_alive;
      bool inj;
      const std::pair<const char *, std::function<void()>> prog[] = {
        { "AlignedArray (size)", [&] { AlignedArray<T> b (n); } },
        { "AlignedArray (vector)", [&] { AlignedArray<T> b (src); } },
        { "copy of an AlignedArray", [&] { AlignedArray<T> b (*a); } },
        { "copy of a copy", [&] { AlignedArray<T> b (*a); AlignedArray<T> d (b); } },
        { "assignment", [&] { AlignedArray<T> b (size_t (3)); b = *a; } },
        { "assignments", [&] { AlignedArray<T> b (*a), d (size_t (1)); d = b; b = d; b = *a; } },
        { "arrays in a vector", [&] { vector<AlignedArray<T>> v (2, *a); v.push_back (*a); v.push_back (v[0]); } },
      };
      for (auto& p : prog)
        {
          if (attempt (p.second, -1, false, inj) != OK)
            ctx.fail ("%s throws", p.first);
          const long N = heap::n_alloc;
          for (long k = 0; k < N; k += k < 100 || ctx.thorough ? 1 : 29)
            for (int rest = 0; rest < 2; rest++)
              {
                if (!ctx.begin ("%s, %zu elements: allocation %ld of %ld fails%s", p.first, n, k, N, rest ? " and all later ones" : ""))
                  continue;
                const Outcome o = attempt (p.second, k, rest, inj);
                ctx.state (mix (mix (n, k), (&p - prog) * 2 + rest));
                ctx.transition (mix (mix (n, k), (&p - prog) * 2 + rest));
                ctx.outcome (mix (mix (n, k), (&p - prog) * 2 + rest));
                if (!inj)
                  ctx.fail ("allocation not reached");
                if (o != BAD_ALLOC)
                  ctx.fail ("%s: %s", p.first, o == OK ? "failed allocation is not reported" : "throws something else than std::bad_alloc");
                clean (ctx, live, p.first);
                if (g_alive != alive)
                  ctx.fail ("%s: %ld elements are not destroyed", p.first, g_alive - alive);
                if (a->size() != n)
                  ctx.fail ("%s: the source has changed", p.first);
                for (size_t i = 0; i < n; i++)
                  if (int ((*a)[i]) != int (i + 1) || int (src[i]) != int (i + 1))
                    ctx.fail ("%s: element %zu of the source has changed", p.first, i);
                ctx.eval (n + 2);
                if (attempt (p.second, -1, false, inj) != OK)
                  ctx.fail ("%s throws although memory is available", p.first);
                clean (ctx, live, p.first);
              }
        }
      // assignment to a living array: afterwards it is a valid array
      for (size_t m : { 0, 1, 5, 64 })
        for (long k = 0; k < 200; k++)
          {
            if (!ctx.begin ("%zu elements assigned to %zu elements: allocation %ld fails", n, m, k))
              continue;
            std::unique_ptr<AlignedArray<T>> b;
            heap::tracked ([&] { b.reset (new AlignedArray<T> (m)); });
            const Outcome o = attempt ([&] { *b = *a; }, k, true, inj);
            if (inj && o != BAD_ALLOC)
              ctx.fail ("assignment: failed allocation is not reported");
            if (b->size() != n && b->size() != m)
              ctx.fail ("assignment: size is %zu", b->size());
            {
              const T seven (7);
              for (size_t i = 0; i < b->size(); i++)
                (*b)[i] = seven;
            }
            for (size_t i = 0; i < b->size(); i++)
              if (int ((*b)[i]) != 7)
                ctx.fail ("assignment: array is unusable after the failure");
            b.reset();
            clean (ctx, live, "assignment");
            if (g_alive != alive)
              ctx.fail ("assignment: %ld elements are not destroyed", g_alive - alive);
          }
    }
}

int
main (int argc, char **argv)
{
  vector<Item> items;
  for (auto& c : configs (FIR | IIR, { 2, 4, 8 }))
    items.push_back ({ c.name(), [c] (Ctx& ctx) { explore (ctx, c); } });
  items.push_back ({ "AlignedArray<float>", [] (Ctx& ctx) { arrays<float> (ctx); } });
  items.push_back ({ "AlignedArray<double>", [] (Ctx& ctx) { arrays<double> (ctx); } });
  items.push_back ({ "AlignedArray<Elem>", [] (Ctx& ctx) { arrays<Elem> (ctx); } });
  return mc::main (argc, argv, items);
}
