// C35: block lengths that are not a multiple of the ratio do no damage.
// Built twice, as for C05.
#include "guard.hh"
#include <fcntl.h>
using namespace mc;
using std::vector;

struct Op {
  enum Kind { BLOCK, RESET } kind;
  size_t n;                             // input samples
  uint   at;                            // where in relation to the guards
};

// the part of stderr that the library uses in here goes to /dev/null; sanitizer reports are still seen
struct Quiet {
  int saved, null;
  Quiet() : saved (dup (2)), null (open ("/dev/null", O_WRONLY)) {}
  void on() { fflush (stderr); dup2 (null, 2); }
  void off() { fflush (stderr); dup2 (saved, 2); }
};

static void
explore (Ctx& ctx, const Cfg& c)
{
  const bool   th = ctx.thorough;
  const size_t ratio = c.ratio, MAXN = 70000 * ratio;
  Guarded in (MAXN * 4 + 256), out (MAXN * 4 + 256);
  in.map (false);
  out.map (true);
  float *in_rw = (float *) in.rw, *out_rw = (float *) out.rw, *out_g = (float *) out.ro;
  const float *in_ro = (const float *) in.ro;
  const size_t IN = in.n / 4, ON = out.n / 4;
  const uint O = std::max (c.make().order(), 4u);
  vector<float> x (MAXN + 100);
  for (size_t i = 0; i < x.size(); i++)
    x[i] = dense (i, 35);
#ifndef USE_ASAN
  Quiet quiet;
#endif
  auto op = [&] (R& r, const Op& o) {
    if (o.kind == Op::RESET)
      {
        r.reset();
        return;
      }
    const size_t n = o.n, no = n / ratio;
    const size_t gi = (o.at >> 2) & 3, go = (o.at >> 4) & 3;
    const size_t io = o.at & 1 ? IN - n - gi : gi, oo = o.at & 2 ? ON - no - go : go;
    memcpy (in_rw + io, x.data(), n * 4);
    const size_t m = 80, lo = oo > m ? oo - m : 0, hi = std::min (ON, oo + no + m);
    for (size_t i = lo; i < hi; i++)
      out_rw[i] = 4711;
#ifdef USE_ASAN
    __asan_poison_memory_region (in_ro, in.n);
    __asan_unpoison_memory_region (in_ro + io, n * 4);
    __asan_poison_memory_region (out_g, out.n);
    __asan_unpoison_memory_region (out_g + oo, no * 4);
#else
    quiet.on();
#endif
    r.process_block (in_ro + io, n, out_g + oo);
#ifdef USE_ASAN
    __asan_unpoison_memory_region (in_ro, in.n);
    __asan_unpoison_memory_region (out_g, out.n);
#else
    quiet.off();
#endif
    for (size_t i = lo; i < hi; i++)
      if ((i < oo || i >= oo + no) && out_rw[i] != 4711)
        ctx.fail ("block of %zu input samples: output sample %ld was written", n, long (i) - long (oo));
    if (memcmp (in_rw + io, x.data(), n * 4))
      ctx.fail ("block of %zu input samples: the input block was modified", n);
    ctx.eval (no + 1);
  };
  // what a new instance gives
  const size_t P = (O + 20) * ratio, Q = 2100 * ratio;
  auto probe = [&] (R& r, bool big) {
    vector<float> y;
    for (size_t n : { ratio, P, 3 * ratio, big ? Q : ratio })
      {
        op (r, { Op::BLOCK, n, 2 });
        y.insert (y.end(), out_rw + ON - n / ratio, out_rw + ON);
      }
    if (c.filt == R::FILTER_IIR) // the rest of the block is ignored
      for (size_t n : { 5 * ratio + 1, 7 * ratio, 16 * ratio + ratio - 1 })
        {
          op (r, { Op::BLOCK, n, 2 });
          y.insert (y.end(), out_rw + ON - n / ratio, out_rw + ON);
        }
    return y;
  };
  R fresh = c.make(), fresh2 = c.make();
  const vector<float> want[2] = { probe (fresh, false), probe (fresh2, true) };
  const double delay = fresh.delay();
  const uint order = fresh.order();
  R bystander = c.make();
  vector<float> by_x;
  auto trace = [&] (const vector<Op>& ops) {
    std::string s;
    for (auto& o : ops)
      s += o.kind == Op::RESET ? " reset" : " " + std::to_string (o.n) + "@" + std::to_string (o.at);
    if (!ctx.begin ("blocks of%s input samples", s.c_str()))
      return;
    std::unique_ptr<R> r (c.make_new());
    uint64_t st = 0;
    bool big = false;
    for (auto& o : ops)
      {
        op (*r, o);
        big = big || o.n > 2000 * ratio;
        const uint64_t nx = mix (mix (st, o.n), o.kind * 64 + o.at);
        ctx.state (nx);
        ctx.transition (mix (st, nx));
        st = nx;
      }
    if (r->delay() != delay || r->order() != order || r->sse_enabled() != fresh.sse_enabled())
      ctx.fail ("delay(), order() or sse_enabled() changed");
    // destroyed as it is, or used again after a reset
    r->reset();
    const vector<float> y = probe (*r, big);
    const vector<float>& e = want[big];
    for (size_t i = 0; i < e.size(); i++)
      if (!same_bits (&y[i], &e[i], 1))
        ctx.fail ("after reset(): output %zu is %.9g, that of a new instance is %.9g", i, double (y[i]), double (e[i]));
    // and it does not affect others
    bystander.reset();
    const vector<float> b = probe (bystander, false);
    if (!same_bits (b.data(), want[0].data(), b.size()))
      ctx.fail ("output of another instance changed");
    ctx.outcome (mix (st, hash_out (y)));
  };
  auto destroyed = [&] (const vector<Op>& ops) {
    if (!ctx.begin ("%zu operations, then destroyed", ops.size()))
      return;
    R r = c.make();
    for (auto& o : ops)
      op (r, o);
    R q = std::move (r);
    op (q, ops[0]);
    ctx.outcome (mix (ops.size(), ops[0].n));
  };
  const size_t N = (2 * O + (th ? 100 : 10)) * ratio;
  vector<vector<Op>> hists = { {}, { { Op::BLOCK, 3 * ratio, 1 } }, { { Op::BLOCK, ratio * (O + 5), 0 }, { Op::BLOCK, ratio, 3 } } };
  for (size_t n = 1; n <= N; n++)
    if (n % ratio)
      for (size_t h = 0; h < hists.size(); h++)
        for (uint at = 0; at < 64; at++)
          if ((th && n < 200) || n < 30 || (at + n * 5 + h * 3) % 16 == 0)
            {
              vector<Op> ops (hists[h]);
              ops.push_back ({ Op::BLOCK, n, at });
              trace (ops);
            }
  // around chunk sizes
  for (size_t base : { 1024, 2048, 4096, 8192, 16384, 65536 })
    for (int d = -9; d <= 9; d++)
      if ((base + d) % ratio)
        {
          trace ({ { Op::BLOCK, base + d, 3 } });
          trace ({ { Op::BLOCK, 2 * ratio, 0 }, { Op::BLOCK, base + d, 0 }, { Op::BLOCK, 5 * ratio, 3 } });
        }
  // all sequences of wrong and right lengths and resets
  vector<Op> alpha = { { Op::RESET, 0, 0 }, { Op::BLOCK, ratio, 3 }, { Op::BLOCK, (O + 3) * ratio, 0 }, { Op::BLOCK, 1, 3 }, { Op::BLOCK, ratio + 1, 1 }, { Op::BLOCK, 3 * ratio - 1, 2 },
                       { Op::BLOCK, (O + 7) * ratio + ratio / 2, 3 }, { Op::BLOCK, 1025 * ratio + 1, 3 }, { Op::BLOCK, 2 * O * ratio - 1, 0 } };
  if (ratio > 2)
    alpha.push_back ({ Op::BLOCK, 2, 3 });
  if (ratio > 4)
    alpha.push_back ({ Op::BLOCK, 12, 3 });
  std::function<void (vector<Op>&, uint)> rec = [&] (vector<Op>& ops, uint depth) {
    if (ops.size())
      {
        trace (ops);
        if (ops.size() < 3)
          destroyed (ops);
      }
    if (!depth)
      return;
    for (auto& a : alpha)
      {
        ops.push_back (a);
        rec (ops, depth - 1);
        ops.pop_back();
      }
  };
  vector<Op> ops;
#ifdef USE_ASAN
  rec (ops, 4);
#else
  rec (ops, th ? 5 : 4);
#endif
  // long series of wrong lengths
  for (size_t n : { size_t (1), ratio + 1, 5 * ratio - 1, 37 * ratio + 1 })
    trace (vector<Op> (th ? 20000 : 1000, Op { Op::BLOCK, n, 3 }));
}

int
main (int argc, char **argv)
{
  vector<Item> items;
  for (auto& c : configs (FIR | IIR, { 2, 4, 8 }))
    if (c.mode == R::DOWN)
      items.push_back ({ c.name(), [c] (Ctx& ctx) { explore (ctx, c); } });
  return mc::main (argc, argv, items);
}
