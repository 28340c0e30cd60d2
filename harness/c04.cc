// C04: reset() is equivalent to a new instance, after any history.
#include "rs.hh"
using namespace mc;
using std::vector;

enum Val { DENSE, ONES, NANS, INFS, HUGE_, TINY, MIXED, N_VAL };
static const char *val_names[] = { "dense", "ones", "NaN", "Inf", "huge", "denormal", "mixed" };

static vector<float>
stream (Val v, size_t n)
{
  vector<float> x (n);
  for (size_t i = 0; i < n; i++)
    switch (v)
      {
        case DENSE: x[i] = dense (i, 3); break;
        case ONES:  x[i] = 1; break;
        case NANS:  x[i] = __builtin_nanf (""); break;
        case INFS:  x[i] = i & 1 ? -INFINITY : INFINITY; break;
        case HUGE_: x[i] = i & 1 ? 3e38f : -1e38f; break;
        case TINY:  x[i] = 1e-44f; break;
        default:    x[i] = i % 5 == 0 ? NAN : i % 5 == 1 ? INFINITY : dense (i, 4); break;
      }
  return x;
}

static void
explore (Ctx& ctx, const Cfg& c)
{
  const bool th = ctx.thorough;
  Exec ex (200000);
  const uint O = std::max (c.make().order(), 4u);
  const uint N = (c.filt == R::FILTER_FIR ? O : 20) + 14;
  const size_t ipf = c.in_per_frame();

  // what is fed after the reset: dense, then zeros, first block of length m
  vector<float> after ((N + 200) * ipf);
  for (size_t i = 0; i < after.size(); i++)
    after[i] = i < (N + 20) * ipf ? dense (i, 9) : 0;
  const vector<float> zeros (after.size());
  vector<vector<float>> fresh (2 * (N + 2));
  auto seq_after = [&] (uint m) { return vector<Block> { { m, m & 3, 1 }, { 3, 0, 0 }, { N + 8, 0, 0 }, { 100, 2, 0 } }; };
  auto expected = [&] (uint m, bool z) -> const vector<float>& {
    vector<float>& f = fresh[m * 2 + z];
    if (f.empty())
      {
        R r = c.make();
        f = ex.run (r, c, seq_after (m), z ? zeros : after);
      }
    return f;
  };
  R proto = c.make();
  const uint   order = proto.order();
  const double delay = proto.delay();
  const bool   sse = proto.sse_enabled();
  vector<float> xs[N_VAL];
  for (int v = 0; v < N_VAL; v++)
    xs[v] = stream (Val (v), 13000 * ipf);

  auto trace = [&] (const vector<Block>& h, Val v, uint resets, uint m, const char *extra, std::function<void (R&)> f) {
    if (!ctx.begin ("%s: %s, %s%u reset(s), then a block of %u", val_names[v], seq_str (h).c_str(), extra, resets, m))
      return;
    for (bool z : { false, true })
      {
        R r = c.make();
        if (f)
          f (r);
        ex.run (r, c, h, xs[v]);
        for (uint i = 0; i < resets; i++)
          r.reset();
        if (r.order() != order || r.delay() != delay || r.sse_enabled() != sse)
          ctx.fail ("order/delay/sse changed: %u %g %d, was %u %g %d", r.order(), r.delay(), r.sse_enabled(), order, delay, sse);
        const vector<float> y = ex.run (r, c, seq_after (m), z ? zeros : after);
        const vector<float>& e = expected (m, z);
        ctx.eval (y.size());
        ctx.outcome (hash_out (y));
        for (size_t i = 0; i < e.size(); i++)
          if (!same_value (y[i], e[i]))
            ctx.fail ("output %zu after reset is %.9g, from a new instance %.9g (%s input)", i, double (y[i]), double (e[i]), z ? "zero" : "dense");
      }
    uint64_t s = mix (v, 17);
    for (auto& b : h)
      {
        const uint64_t n = mix (s, b.frames);
        ctx.state (n);
        ctx.transition (mix (s, n));
        s = n;
      }
    ctx.state (mix (s, resets));
    ctx.transition (mix (mix (s, resets), m));
  };
  const vector<uint> M = { 0, 1, 2, 3, 7, O / 2, O - 1, O, O + 7 };
  // 1. reset before any processing; several resets
  for (uint resets : { 0, 1, 2, 3 })
    for (uint m = 0; m <= N; m++)
      trace ({}, DENSE, resets, m, "", nullptr);
  // 2. one block of each length, every kind of values
  uint q = 0;
  for (int v = 0; v < N_VAL; v++)
    for (uint n = 0; n <= 2 * N; n++)
      {
        if (th)
          for (uint m = 0; m <= N; m++)
            trace ({ { n, n & 3, 0 } }, Val (v), 1, m, "", nullptr);
        else
          for (uint k = 0; k < 3; k++)
            trace ({ { n, n & 3, 0 } }, Val (v), 1 + k / 2, M[(q++) % M.size()], "", nullptr);
      }
  // 3. pairs, triples
  for (uint a : M) for (uint b : M)
    for (uint m : M)
      trace ({ { a, 0, 0 }, { b, m & 3, 0 } }, DENSE, 1, m, "", nullptr);
  for (uint a : M) for (uint b : M) for (uint d : M)
    trace ({ { a, 0, 0 }, { b, 1, 0 }, { d, 2, 2 } }, Val ((q) % N_VAL), 1, M[(q++) % M.size()], "", nullptr);
  // 4. large blocks
  for (uint n : { 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 1500, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 12000 })
    for (int v = 0; v < N_VAL; v++)
      {
        trace ({ { n, n & 3, 0 } }, Val (v), 1, M[(q++) % M.size()], "", nullptr);
        trace ({ { 5, 0, 0 }, { n, 0, 0 }, { n < 6000 ? n : 1, 0, 0 }, { 1, 0, 0 } }, Val (v), 1, M[(q++) % M.size()], "", nullptr);
      }
  // 5. resets within the history, many resets, long histories
  for (uint a : M) for (uint b : M)
    {
      trace ({ { b, 0, 0 } }, MIXED, 1, M[(q++) % M.size()], "(processed, reset before) ", [&] (R& r) {
        ex.run (r, c, { { a, 0, 0 } }, xs[INFS]);
        r.reset();
      });
      trace ({ { b, 0, 0 } }, DENSE, 1, M[(q++) % M.size()], "(reset thrice before) ", [&] (R& r) {
        for (int i = 0; i < 3; i++)
          {
            ex.run (r, c, { { a, 0, 0 } }, xs[ONES]);
            r.reset();
          }
      });
    }
  trace (vector<Block> (12000, { 1, 0, 0 }), DENSE, 1, 1, "", nullptr);
  trace ({ { 1, 0, 0 } }, DENSE, 70000, 3, "", nullptr);
  trace ({ { 9, 0, 0 } }, DENSE, 1, 3, "(70000 x one sample and reset before) ", [&] (R& r) {
    for (int i = 0; i < 70000; i++)
      {
        ex.run (r, c, { { 1, 0, 0 } }, xs[ONES]);
        r.reset();
      }
  });
}

int
main (int argc, char **argv)
{
  vector<Item> items;
  for (auto& c : configs (FIR | IIR))
    items.push_back ({ c.name(), [c] (Ctx& ctx) { explore (ctx, c); } });
  return mc::main (argc, argv, items);
}
