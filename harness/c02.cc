// C02: IIR output is independent of the partition into blocks and of pointer alignments.
// Reference: prefix of the output for the same stream fed as one block.
#include "rs.hh"
using namespace mc;
using std::vector;

struct Run {
  Ctx& ctx;
  Cfg c;
  Exec ex;
  vector<vector<float>> xs, refs;       // streams and their one-block outputs
  vector<float> y;

  static constexpr size_t L = 30000;

  Run (Ctx& ctx, const Cfg& c) : ctx (ctx), c (c), ex (1 << 20)
  {
    const size_t ipf = c.in_per_frame();
    vector<float> x (L * ipf);
    for (size_t i = 0; i < x.size(); i++)
      x[i] = dense (i, 77);
    add (x);
    std::fill (x.begin(), x.end(), 0);
    for (size_t i = 0; i < x.size(); i += 241)
      x[i] = (i & 1) ? 1 : -1;
    add (x);
  }
  void
  add (const vector<float>& x)
  {
    R r = c.make();
    vector<float> y = ex.run (r, c, { { uint (x.size() / c.in_per_frame()), 0, 0 } }, x);
    xs.push_back (x);
    refs.push_back (y);
  }
  void
  trace (vector<Block> seq, bool flush = true, const char *what = "")
  {
    if (flush)
      seq.push_back ({ 24, 0, 0 });
    if (!ctx.begin ("%s%s", what, seq_str (seq).c_str()))
      return;
    for (size_t k = 0; k < xs.size(); k++)
      {
        R r = c.make();
        y.clear();
        size_t pos = 0;
        uint64_t s = k, prev = 0;
        for (auto& b : seq)
          {
            ex.step (r, c, b, xs[k], pos, y);
            pos += b.frames;
            const uint64_t lab = b.frames * 16ull + (b.ia & 3) * 4 + (b.oa & 3), n = mix (mix (mix (k, pos), lab), prev);
            ctx.state (n);
            ctx.transition (mix (s, n));
            s = n;
            prev = lab;
          }
        ctx.eval (y.size());
        ctx.outcome (hash_out (y));
        for (size_t i = 0; i < y.size() && i < refs[k].size(); i++)
          if (!(fabs (y[i] - refs[k][i]) <= 5e-6))
            ctx.fail ("output %zu of stream %zu is %.9g, but %.9g if fed as one block", i, k, double (y[i]), double (refs[k][i]));
      }
  }
};

static void
explore (Ctx& ctx, const Cfg& c)
{
  Run t (ctx, c);
  const bool th = ctx.thorough;
  for (uint n = 0; n <= 300; n++)
    for (uint ia = 0; ia < 4; ia++)
      for (uint oa = 0; oa < 4; oa++)
        if (th || n <= 40 || (ia == 1 && oa == 2))
          t.trace ({ { n, ia, oa } });
  for (uint n : { 1u, 5u, 33u })
    for (uint ia = 0; ia < 16; ia++)
      for (uint oa = 0; oa < 16; oa++)
        t.trace ({ { n, ia, oa } });
  const uint P = th ? 140 : 66;
  for (uint a = 0; a <= P; a++)
    for (uint b = 0; b <= P; b++)
      t.trace ({ { a, b & 3, 0 }, { b, a & 3, (a + b) & 3 } });
  const uint T = th ? 34 : 12;
  for (uint a = 0; a <= T; a++)
    for (uint b = 0; b <= T; b++)
      for (uint d = 0; d <= T; d++)
        t.trace ({ { a, b & 3, d & 3 }, { b, 0, 0 }, { d, a & 3, 1 } });
  const uint Q = th ? 9 : 5;
  for (uint a = 0; a <= Q; a++)
    for (uint b = 0; b <= Q; b++)
      for (uint d = 0; d <= Q; d++)
        for (uint e = 0; e <= Q; e++)
          t.trace ({ { a, b & 3, d & 3 }, { b, 0, 0 }, { d, a & 3, 1 }, { e, 0, 3 } });
  if (th)
    for (uint v = 0; v < 16384; v++)
      {
        vector<Block> s;
        for (uint k = 0; k < 7; k++)
          s.push_back ({ (v >> (2 * k)) & 3, 0, 0 });
        t.trace (s);
      }
  uint q = 0;
  for (uint base : { 128, 256, 512, 1024, 2048, 3072, 4096, 5120, 8192, 16384 })
    for (int d = -5; d <= 5; d++)
      {
        const uint n = base + d;
        t.trace ({ { n, q & 3, 0 } });
        t.trace ({ { 1, 0, 0 }, { n, (q >> 1) & 3, 3 } });
        t.trace ({ { n, 0, 0 }, { 1 + q % 9, 1, 0 }, { n <= 8200 ? n : 3, 2, 1 } });
        q++;
      }
  for (uint n = 301; n <= (th ? 4300 : 1100); n++)
    t.trace ({ { n, n & 3, (n >> 2) & 3 } });
  for (uint n = 1100; n < 9000; n += th ? 13 : 101)
    t.trace ({ { n, n & 3, 0 } });
  // every address within a page, input and output blocks next to each other
  for (uint n : { 1u, 2u, 9u, 75u })
    for (uint a = 0; a < 1024; a++)
      {
        t.trace ({ { n, a, (a * 7) & 15 } });
        t.trace ({ { n, (a * 3) & 15, a } });
        if (th || a % 16 < 2 || a > 900)
          t.trace ({ { n, a, a }, { 19, 1023 - a, a } });
      }
  for (auto layout : { Exec::OUT_AFTER_IN, Exec::OUT_BEFORE_IN })
    {
      t.ex.layout = layout;
      const char *what = Exec::layout_name (layout);
      for (uint n = 0; n <= 100; n++)
        for (uint ia = 0; ia < 4; ia++)
          t.trace ({ { n, ia, 0 }, { 5, 0, 0 } }, true, what);
      for (uint n : { 500u, 1023u, 1024u, 1025u, 2047u, 2048u, 2049u, 5000u })
        t.trace ({ { n, n & 3, 0 }, { n, 0, 0 } }, true, what);
      t.ex.layout = Exec::SEPARATE;
    }
  // blocks of a stream in a ring buffer, at places in turn
  for (auto layout : { Exec::CONSECUTIVE, Exec::CONSECUTIVE_KEPT, Exec::DESCENDING, Exec::PING_PONG, Exec::WHERE_OUTPUT_WAS })
    {
      t.ex.layout = layout;
      const char *what = Exec::layout_name (layout);
      for (uint a = 0; a <= 28; a++)
        for (uint b = 0; b <= 28; b++)
          {
            t.trace ({ { a, a & 3, b & 3 }, { b, 0, 0 } }, true, what);
            if (th || (a + b) % 4 == 0)
              t.trace ({ { a, b & 3, 0 }, { b, 0, 0 }, { 5, 0, 0 }, { a, 0, 0 } }, true, what);
          }
      for (uint k : { 1u, 2u, 3u, 4u, 5u, 8u, 9u, 16u, 33u, 100u })
        for (size_t ring : { size_t (7 * k * c.ratio), size_t (6000) })
          {
            t.ex.ring = ring;
            for (uint i = 0; i < 4; i++)
              t.trace (vector<Block> (30, { k, i, 0 }), true, what);
          }
      t.ex.ring = 6000;
      for (uint n : { 500u, 1023u, 1024u, 1025u, 2047u, 2048u, 2049u, 5000u })
        t.trace ({ { n, n & 3, 0 }, { n, 0, 0 }, { 7, 0, 0 } }, true, what);
      t.ex.layout = Exec::SEPARATE;
    }
  t.trace (vector<Block> (Run::L, { 1, 1, 1 }), false);
  t.trace (vector<Block> (Run::L / 3, { 3, 2, 3 }), false);
  vector<Block> v;
  for (uint i = 0, p = 0; p < Run::L; i++)
    {
      v.push_back ({ (i * 37) % 61, i & 3, (i / 4) & 3 });
      p += v.back().frames;
    }
  t.trace (v, false);
  // long histories: the stream continues with silence, then the state must be exactly forgotten,
  // i.e. a second copy of the stream gives the first output again
  if (ctx.begin ("100000 calls, 1.5M frames of silence, then the stream again"))
    {
      R r = c.make();
      vector<float> z;
      for (uint i = 0; i < 100000; i++)
        {
          z.clear();
          t.ex.step (r, c, { 1, i & 3, 0 }, t.xs[0], i % Run::L, z);
        }
      for (uint i = 0; i < 100; i++)
        {
          z.clear();
          t.ex.step (r, c, { 15000, i & 3, 0 }, {}, 0, z);
        }
      z.clear();
      for (uint i = 0; i < 50; i++)
        t.ex.step (r, c, { 300, i & 3, 0 }, t.xs[0], i * 300, z);
      ctx.eval (z.size());
      for (size_t i = 0; i < z.size(); i++)
        if (!(fabs (z[i] - t.refs[0][i]) <= 5e-6))
          ctx.fail ("output %zu after a long history is %.9g, expected %.9g", i, double (z[i]), double (t.refs[0][i]));
    }
}

int
main (int argc, char **argv)
{
  vector<Item> items;
  for (auto& c : configs (IIR))
    items.push_back ({ c.name(), [c] (Ctx& ctx) { explore (ctx, c); } });
  return mc::main (argc, argv, items);
}
