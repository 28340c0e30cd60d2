// C01: FIR output is independent of the partition into blocks and of pointer alignments.
//
// Reference model: superposition of the impulse responses calibrated with one call of a fresh instance.
// Streams: impulses that never overlap in the output (so every output sample is one product for ratio 2
// and the comparison is exact up to one rounding), dense streams (exact for PREC_LINEAR).
#include "rs.hh"
using namespace mc;
using std::vector;
typedef std::pair<size_t, float> Imp;

struct Run {
  Ctx& ctx;
  Cfg c;
  FirModel m;
  Exec ex;
  vector<float> x, y;
  vector<double> p;
  uint64_t id;

  Run (Ctx& ctx, const Cfg& c) : ctx (ctx), c (c), m (c), ex (1 << 20), id (0) {}

  void
  account (const vector<Block>& seq)
  {
    // state: stream position and the last two blocks (all that control flow and history placement depend on)
    uint64_t s = 0, pos = 0, prev = 0;
    for (auto& b : seq)
      {
        const uint64_t lab = b.frames * 16ull + (b.ia & 3) * 4 + (b.oa & 3);
        pos += b.frames;
        const uint64_t n = mix (mix (pos, lab), prev);
        ctx.transition (mix (s, n));
        ctx.state (n);
        s = n;
        prev = lab;
      }
  }
  void
  impulses (const vector<Block>& seq, uint phase, size_t first)
  {
    const size_t T = total_frames (seq), ipf = c.in_per_frame(), S = m.W + 1;
    vector<Imp> im;
    x.assign (T * ipf, 0);
    for (size_t f = first, k = 0; f < T; f += S, k++)
      {
        static const float amps[] = { 1, -2, 0.5f, 64, -0.25f };
        im.push_back ({ f * ipf + (phase + k) % ipf, amps[k % 5] });
        x[im.back().first] = im.back().second;
      }
    R r = c.make();
    run (r, seq);
    double e;
    long bad = m.check (im, y, e);
    ctx.eval (y.size());
    if (bad >= 0)
      ctx.fail ("output %ld is %.9g, but %.9g without cutting the stream into blocks (impulses from frame %zu phase %u)", bad, double (y[bad]), e, first, phase);
  }
  void
  dense_stream (const vector<Block>& seq, uint salt)
  {
    const size_t T = total_frames (seq);
    x.resize (T * c.in_per_frame());
    for (size_t i = 0; i < x.size(); i++)
      x[i] = dense (i, salt);
    m.predict (x, T, p);
    R r = c.make();
    run (r, seq);
    const double tol = c.prec == R::PREC_LINEAR ? 0 : 4e-6;
    ctx.eval (y.size());
    for (size_t i = 0; i < y.size(); i++)
      if (!(fabs (y[i] - p[i]) <= tol))
        ctx.fail ("output %zu is %.9g, expected %.9g from the impulse responses (dense stream)", i, double (y[i]), p[i]);
  }
  void
  run (R& r, const vector<Block>& seq)
  {
    y.clear();
    size_t pos = 0;
    for (auto& b : seq)
      {
        ex.step (r, c, b, x, pos, y);
        pos += b.frames;
      }
    account (seq);
    ctx.outcome (hash_out (y));
  }
  // one trace: given blocks and then a flushing block
  void
  trace (vector<Block> seq, int dense_salt = -1, const char *what = "")
  {
    const uint phases = c.in_per_frame();
    seq.push_back ({ m.W + 8, 0, 0 });
    if (!ctx.begin ("%s%s", what, seq_str (seq).c_str()))
      return;
    for (uint ph = 0; ph < phases; ph++)
      impulses (seq, ph, 0);
    if (dense_salt >= 0)
      dense_stream (seq, dense_salt);
    id++;
  }
};

static void
explore (Ctx& ctx, const Cfg& c)
{
  Run R_ (ctx, c);
  const bool th = ctx.thorough;
  const uint O = c.make().order();
  const uint N = O + 14;

  // 1. single blocks of every length, all alignments mod 16 bytes
  for (uint n = 0; n <= 2 * N + (th ? 200 : 0); n++)
    for (uint ia = 0; ia < 4; ia++)
      for (uint oa = 0; oa < 4; oa += (th || ia == 0 ? 1 : 3))
        R_.trace ({ { n, ia, oa } }, ia == 0 && oa == 0 ? n : -1);
  // all alignments mod 64 bytes
  for (uint n : { 1u, 7u, O, 2 * N })
    for (uint ia = 0; ia < 16; ia++)
      for (uint oa = 0; oa < 16; oa++)
        R_.trace ({ { n, ia, oa } });
  // 2. all pairs
  for (uint n1 = 0; n1 <= N; n1++)
    for (uint n2 = 0; n2 <= N; n2++)
      for (uint ia = 0; ia < (c.mode == R::UP || th ? 4 : 1); ia++)
        R_.trace ({ { n1, (ia + n2) & 3, n2 & 3 }, { n2, ia, (n1 + ia) & 3 } }, ia == 0 && (n1 % 5 == n2 % 5) ? n1 : -1);
  // 3. triples, quadruples, ... over key lengths
  vector<uint> K3 = { 0, 1, 2, 3, 4, 5, 6, 7, 8, O / 2 - 1, O / 2, O - 2, O - 1, O, O + 1, O + 6, O + 7, O + 8 }, K4 = { 0, 1, 2, 3, 7, O / 2, O - 1, O, O + 7 }, K5 = { 0, 1, 2, O - 1, O + 7 };
  for (auto *k : { &K3, &K4, &K5 })
    {
      std::sort (k->begin(), k->end());
      k->erase (std::unique (k->begin(), k->end()), k->end());
    }
  if (th)
    {
      K5 = K4;
      K4 = K3;
      K3.clear();
      for (uint i = 0; i <= O + 8; i++)
        K3.push_back (i);
    }
  uint q = 0;
  for (uint a : K3) for (uint b : K3) for (uint d : K3)
    {
      R_.trace ({ { a, q & 3, 0 }, { b, (q >> 1) & 3, 1 }, { d, (q >> 2) & 3, q & 3 } }, q % 7 == 0 ? q : -1);
      q++;
    }
  for (uint a : K4) for (uint b : K4) for (uint d : K4) for (uint e : K4)
    {
      R_.trace ({ { a, q & 3, 0 }, { b, (q >> 1) & 3, 1 }, { d, 0, q & 3 }, { e, (q >> 2) & 3, 0 } });
      q++;
    }
  for (uint a : K5) for (uint b : K5) for (uint d : K5) for (uint e : K5) for (uint f : K5)
    {
      R_.trace ({ { a, q & 3, 0 }, { b, (q >> 1) & 3, 1 }, { d, 0, q & 3 }, { e, (q >> 2) & 3, 0 }, { f, 0, 0 } });
      q++;
    }
  // 4. lengths around the chunk sizes (in samples of either rate) and beyond, alone and after / before short blocks
  vector<uint> big;
  for (uint base : { 128, 256, 512, 1024, 2048, 3072, 4096, 5120, 8192 })
    for (int d = -4; d <= 4; d++)
      {
        big.push_back (base + d);
        if (th || base == 1024 || base == 2048)
          {
            big.push_back (base + O + d);
            big.push_back (base - O + d);
          }
      }
  for (uint b : { 10000u, 16384u, 32767u, 65535u, 65536u, 65537u, 100000u })
    if (b * c.ratio < 1000000)
      big.push_back (b);
  std::sort (big.begin(), big.end());
  for (uint n : big)
    {
      R_.trace ({ { n, q & 3, 0 } });
      R_.trace ({ { 1, 0, 0 }, { n, (q >> 1) & 3, 3 } });
      R_.trace ({ { n, 0, 0 }, { O - 1, 1, 0 }, { n <= 8200 ? n : 3, 2, 1 } }, n < 5000 && n % 3 == 0 ? n : -1);
      q++;
    }
  // 5. long histories
  const uint rep = th ? 4 : 1;
  R_.trace (vector<Block> (100000 * rep, { 1, 1, 1 }));
  R_.trace (vector<Block> (40000 * rep, { 3, 2, 3 }));
  {
    vector<Block> v;
    for (uint i = 0; i < 6000 * rep; i++)
      v.push_back ({ (i * 37) % (2 * N), i & 3, (i / 4) & 3 });
    R_.trace (v);
    v.clear();
    for (uint i = 0; i < 200 * rep; i++)
      v.push_back ({ 1024 + (i * 7) % 1500, i & 3, (i / 4) & 3 });
    R_.trace (v);
    v.assign (40 * rep, { 30000, 0, 0 });
    if (c.ratio * 30000 < 1000000)
      R_.trace (v);
  }
  // 6. every length up to a bit more than the first chunk size, and lengths up to 9000 which are not near a power of two
  for (uint n = 2 * N; n <= (th ? 4300 : 1100); n++)
    R_.trace ({ { n, n & 3, (n >> 2) & 3 } });
  for (uint n = 1100; n < 9000; n += th ? 13 : 101)
    R_.trace ({ { n, n & 3, 0 } });
  // 7. every address within a page, input and output blocks next to each other
  for (uint n : { 1u, O - 1, O + 9, 75u })
    for (uint a = 0; a < 1024; a++)
      {
        R_.trace ({ { n, a, (a * 7) & 15 } });
        R_.trace ({ { n, (a * 3) & 15, a } });
        if (th || a % 16 < 2 || a > 900)
          R_.trace ({ { n, a, a }, { O + 10, 1023 - a, a } });
      }
  for (auto layout : { Exec::OUT_AFTER_IN, Exec::OUT_BEFORE_IN })
    {
      R_.ex.layout = layout;
      const char *what = Exec::layout_name (layout);
      for (uint n = 0; n <= 2 * N; n++)
        for (uint ia = 0; ia < 4; ia++)
          R_.trace ({ { n, ia, 0 }, { O + 5, 0, 0 } }, -1, what);
      for (uint n : { 500u, 1023u, 1024u, 1025u, 2047u, 2048u, 2049u, 5000u })
        R_.trace ({ { n, n & 3, 0 }, { n, 0, 0 } }, -1, what);
      R_.ex.layout = Exec::SEPARATE;
    }
  // 8. blocks of a stream in a ring buffer, at places in turn
  for (auto layout : { Exec::CONSECUTIVE, Exec::CONSECUTIVE_KEPT, Exec::DESCENDING, Exec::PING_PONG, Exec::WHERE_OUTPUT_WAS })
    {
      R_.ex.layout = layout;
      const char *what = Exec::layout_name (layout);
      for (uint a = 0; a <= N; a++)
        for (uint b = (th ? 0 : (a + layout) % 3); b <= N; b += th ? 1 : 3)
          {
            R_.trace ({ { a, a & 3, b & 3 }, { b, 0, 0 } }, -1, what);
            if ((a + b) % 4 == 0)
              R_.trace ({ { a, b & 3, 0 }, { b, 0, 0 }, { O + 1, 0, 0 }, { a, 0, 0 } }, a + b, what);
          }
      for (uint k : { 1u, 3u, 8u, O - 2, O - 1, O, O + 1, 2 * O, 2 * O + 3, 100u })
        for (size_t ring : { size_t (7 * k * c.ratio), size_t (6000) })
          {
            R_.ex.ring = ring;
            for (uint i = 0; i < 4; i++)
              R_.trace (vector<Block> (30, { k, i, 0 }), -1, what);
          }
      R_.ex.ring = 6000;
      for (uint n : { 500u, 1023u, 1024u, 1025u, 2047u, 2048u, 2049u, 5000u })
        R_.trace ({ { n, n & 3, 0 }, { n, 0, 0 }, { 7, 0, 0 } }, -1, what);
      R_.ex.layout = Exec::SEPARATE;
    }
  ctx.note ("order " + std::to_string (O) + ", response " + std::to_string (R_.m.W) + " frames");
}

int
main (int argc, char **argv)
{
  vector<Item> items;
  for (auto& c : configs (FIR))
    items.push_back ({ c.name(), [c] (Ctx& ctx) { explore (ctx, c); } });
  return mc::main (argc, argv, items);
}
