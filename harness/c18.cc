// C18: FIR upsampling passes the original samples through bit for bit; ratio 1 copies.
#include "rs.hh"
using namespace mc;
using std::vector;

static float
bits (uint32_t u)
{
  float f;
  memcpy (&f, &u, 4);
  return f;
}

static vector<vector<float>>
streams (size_t n)
{
  vector<vector<float>> v (4, vector<float> (n));
  for (size_t i = 0; i < n; i++)
    {
      v[0][i] = bits (0x3f000000u ^ uint32_t (mix (1, i) & 0x807fffff));                        // all mantissa bits, +-[0.5,1)
      v[1][i] = bits (uint32_t (i % 255) << 23 | uint32_t (mix (2, i) & 0x807fffff));           // every exponent incl. denormals, signs
      static const uint32_t special[] = { 0, 0x80000000u, 0x7f800000u, 0xff800000u, 0x00000001u, 0x80000001u, 0x7f7fffffu, 0xff7fffffu,
                                          0x00800000u, 0x007fffffu, 0x3f800000u, 0x3f800001u, 0x3f7fffffu, 0xbf800000u, 0x4b800000u, 0x33800000u };
      v[2][i] = bits (special[mix (3, i) % 16]);
      v[3][i] = bits (0x7fc00000u | uint32_t (mix (4, i) & 0x803fffff));                        // NaN payloads
    }
  return v;
}

static void
explore_up (Ctx& ctx, const Cfg& c)
{
  const bool th = ctx.thorough;
  Exec ex (900000);
  const size_t L = 110000;
  const vector<vector<float>> xs = streams (L);
  const uint O = c.make().order(), N = O + 14;
  const double d = c.make().delay();
  const size_t D = size_t (d);

  auto trace = [&] (vector<Block> seq, int only = -1) {
    seq.push_back ({ 70, 0, 0 });
    if (!ctx.begin ("%s", seq_str (seq).c_str()))
      return;
    if (d != D)
      ctx.fail ("delay() is %g, not an integer", d);
    for (int k = 0; k < 4; k++)
      {
        if (only >= 0 && k != only)
          continue;
        R r = c.make();
        const vector<float> y = ex.run (r, c, seq, xs[k]);
        size_t n = total_frames (seq), checked = 0;
        for (size_t i = 0; i < n && i * c.ratio + D < y.size(); i++, checked++)
          {
            const float e = i < L ? xs[k][i] : 0.f;
            if (!same_bits (&e, &y[i * c.ratio + D], 1))
              {
                uint32_t ue, uy;
                memcpy (&ue, &e, 4);
                memcpy (&uy, &y[i * c.ratio + D], 4);
                ctx.fail ("stream %d: input %zu is %.9g (0x%08x), output %zu is %.9g (0x%08x)", k, i, double (e), ue, i * c.ratio + D, double (y[i * c.ratio + D]), uy);
              }
          }
        ctx.eval (checked);
        ctx.outcome (hash_out (y));
        uint64_t s = k;
        for (auto& b : seq)
          {
            const uint64_t nx = mix (s, b.frames * 16 + (b.ia & 3) * 4 + (b.oa & 3));
            ctx.state (nx);
            ctx.transition (mix (s, nx));
            s = nx;
          }
      }
  };
  for (uint n = 0; n <= 2 * N + 60; n++)
    for (uint ia = 0; ia < 4; ia++)
      for (uint oa = 0; oa < 4; oa++)
        trace ({ { n, ia, oa } });
  for (uint a = 0; a <= N; a++)
    for (uint b = 0; b <= N; b++)
      for (uint ia = 0; ia < (th ? 4u : 1u); ia++)
        trace ({ { a, (b + ia) & 3, 0 }, { b, (a + ia) & 3, (a + b) & 3 } }, th ? -1 : int (a + b) & 3);
  vector<uint> K = { 0, 1, 2, 3, 7, O / 2, O - 1, O, O + 7, 2 * O };
  for (uint a : K) for (uint b : K) for (uint e : K)
    trace ({ { a, b & 3, 0 }, { b, e & 3, 1 }, { e, a & 3, 2 } }, int (a + b + e) & 3);
  for (uint base : { 128, 256, 512, 1024, 2048, 3072, 4096, 8192 })
    for (int q = -4; q <= 4; q++)
      {
        trace ({ { base + q, q & 3, 0 } });
        trace ({ { 3, 0, 0 }, { base + q, q & 3, 0 }, { base, 1, 0 } });
      }
  trace ({ { 100000, 1, 0 } }, 1);
  trace ({ { 65536, 0, 0 }, { 1, 0, 0 } }, 0);
  trace (vector<Block> (20000, { 1, 1, 1 }), 1);
}

static void
explore_copy (Ctx& ctx, const Cfg& c)
{
  const size_t L = 200000;
  const vector<vector<float>> xs = streams (L);
  Exec ex (L);
  vector<uint> sizes;
  for (uint n = 0; n <= 2100; n++)
    sizes.push_back (n);
  for (uint n : { 4095u, 4096u, 4097u, 8192u, 65535u, 65536u, 65537u, 100000u, 200000u })
    sizes.push_back (n);
  for (uint n : sizes)
    {
      if (!ctx.begin ("block of %u", n))
        continue;
      for (auto& x : xs)
        {
          R r = c.make();
          vector<float> y = ex.run (r, c, { { n, n & 3, n / 4 & 3 } }, x);
          if (!same_bits (y.data(), x.data(), n))
            ctx.fail ("output differs from input");
          r.reset();
          y = ex.run (r, c, { { n / 2, 0, 0 }, { 0, 0, 0 }, { n - n / 2, 0, 0 } }, x);
          if (!same_bits (y.data(), x.data(), n))
            ctx.fail ("output differs from input in two blocks after reset");
          ctx.eval (2 * n);
          ctx.outcome (hash_out (y));
        }
      ctx.state (n);
      ctx.transition (n);
    }
}

int
main (int argc, char **argv)
{
  vector<Item> items;
  for (auto& c : configs (FIR))
    if (c.mode == R::UP)
      items.push_back ({ c.name(), [c] (Ctx& ctx) { explore_up (ctx, c); } });
  for (auto f : { R::FILTER_FIR, R::FILTER_IIR })
    for (auto m : { R::UP, R::DOWN })
      for (auto p : kPrecs)
        for (bool sse : { true, false })
          {
            Cfg c { m, 1, p, sse, f };
            items.push_back ({ c.name(), [c] (Ctx& ctx) { explore_copy (ctx, c); } });
          }
  return mc::main (argc, argv, items);
}
