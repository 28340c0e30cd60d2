// C30: a block may be as long as its length argument allows (up to 2^32-1 samples).
// The input is a periodic stream: one period in memory, mapped again and again, so that a block of 16 GB needs little
// memory.  The output area is built the same way, but pages at the start, at the end and around all powers of two from
// 2^28 on are memory of their own: what is written there is kept and compared with the output of small blocks.
#include "rs.hh"
#include <map>
using namespace mc;
using std::vector;

static const size_t PERIOD = 1 << 20;           // samples at the lower rate
static const size_t PAGE = 4096, FP = PAGE / 4; // floats per page

struct Area {
  char  *base = nullptr, *map = nullptr;
  size_t bytes = 0, total = 0;
  int    fd = -1;
  std::map<size_t, size_t> own;                 // first page -> number of pages
  float *f() { return (float *) base; }

  // window bytes are repeated; n floats in all, the first one misaligned by off floats
  Area (size_t n, size_t window, uint off, bool own_pages)
  {
    bytes = (n + off) * sizeof (float);
    const size_t tail = (bytes + PAGE - 1) / PAGE * PAGE;
    total = tail + 2 * PAGE;
    map = (char *) mmap (nullptr, total, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (map == MAP_FAILED)
      abort();
    base = map + PAGE;
    fd = memfd_create ("c30", 0);
    if (ftruncate (fd, window))
      abort();
    for (size_t p = 0; p < tail; p += window)
      if (mmap (base + p, std::min (window, tail - p), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED)
        abort();
    if (own_pages)
      {
        keep (0, 16);
        const size_t pages = tail / PAGE;
        for (int b = 28; b < 36; b++)
          for (size_t m : { size_t (1) << b, 3 * (size_t (1) << b) })
            if (m / FP + 8 < pages)
              keep (m / FP - 8, 16);
        keep (pages > 16 ? pages - 16 : 0, std::min<size_t> (16, pages));
        for (auto& k : own)
          for (size_t i = 0; i < k.second * FP; i++)
            ((float *) (base + k.first * PAGE))[i] = 12345.f;
      }
  }
  void
  keep (size_t first, size_t n)
  {
    if (mmap (base + first * PAGE, n * PAGE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0) == MAP_FAILED)
      abort();
    own[first] = std::max (own[first], n);
  }
  ~Area()
  {
    munmap (map, total);
    close (fd);
  }
};

static void
explore (Ctx& ctx, const Cfg& c, const vector<uint>& lens)
{
  const uint ipf = c.in_per_frame(), opf = c.out_per_frame();
  const size_t IP = PERIOD * ipf, OP = PERIOD * opf;
  vector<float> x (IP);
  for (size_t i = 0; i < IP; i++)
    x[i] = dense (i, 11);
  // expected output: first period, and every later one
  vector<float> first, later;
  {
    R r = c.make();
    vector<float> y (OP);
    for (int pass = 0; pass < 3; pass++)
      {
        for (size_t f = 0; f < PERIOD; f += 1000)
          {
            const uint n = std::min<size_t> (1000, PERIOD - f);
            r.process_block (&x[f * ipf], n * ipf, &y[f * opf]);
          }
        (pass ? later : first) = y;
      }
  }
  double level = 0;
  for (float f : later)
    level = std::max<double> (level, fabs (f));
  const double tol = 4e-6 * std::max (level, 1.0) * (c.filt == R::FILTER_IIR ? 4 : 1);
  for (uint n : lens)
    for (uint off : { 0u, 1u })
      if ((ctx.thorough || off == n / ipf % 2) && ctx.begin ("one block of %u samples, misaligned by %u", n, off))
        {
          struct itimerval it;
          memset (&it, 0, sizeof (it));
          it.it_value.tv_sec = ctx.thorough ? 2400 : 600;
          setitimer (ITIMER_PROF, &it, nullptr);
          const size_t n_out = c.mode == R::UP ? size_t (n) * c.ratio : n / c.ratio;
          Area in (n, IP * 4, off, false), out (n_out, OP * 4, off, true);
          for (size_t p = 0; p < IP; p++)           // one period of the memory behind the mappings
            {
              const size_t i = (p + off) % IP;
              if (p < n)
                (p + off < IP || size_t (n) + off > IP ? in.f()[i] : in.f()[p + off]) = x[p];
            }
          R r = c.make();
          r.process_block (in.f() + off, n, out.f() + off);
          ctx.state (mix (n, off));
          uint64_t h = 0;
          for (auto& k : out.own)
            for (size_t i = k.first * FP; i < (k.first + k.second) * FP; i++)
              {
                const float v = out.f()[i];
                if (i < off || i >= n_out + off)
                  {
                    if (v != 12345.f)
                      ctx.fail ("memory outside of the output block was written: index %lld of %zu", (long long) i - off, n_out);
                    continue;
                  }
                const size_t t = i - off;
                const float e = t < OP ? first[t] : later[t % OP];
                ctx.eval();
                if (!(fabs (double (v) - e) <= tol))
                  ctx.fail ("output %zu of %zu is %.9g, but %.9g if the stream is processed in small blocks", t, n_out, v, e);
                if (i % 64 == 0)
                  h = mix (h, t);
              }
          ctx.transition (mix (n, mix (off, h)));
          ctx.outcome (h);
          // the state after the block: a following small block continues the stream
          const uint m = 100 * ipf;
          vector<float> y (100 * opf), z (m);
          for (uint i = 0; i < m; i++)
            z[i] = x[(size_t (n) + i) % IP];
          r.process_block (z.data(), m, y.data());
          for (uint i = 0; i < y.size(); i++)
            {
              const float e = n_out + i < OP ? first[n_out + i] : later[(n_out + i) % OP];
              ctx.eval();
              if (!(fabs (double (y[i]) - e) <= tol))
                ctx.fail ("after the block, output %u of the next one is %.9g, but %.9g if the stream is processed in small blocks", i, y[i], e);
            }
        }
}

int
main (int argc, char **argv)
{
  bool th = false;
  for (int i = 1; i + 1 < argc; i++)
    if (!strcmp (argv[i], "--tier") && !strcmp (argv[i + 1], "thorough"))
      th = true;
  vector<Item> items;
  auto add = [&] (const Cfg& c, vector<uint> lens) {
    for (uint& n : lens)
      n -= n % c.in_per_frame();
    items.push_back ({ c.name(), [c, lens] (Ctx& ctx) { explore (ctx, c, lens); } });
  };
  const uint TOP = 0xffffffffu, HALF = 0x80000000u;
  for (auto& c : configs (FIR | IIR, { 8, 4, 2, 1 }))
    {
      if (!th && !(c.filt == R::FILTER_FIR ? c.prec == R::PREC_LINEAR || (c.prec == R::PREC_48DB && c.sse) : c.prec == R::PREC_48DB))
        continue;
      if (c.ratio == 1 && c.prec != R::PREC_LINEAR && c.prec != R::PREC_48DB)
        continue;
      if (c.mode == R::UP && c.ratio > 2)
        add (c, th ? vector<uint> { 0x20000000u + 5, 0x40000000u + 4, HALF + 9 } : vector<uint> { (c.ratio == 8 ? 0x20000000u : 0x40000000u) + 5 });
      else if (th)
        add (c, { 0x40000000u + 7, HALF - 1, HALF + 4100, TOP });
      else if (c.prec == R::PREC_LINEAR || c.ratio == 1)
        add (c, { HALF + 4100, TOP });
      else
        add (c, { HALF + 4100 });
    }
  return mc::main (argc, argv, items);
}
