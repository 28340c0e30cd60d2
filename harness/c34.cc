// C34: an instance can run forever.  Every configuration is driven through histories that cross the numbers at which
// counters of calls, samples, resets, moves, queries and instances overflow or lose precision (2^8, 2^16, 2^24, 2^31, 2^32).
// The stream is periodic, so what must come out at any time is known from its first periods.
#include "rs.hh"
#include <memory>
using namespace mc;
using std::vector;

// periodic stream, fed in blocks of a given number of frames
struct Stream {
  const Cfg&    c;
  const uint    period;                  // frames
  Arena         in, out;
  vector<float> first, later;            // first period of a new instance; any later one
  double        tol;

  Stream (const Cfg& c, uint period, uint block) :
    c (c), period (period), in (period * c.in_per_frame()), out (period * c.out_per_frame()), tol (0)
  {
    const uint ni = period * c.in_per_frame(), no = period * c.out_per_frame();
    for (uint i = 0; i < ni; i++)
      in.at (0)[i] = dense (i, 11);
    for (uint i = 0; i < no; i++)
      out.at (0)[i] = 12345.f;
    std::unique_ptr<R> r (c.make_new());
    const uint warm = 1 + (4096 + period - 1) / period;
    for (uint k = 0; k <= warm; k++)
      {
        feed (*r, block);
        if (k == 0)
          first.assign (out.at (0), out.at (0) + no);
      }
    later.assign (out.at (0), out.at (0) + no);
    for (float f : later)
      tol = std::max (tol, fabs (double (f)));
    tol *= 4e-6;
  }
  void
  feed (R& r, uint block)
  {
    const uint ipf = c.in_per_frame(), opf = c.out_per_frame();
    const float *i = in.at (0);
    float *o = out.at (0);
    for (uint p = 0; p < period; p += block)
      {
        r.process_block (i + p * ipf, block * ipf, o + p * opf);
      }
  }
  // output of the last period as expected?
  int
  wrong (const vector<float>& ref)
  {
    const float *o = out.at (0);
    if (memcmp (o, ref.data(), ref.size() * sizeof (float)) == 0)
      return -1;
    for (size_t i = 0; i < ref.size(); i++)
      if (!(fabs (double (o[i]) - ref[i]) <= tol))
        return i;
    return -1;
  }
  void
  check (Ctx& ctx, const vector<float>& ref, const char *what, uint64_t n)
  {
    const int w = wrong (ref);
    if (w >= 0)
      ctx.fail ("after %llu %s: output sample %d of the periodic stream is %.9g, it was %.9g before", (unsigned long long) n, what, w, double (out.at (0)[w]), double (ref[w]));
    ctx.eval (ref.size());
    out.at (0)[n % ref.size()] = 12345.f;
  }
};

enum Kind { LONG_BLOCKS, SINGLE_FRAMES, EMPTY_BLOCKS, RESETS, MOVES, QUERIES, CREATIONS };
static const char *kind_name[] = { "frames in long blocks", "blocks of one frame", "empty blocks", "resets", "moves", "queries", "creations" };
static const char *kind_id[] = { "long", "single", "empty", "reset", "move", "query", "create" };

static float scratch_in[16], scratch_out[16];
static uint   order;                           // of the instance when it was new
static double delay;
static bool   sse;

static inline void
once (Ctx& ctx, R& r, Kind kind, uint64_t i)
{
  const R *q = &r;
  switch (kind)
    {
      case EMPTY_BLOCKS:
        r.process_block (scratch_in + (i & 7), 0, scratch_out + (i & 3));
        break;
      case RESETS:
        r.reset();
        break;
      case MOVES:
        {
          R a (std::move (r));
          r = std::move (a);
        }
        break;
      case QUERIES:
        asm volatile ("" : "+r" (q) : : "memory");
        if (q->order() != order || q->delay() != delay || q->sse_enabled() != sse)
          ctx.fail ("query %llu: order %u, delay %g, SSE %d; it was %u, %g, %d before", (unsigned long long) i, q->order(), q->delay(), q->sse_enabled(), order, delay, sse);
        if (R::find_precision_for_bits (16) != R::PREC_96DB)
          ctx.fail ("query %llu: find_precision_for_bits (16) is %d", (unsigned long long) i, R::find_precision_for_bits (16));
        break;
      default:
        break;
    }
}

// total operations; those that do not process anything in bursts of 2^0, 2^1 .. 2^max_burst first
static void
drive (Ctx& ctx, const Cfg& c, Kind kind, uint64_t total, int max_burst = -1)
{
  if (!ctx.begin ("%s: %llu %s", c.name().c_str(), (unsigned long long) total, kind_name[kind]))
    return;
  Stream s (c, kind == LONG_BLOCKS ? 4096 : 64, kind == LONG_BLOCKS ? 4096 : 1);
  std::unique_ptr<R> r (c.make_new());
  order = r->order();
  delay = r->delay();
  sse = r->sse_enabled();
  int burst_log = 0;
  uint64_t n = 0, rounds = 0;
  uint64_t next_power = 1;
  // warm up
  const uint warm = 1 + (4096 + s.period - 1) / s.period;
  for (uint k = 0; k <= warm; k++)
    s.feed (*r, kind == LONG_BLOCKS ? 4096 : 1);
  s.check (ctx, s.later, kind_name[kind], 0);
  while (n < total || burst_log <= max_burst)
    {
      const vector<float> *ref = &s.later;
      switch (kind)
        {
          case LONG_BLOCKS:
            s.feed (*r, 4096);
            n += 4096;
            break;
          case SINGLE_FRAMES:
            s.feed (*r, 1);
            n += 64;
            break;
          case EMPTY_BLOCKS:
          case RESETS:
          case MOVES:
          case QUERIES:
            {
              // bursts of 2^k operations between two periods, and of a fixed number
              const uint64_t burst = burst_log <= max_burst ? uint64_t (1) << burst_log++ : 4096;
              for (uint64_t i = 0; i < burst; i++)
                {
                  once (ctx, *r, kind, i);
                  if ((i & 0xffffff) == 0)
                    ctx.rearm();
                }
              n += burst;
              s.feed (*r, 1);
              if (kind == RESETS)
                ref = &s.first;
            }
            break;
          case CREATIONS:
            {
              std::unique_ptr<R> q;
              for (uint i = 0; i < 64; i++)
                q.reset (c.make_new());
              n += 64;
              s.feed (*q, 1);
              s.check (ctx, s.first, kind_name[kind], n);
              s.feed (*r, 1);
            }
            break;
        }
      s.check (ctx, *ref, kind_name[kind], n);
      if ((++rounds & 0x3fff) == 0)
        ctx.rearm();                            // watchdog
      if (n >= next_power)
        {
          while (next_power <= n)
            next_power *= 2;
          const uint64_t h = mix (mix (kind, std::hash<std::string>() (c.name())), next_power);
          ctx.state (h);
          ctx.transition (h);
          ctx.outcome (h);
          if (r->order() != order || r->delay() != delay || r->sse_enabled() != sse)
            ctx.fail ("after %llu %s: order %u, delay %g, SSE %d; it was %u, %g, %d before", (unsigned long long) n, kind_name[kind], r->order(), r->delay(), r->sse_enabled(), order, delay, sse);
        }
    }
  r->reset();
  s.feed (*r, kind == LONG_BLOCKS ? 4096 : 1);
  s.check (ctx, s.first, kind_name[kind], n);
}

int
main (int argc, char **argv)
{
  vector<Item> items;
  const uint64_t M = 1 << 20;
  // one configuration of every implementation: more than 2^32 of everything
  vector<Cfg> deep;
  for (bool sse : { false, true })
    for (R::Mode m : { R::UP, R::DOWN })
      {
        deep.push_back ({ m, 2, R::PREC_LINEAR, sse, R::FILTER_FIR });
        deep.push_back ({ m, 2, R::PREC_48DB, sse, R::FILTER_IIR });
      }
  for (Kind k : { SINGLE_FRAMES, LONG_BLOCKS, EMPTY_BLOCKS, RESETS, MOVES, QUERIES, CREATIONS })
    for (auto& c : deep)
      items.push_back ({ std::string ("deep-") + kind_id[k] + "-" + c.name(), [c, k, M] (Ctx& ctx) {
        const bool processing = k == SINGLE_FRAMES || k == LONG_BLOCKS;
        if (k == CREATIONS)
          drive (ctx, c, k, (ctx.thorough ? 260 : 17) * M);
        else if (processing)
          drive (ctx, c, k, 4100 * M);
        else
          drive (ctx, c, k, 8 * M, ctx.thorough ? 32 : 27);
      } });
  vector<Cfg> wrap = { { R::UP, 1, R::PREC_96DB, true, R::FILTER_FIR }, { R::UP, 4, R::PREC_LINEAR, true, R::FILTER_FIR }, { R::DOWN, 8, R::PREC_LINEAR, true, R::FILTER_FIR } };
  for (auto& c : wrap)
    items.push_back ({ "deep-long-" + c.name(), [c, M] (Ctx& ctx) { drive (ctx, c, LONG_BLOCKS, 4100 * M); } });
  // every configuration
  for (auto& c : configs (FIR | IIR))
    items.push_back ({ c.name(), [c, M] (Ctx& ctx) {
      const uint64_t f = ctx.thorough ? 16 : 1;
      drive (ctx, c, LONG_BLOCKS, 33 * M * f);
      drive (ctx, c, SINGLE_FRAMES, 17 * M * f);
      const uint burst = ctx.thorough ? 25 : 20;
      for (Kind k : { EMPTY_BLOCKS, RESETS, MOVES, QUERIES })
        drive (ctx, c, k, 4 * M * f, burst);
      drive (ctx, c, CREATIONS, M / 4 * f);
    } });
  return mc::main (argc, argv, items);
}
