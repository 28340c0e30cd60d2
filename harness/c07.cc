// C07: delay() is the true delay, at any point of any history.
#include "freq.hh"
using namespace mc;
using std::vector;

static double
freq_delay (const Response& r, double f)
{
  cplx s0, s1;
  for (size_t n = 0; n < r.h.size(); n++)
    if (r.h[n] != 0)
      {
        const cplx v = double (r.h[n]) * std::polar (1.0, -2 * M_PI * f * double (n));
        s0 += v;
        s1 += v * (double (n) + r.shift);
      }
  return (s1 / s0).real();
}

static void
check_delay_value (Ctx& ctx, const Cfg& c, double d)
{
  if (!(d >= 0))
    ctx.fail ("delay() is %.17g", d);
  if (c.ratio == 1 && d != 0)
    ctx.fail ("delay() of ratio 1 is %.17g", d);
  if (c.ratio == 2 && c.filt == R::FILTER_FIR)
    {
      const double u = c.mode == R::UP ? d : 2 * d;
      if (u != floor (u))
        ctx.fail ("delay() %.17g is not a multiple of %s", d, c.mode == R::UP ? "1.0" : "0.5");
    }
}

static void
explore (Ctx& ctx, const Cfg& c)
{
  const double d0 = R (c.mode, c.ratio, c.prec, c.sse, c.filt).delay();
  double worst = 0;
  auto same = [&] (const R& r, const char *when) {
    const double d = r.delay();
    if (!(d == d0))
      ctx.fail ("delay() is %.17g %s, but %.17g for another instance", d, when, d0);
  };
  std::unordered_set<uint64_t> seen;
  histories (c, ctx.thorough, [&] (const char *what, const vector<Block>& blocks, size_t pos, const std::function<void (R&)>& setup) {
    if (!ctx.begin ("%s: blocks [%s], impulse in frame %zu, delay() %.17g", what, seq_str (blocks).c_str(), pos, d0))
      return;
    const Response r = observe (c, blocks, pos, [&] (R& x) { same (x, "when new"); setup (x); same (x, "after the setup"); });
    ctx.state (mix (pos, blocks.size() ? blocks[0].frames * 1000 + blocks.size() : 0));
    ctx.transition (mix (mix (pos, blocks.size()), mix (blocks.size() ? blocks[0].frames : 0, blocks.size() ? blocks[0].ia * 4 + blocks[0].oa : 0)));
    const uint64_t hh = hash_out (r.h);
    ctx.outcome (hh);
    if (!seen.insert (hh).second && ctx.only < 0)
      return;
    check_delay_value (ctx, c, d0);
    // delay in samples of the higher rate
    const double D = c.mode == R::UP ? d0 : d0 * c.ratio;
    if (c.filt == R::FILTER_FIR)
      {
        double peak = 0;
        long last = 0;
        for (size_t i = 0; i < r.h.size(); i++)
          {
            peak = std::max (peak, fabs (double (r.h[i])));
            if (r.h[i] != 0)
              last = i;
          }
        const double c2 = 2 * (D - r.shift);
        if (c2 != floor (c2) || peak < 0.25 / c.ratio)
          ctx.fail ("delay() %.17g is not a possible centre of symmetry of the impulse response", d0);
        const long C2 = c2;
        const double tol = (c.ratio == 2 ? 1e-7 : 1e-6) * peak;
        for (long i = 0; i <= std::max (last, C2); i++)
          {
            const double v = i < long (r.h.size()) ? r.h[i] : 0, w = C2 - i >= 0 && C2 - i < long (r.h.size()) ? r.h[C2 - i] : 0;
            if (!(fabs (v - w) <= tol))
              ctx.fail ("the impulse response is not symmetric about delay() %.17g: %.9g and %.9g at a distance of %.1f samples of the higher rate", d0, v, w, fabs (i - c2 / 2));
            worst = std::max (worst, fabs (v - w) / peak);
            ctx.eval();
          }
      }
    else
      for (uint k = 0; k <= 8; k++)
        {
          const double f = k * 125 / 44100.0 / c.ratio, g = freq_delay (r, f);
          if (!(fabs (g - D) <= 0.1))
            ctx.fail ("the group delay at %.6g of the lower rate is %.6f samples of the higher rate, delay() %.17g corresponds to %.6f", f * c.ratio, g, d0, D);
          worst = std::max (worst, fabs (g - D));
          ctx.eval();
        }
  });
  // delay() over the life of an instance: after every operation of every sequence
  const uint ipf = c.in_per_frame(), ops = 9, depth = ctx.thorough ? 5 : 4;
  vector<float> in (4100 * ipf), out (4100 * c.out_per_frame());
  for (size_t i = 0; i < in.size(); i++)
    in[i] = dense (i);
  uint total = 1;
  for (uint i = 0; i < depth; i++)
    total *= ops;
  for (uint code = 0; code < total; code++)
    {
      uint used[8], v = code;
      for (uint i = 0; i < depth; i++, v /= ops)
        used[i] = v % ops;
      if (!ctx.begin ("operations %u %u %u %u %u (0-5: blocks of 0, 1, 7, 64, 1030, 4 frames; 6: reset; 7: move; 8: infinities)", used[0], used[1], used[2], used[3], depth > 4 ? used[4] : 99))
        continue;
      R r = c.make();
      uint64_t h = 0;
      for (uint i = 0; i < depth; i++)
        {
          static const uint len[6] = { 0, 1, 7, 64, 1030, 4 };
          const uint o = used[i];
          if (o == 4 && i + 2 < depth && !ctx.thorough)
            break;                      // long blocks at the end only
          if (o < 6)
            r.process_block (&in[i * ipf], len[o] * ipf, out.data());
          else if (o == 6)
            r.reset();
          else if (o == 7)
            {
              R t = std::move (r);
              same (t, "after a move");
              r = std::move (t);
            }
          else
            {
              vector<float> w (3 * ipf, INFINITY);
              r.process_block (w.data(), 3 * ipf, out.data());
            }
          same (r, "after an operation");
          ctx.eval();
          h = mix (h, o);
          ctx.state (h);
          ctx.transition (mix (h, i));
        }
    }
  char b[100];
  snprintf (b, sizeof (b), "delay() %.6f, %s %.3g", d0, c.filt == R::FILTER_FIR ? "largest asymmetry relative to the peak" : "largest distance from the group delay", worst);
  ctx.note (b);
}

int
main (int argc, char **argv)
{
  vector<Item> items;
  for (auto& c : configs (FIR | IIR, { 2, 4, 8 }))
    items.push_back ({ c.name(), [c] (Ctx& ctx) { explore (ctx, c); } });
  // ratio 1: no delay
  items.push_back ({ "ratio-1", [] (Ctx& ctx) {
    for (auto& c : configs (FIR | IIR, { 1 }))
      {
        if (!ctx.begin ("%s", c.name().c_str()))
          continue;
        R r = c.make();
        check_delay_value (ctx, c, r.delay());
        const float in[3] = { 1, 2, 3 };
        float out[3];
        r.process_block (in, 3, out);
        check_delay_value (ctx, c, r.delay());
        if (!same_bits (in, out, 3))
          ctx.fail ("ratio 1 changes the signal");
        ctx.state (hash_out ({ float (c.prec), float (c.mode), float (c.sse), float (c.filt) }));
        ctx.transition (hash_out ({ float (c.prec), float (c.mode), float (c.sse), float (c.filt) }));
        ctx.outcome (0);
        ctx.eval();
      }
  } });
  return mc::main (argc, argv, items);
}
