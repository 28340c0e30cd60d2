// C10: all documented specifications work and report true metadata; others are diagnosed.
#include "rs.hh"
#include <algorithm>
using namespace mc;
using std::vector;

int
main (int argc, char **argv)
{
  vector<Item> items;
  for (uint ratio : { 1u, 2u, 4u, 8u })
    for (R::Filter f : { R::FILTER_FIR, R::FILTER_IIR })
      for (R::Mode m : { R::UP, R::DOWN })
        for (bool sse : { true, false })
          for (auto p : kPrecs)
            {
              if (f == R::FILTER_IIR && p == R::PREC_LINEAR && ratio > 1)
                continue;
              const Cfg c { m, ratio, p, sse, f };
              items.push_back ({ c.name(), [c] (Ctx& ctx) {
                ErrCapture err;
                const uint ratio = c.ratio;
                Exec ex (100000);
                const uint order2 = ratio == 1 ? 0 : R (c.mode, 2, c.prec, c.sse, c.filt).order();
                err.take();
                auto metadata = [&] (R& r, const char *when) {
                  ctx.eval (3);
                  if (r.order() != order2)
                    ctx.fail ("%s: order() is %u, expected %u", when, r.order(), order2);
                  if (ratio > 1 && r.order() == 0)
                    ctx.fail ("%s: order() is 0", when);
                  if (r.sse_enabled() != (ratio > 1 && c.sse && R::sse_available()))
                    ctx.fail ("%s: sse_enabled() is %d", when, r.sse_enabled());
                  if (!(r.delay() >= 0 && r.delay() < 1000) || (ratio == 1 && r.delay() != 0))
                    ctx.fail ("%s: delay() is %g", when, r.delay());
                };
                // every block length, twice in a row, must produce that number of (finite) samples
                for (uint n = 0; n <= 1100; n++)
                  {
                    if (!ctx.begin ("blocks of %u frames", n))
                      continue;
                    R r = c.make();
                    if (err.take())
                      ctx.fail ("diagnostics on standard error during construction");
                    metadata (r, "new instance");
                    const double delay = r.delay();
                    vector<float> x (2 * n * c.in_per_frame(), 0.75f);
                    vector<float> y = ex.run (r, c, { { n, n & 3, 0 }, { n, 0, 1 } }, x);
                    if (err.take())
                      ctx.fail ("diagnostics on standard error while processing");
                    metadata (r, "after processing");
                    for (size_t i = 0; i < y.size(); i++)
                      if (!(fabs (y[i]) < 3))
                        ctx.fail ("output %zu is %g", i, double (y[i]));
                    // DC gain after the transient (at most 120 lower rate samples for FIR, 400 for IIR)
                    const size_t skip = (ratio == 1 ? 0 : c.filt == R::FILTER_FIR ? 120 : 400) * c.out_per_frame();
                    for (size_t i = skip; i < y.size(); i++)
                      if (!(fabs (y[i] - 0.75) < 0.005))
                        ctx.fail ("output %zu of a constant 0.75 is %g", i, double (y[i]));
                    r.reset();
                    metadata (r, "after reset");
                    R moved (std::move (r));
                    metadata (moved, "after move");
                    if (moved.delay() != delay)
                      ctx.fail ("delay() changed from %g to %g", delay, moved.delay());
                    if (err.take())
                      ctx.fail ("diagnostics on standard error");
                    ctx.state (n);
                    ctx.transition (mix (n, 1));
                    ctx.outcome (hash_out (y));
                  }
              } });
            }
  items.push_back ({ "default-arguments", [] (Ctx& ctx) {
    for (uint ratio : { 1u, 2u, 4u, 8u })
      for (auto p : kPrecs)
        for (R::Mode m : { R::UP, R::DOWN })
          {
            if (!ctx.begin ("ratio %u precision %d mode %d", ratio, p, m))
              continue;
            R a (m, ratio, p), b (m, ratio, p, true, R::FILTER_FIR), d (m, ratio, p, false), e (m, ratio, p, false, R::FILTER_FIR);
            ctx.state (ratio * 100 + p * 2 + m);
            ctx.transition (ratio * 100 + p * 2 + m);
            ctx.eval (6);
            for (auto q : { std::make_pair (&a, &b), std::make_pair (&d, &e) })
              if (q.first->order() != q.second->order() || q.first->delay() != q.second->delay() || q.first->sse_enabled() != q.second->sse_enabled())
                ctx.fail ("default arguments are not: SSE if available, FIR");
          }
  } });
  items.push_back ({ "unsupported", [] (Ctx& ctx) {
    ErrCapture err;
    vector<int> precs;
    vector<uint> ratios;
    for (int p = 0; p <= 40; p++)
      precs.push_back (p);
    for (uint ratio = 0; ratio <= 34; ratio++)
      ratios.push_back (ratio);
    // values of which a part of the bits looks like a valid one
    for (uint s : { 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 24, 28, 30, 31 })
      for (uint r : { 0, 1, 2, 3, 4, 8 })
        {
          ratios.push_back ((1u << s) + r);
          ratios.push_back (-(1u << s) + r);
        }
    for (uint r : { -1u, -2u, -4u, -8u, 96u, 200u, 1000u })
      ratios.push_back (r);
    for (uint s : { 6, 8, 16, 24 })
      for (int p : { 0, 1, 8, 12, 16, 20, 24 })
        {
          precs.push_back ((1 << s) + p);
          precs.push_back (-(1 << s) + p);
        }
    for (int p : { -1, -8, -24, 48, 72, 96, 120, 144 })
      precs.push_back (p);
    std::sort (ratios.begin(), ratios.end());
    ratios.erase (std::unique (ratios.begin(), ratios.end()), ratios.end());
    std::sort (precs.begin(), precs.end());
    precs.erase (std::unique (precs.begin(), precs.end()), precs.end());
    for (int p : precs)
      for (uint ratio : ratios)
        for (R::Filter f : { R::FILTER_FIR, R::FILTER_IIR })
          for (R::Mode m : { R::UP, R::DOWN })
            for (bool sse : { true, false })
              {
                const bool ratio_ok = ratio == 1 || ratio == 2 || ratio == 4 || ratio == 8;
                bool prec_ok = false;
                for (auto k : kPrecs)
                  prec_ok |= k == p && !(k == R::PREC_LINEAR && f == R::FILTER_IIR);
                if (ratio_ok && ratio == 1 && !prec_ok)
                  continue;                             // not specified
                if (!ctx.begin ("mode %d ratio %u precision %d sse %d filter %d", m, ratio, p, sse, f))
                  continue;
                err.take();
                { R r (m, ratio, R::Precision (p), sse, f); }
                const size_t n = err.take();
                ctx.state (mix (mix (p, ratio), f * 4 + m * 2 + sse));
                ctx.transition (mix (mix (p, ratio), f * 4 + m * 2 + sse));
                ctx.eval();
                ctx.outcome (n);
                if ((n == 0) != (ratio_ok && prec_ok))
                  ctx.fail ("%s", n ? "diagnostics for a valid specification" : "no diagnostics for an invalid specification");
              }
  } });
  return mc::main (argc, argv, items);
}
