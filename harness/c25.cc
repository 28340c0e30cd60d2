// C25: the work done by a call is bounded by the block length, whatever the signal and the history.
// The library and its header are compiled so that every executed basic block edge is counted (plus memory
// copies by size), so "work" is a deterministic number and not a measured time.
#include "rs.hh"
#include "c25.hh"
using namespace mc;
using std::vector;

static uint64_t work = 0;
extern "C" {
void  __sanitizer_cov_trace_pc() { work++; }
void *__real_memmove (void *d, const void *s, size_t n);
void *__real_memcpy (void *d, const void *s, size_t n);
void *__real_memset (void *d, int v, size_t n);
void *__wrap_memmove (void *d, const void *s, size_t n) { work += 1 + n / 16; return __real_memmove (d, s, n); }
void *__wrap_memcpy (void *d, const void *s, size_t n)  { work += 1 + n / 16; return __real_memcpy (d, s, n); }
void *__wrap_memset (void *d, int v, size_t n)          { work += 1 + n / 16; return __real_memset (d, v, n); }
}

enum Val { DENSE, ZEROS, ONES, NANS, INFS, HUGE_, TINY, DENORM, STEP, ALT, N_VAL };
static const char *val_names[] = { "dense", "silence", "ones", "NaN", "Inf", "huge", "tiny", "denormal", "burst then silence", "alternating" };

static float
value (Val v, size_t i)
{
  switch (v)
    {
      case DENSE: return dense (i, 3);
      case ZEROS: return 0;
      case ONES:  return 1;
      case NANS:  return __builtin_nanf ("");
      case INFS:  return i & 1 ? -INFINITY : INFINITY;
      case HUGE_: return i & 1 ? 3e38f : -1e38f;
      case TINY:  return 1e-37f * dense (i, 5);
      case DENORM: return 1e-41f * dense (i, 6);
      case STEP:  return i < 40 ? dense (i, 7) : 0;
      default:    return i & 1 ? -0.75f : 0.75f;
    }
}

static void
explore (Ctx& ctx, const Cfg& c)
{
  const bool th = ctx.thorough;
  const uint ipf = c.in_per_frame(), opf = c.out_per_frame();
  const uint MAXF = th ? 1000000 : 200000;
  Arena in (size_t (MAXF) * ipf + 64), out (size_t (MAXF) * opf + 64);
  const uint O = c.filt == R::FILTER_FIR ? std::max (c.make().order(), 4u) : 12;
  const uint N = 2 * O + 70;

  auto fill = [&] (uint ia, uint frames, Val v, size_t pos) {
    float *p = in.at (ia);
    for (size_t i = 0; i < size_t (frames) * ipf; i++)
      p[i] = value (v, pos + i);
  };
  auto call = [&] (R& r, uint frames, uint ia, uint oa) {
    const uint64_t w = work;
    op_process (&r, in.at (ia), frames * ipf, out.at (oa));
    return work - w;
  };
  // reference: work of a block of ordinary input given to a fresh instance
  std::vector<std::vector<uint64_t>> ref (N + 1, std::vector<uint64_t> (16));
  uint64_t small = 0, rate = 0;
  for (uint n = 0; n <= N; n++)
    for (uint al = 0; al < 16; al++)
      {
        R r = c.make();
        fill (al & 3, n, DENSE, 0);
        ref[n][al] = call (r, n, al & 3, al >> 2);
        if (n <= 64)
          small = std::max (small, ref[n][al]);
      }
  // a call with a block of one frame costs a constant that follows from the order of the filter stages
  const uint64_t cap1 = 400 + 60 * c.ratio + (c.filt == R::FILTER_FIR ? 10 : 30) * O * (c.ratio == 1 ? 0 : 3);
  const uint64_t cap = c.ratio == 1 ? 12 : c.ratio * (20 + 3 * O);          // per frame
  if (ctx.begin ("blocks of 0 to %u frames given to a new instance", N))
    for (uint n = 0; n <= N; n++)
      for (uint al = 0; al < 16; al++)
        {
          ctx.eval();
          ctx.outcome (mix (ref[n][al], n));
          if (ref[n][al] > cap1 + n * cap)
            ctx.fail ("a block of %u frames takes %llu steps (allowed: %llu)", n, (unsigned long long) ref[n][al], (unsigned long long) (cap1 + n * cap));
        }
  for (uint n : { 256, 300, 400, 512 })
    {
      R r = c.make();
      fill (0, n, DENSE, 0);
      rate = std::max (rate, call (r, n, 0, 0) / n + 1);
    }
  char b[200];
  snprintf (b, sizeof (b), "%llu steps per frame (allowed: %llu), %llu for one frame (allowed: %llu)", (unsigned long long) rate, (unsigned long long) cap,
            (unsigned long long) ref[1][0], (unsigned long long) (cap1 + cap));
  ctx.note (b);

  // 1. proportional to the block length
  vector<uint> big;
  for (uint n = N; n < 2200; n += th ? 1 : 13)
    big.push_back (n);
  for (uint k = 11; (1u << k) <= MAXF; k++)
    for (int d : { -1, 0, 1 })
      big.push_back ((1u << k) + d);
  big.push_back (MAXF);
  for (uint n : big)
    if (ctx.begin ("one block of %u frames", n))
      {
        R r = c.make();
        fill (n & 3, n, DENSE, 0);
        const uint64_t w = call (r, n, n & 3, 0);
        ctx.eval();
        ctx.state (mix (n, 1));
        ctx.transition (mix (n, w));
        ctx.outcome (mix (w, n));
        if (w > 2 * small + 2 * rate * n)
          ctx.fail ("a block of %u frames takes %llu steps, that is %.1f per frame, but blocks of up to 512 frames %llu per frame", n, (unsigned long long) w, double (w) / n, (unsigned long long) rate);
      }
  // long blocks that consist of two parts with different kinds of values
  for (int a = 0; a < N_VAL; a++)
    for (int b2 = 0; b2 < N_VAL; b2++)
      for (int where = 0; where < 3; where++)
        {
          if (a == b2 || (!th && (where || (b2 != ONES && b2 != ZEROS && b2 != DENSE))))
            continue;
          const bool slow = a == TINY || a == DENORM || b2 == TINY || b2 == DENORM;     // for the processor
          const uint n = slow && !th ? 30000 : 200000, split = where == 0 ? n - 1 : where == 1 ? n / 2 : 1;
          if (ctx.begin ("one block of %u frames: %s, after %u frames: %s", n, val_names[a], split, val_names[b2]))
            {
              R r = c.make();
              fill (0, split, Val (a), 0);
              float *p = in.at (0) + size_t (split) * ipf;
              for (size_t i = 0; i < size_t (n - split) * ipf; i++)
                p[i] = value (Val (b2), i);
              const uint64_t w = call (r, n, 0, 0);
              ctx.eval();
              ctx.state (mix (mix (a, b2), where));
              ctx.transition (mix (mix (a, b2), where + 10));
              ctx.outcome (mix (w, n));
              if (w > 2 * small + 2 * rate * n)
                ctx.fail ("the block takes %llu steps, that is %.1f per frame, but blocks of up to 512 frames %llu per frame", (unsigned long long) w, double (w) / n, (unsigned long long) rate);
            }
        }
  auto verify = [&] (R& r, uint n, uint ia, uint oa, const char *what) {
    const uint64_t w = call (r, n, ia, oa), e = ref[n][ia | (oa << 2)];
    ctx.eval();
    ctx.outcome (mix (w, mix (n, ia)));
    if (w > 2 * e + ref[1][0] + 200)
      ctx.fail ("a block of %u frames (alignment %u/%u) takes %llu steps%s, but %llu with ordinary input on a new instance", n, ia, oa, (unsigned long long) w, what, (unsigned long long) e);
  };
  // 2. whatever the values are, and what was there before
  for (int v = 0; v < N_VAL; v++)
    for (uint n = 0; n <= N; n += th ? 1 : 1 + n / 12)
      if (ctx.begin ("%s: blocks of %u frames", val_names[v], n))
        {
          R r = c.make();
          size_t pos = 0;
          for (uint k = 0; k < (n < 4 ? 300u : 40u); k++)
            {
              fill (k & 3, n, Val (v), pos);
              pos += size_t (n) * ipf;
              verify (r, n, k & 3, (k >> 2) & 3, "");
              ctx.state (mix (mix (v, n), std::min (k, 12u)));
              ctx.transition (mix (mix (v, n), mix (std::min (k, 12u), k & 15)));
            }
        }
  // 3. all sequences of values and operations: every history of four blocks, then a block of ordinary input and one of silence
  const vector<uint> len = { 1, 3, O / 2, O + 6 };
  const uint D = th ? 4 : 3;
  uint total = 1;
  for (uint i = 0; i < D; i++)
    total *= N_VAL + 1;
  for (uint q = 0; q < total; q++)
    {
      int op[4];
      std::string d;
      for (uint i = 0, k = q; i < D; i++, k /= N_VAL + 1)
        {
          op[i] = k % (N_VAL + 1);
          d += std::string (i ? ", " : "") + (op[i] < N_VAL ? val_names[op[i]] : "reset");
        }
      for (uint l : len)
        if (ctx.begin ("blocks of %u frames: %s, then dense, silence", l, d.c_str()))
          {
            R r = c.make();
            uint64_t s = l;
            for (uint i = 0; i < D + 2; i++)
              {
                const int o = i < D ? op[i] : i == D ? int (DENSE) : int (ZEROS);
                const uint n = l + i % 2;
                if (o < N_VAL)
                  {
                    fill (i & 3, n, Val (o), 0);
                    verify (r, n, i & 3, 0, " in this history");
                  }
                else
                  {
                    const uint64_t w = work;
                    op_reset (&r);
                    if (work - w > 200 + 30 * O * c.ratio)
                      ctx.fail ("reset() takes %llu steps", (unsigned long long) (work - w));
                  }
                const uint64_t t = mix (s, o);
                ctx.state (t);
                ctx.transition (mix (s, t));
                s = t;
              }
            const uint64_t w = work;
            op_delay (&r);
            op_order (&r);
            op_sse (&r);
            if (work - w > 60)
              ctx.fail ("delay(), order() and sse_enabled() take %llu steps", (unsigned long long) (work - w));
          }
    }
  // 4. long histories: the work of the last calls is that of the first ones
  for (uint n : { 0u, 1u, 2u, 5u, 64u })
    for (int v : { int (DENSE), int (ZEROS), int (STEP), int (TINY), int (NANS) })
      if (ctx.begin ("%s: many blocks of %u frames", val_names[v], n))
        {
          R r = c.make();
          const uint calls = (th ? 400000 : 20000) / (n / 4 + 1);
          for (uint k = 0; k < calls; k++)
            {
              if (k < 50 || v == TINY)
                fill (0, n, Val (v), size_t (k) * n * ipf);
              verify (r, n, 0, 0, " after many calls");
            }
          const uint64_t w = work;
          op_reset (&r);
          if (work - w > 200 + 30 * O * c.ratio)
            ctx.fail ("reset() takes %llu steps", (unsigned long long) (work - w));
        }
}

int
main (int argc, char **argv)
{
  vector<Item> items;
  for (auto& c : configs (FIR | IIR, { 1, 2, 4, 8 }))
    items.push_back ({ c.name(), [c] (Ctx& ctx) { explore (ctx, c); } });
  return mc::main (argc, argv, items);
}
