// C21: the output is a function of configuration and input alone.  The same program is executed in
// environments that differ in the contents of heap, stack and instance memory, in the addresses of
// everything, and in what other instances did before; the output must be the same bit for bit.
#include "alloc.hh"
#include "rs.hh"
#include <memory>
using namespace mc;
using std::vector;

struct Env {
  int  heap_fill, stack_fill, mem_fill;         // byte patterns, -1: leave alone
  uint heap_offset, place;                      // address of heap blocks mod 64, of the instance (multiple of 8)
  uint past;                                    // what other instances did
};

static __attribute__ ((noinline)) void
dirty_stack (int fill)
{
  volatile unsigned char buf[44 * 1024];
  memset ((unsigned char *) buf, fill, sizeof (buf));
  __asm__ volatile ("" : : "r" (buf) : "memory");
}

static __attribute__ ((noinline)) void
dirty_registers (int fill)
{
  // caller-saved vector registers
  uint32_t w = fill * 0x01010101u;
  __asm__ volatile ("movd %0, %%xmm0; pshufd $0, %%xmm0, %%xmm0; movaps %%xmm0, %%xmm1; movaps %%xmm0, %%xmm2; movaps %%xmm0, %%xmm3;"
                    "movaps %%xmm0, %%xmm4; movaps %%xmm0, %%xmm5; movaps %%xmm0, %%xmm6; movaps %%xmm0, %%xmm7; movaps %%xmm0, %%xmm8;"
                    "movaps %%xmm0, %%xmm9; movaps %%xmm0, %%xmm10; movaps %%xmm0, %%xmm11; movaps %%xmm0, %%xmm12; movaps %%xmm0, %%xmm13;"
                    "movaps %%xmm0, %%xmm14; movaps %%xmm0, %%xmm15" : : "r" (w)
                    : "xmm0", "xmm1", "xmm2", "xmm3", "xmm4", "xmm5", "xmm6", "xmm7", "xmm8", "xmm9", "xmm10", "xmm11", "xmm12", "xmm13", "xmm14", "xmm15");
}

static const uint N_PAST = 6;

struct Runner {
  const Cfg& c;
  vector<float> x, bad;
  Arena in, out, out2;
  alignas (64) unsigned char mem[sizeof (R) + 256];
  vector<Cfg> others;

  Runner (const Cfg& c) : c (c), x (6000 * c.in_per_frame()), bad (6000 * 8), in (6000 * 8 + 64), out (6000 * 8 + 64), out2 (6000 * 64 + 64)
  {
    for (size_t i = 0; i < x.size(); i++)
      x[i] = dense (i, 60);
    const vector<Cfg> all = configs (FIR | IIR);
    for (size_t i = 0; i < all.size(); i++)
      if (i % 29 == 3 || (all[i].filt == c.filt && all[i].prec == c.prec && all[i].mode == c.mode && all[i].ratio >= c.ratio))
        others.push_back (all[i]);
  }
  // other instances' past
  void
  past (uint kind)
  {
    if (kind == 0)
      return;
    for (size_t i = 0; i < bad.size(); i++)
      bad[i] = kind == 1 ? NAN : kind == 2 ? 3e38f * (i & 1 ? -1 : 1) : kind == 3 ? 1e-42f : kind == 4 ? 1 : INFINITY;
    for (auto& o : others)
      {
        R r = o.make();
        for (uint n : { 40u, 1u, 9u, 130u })
          r.process_block (bad.data(), n * o.in_per_frame(), out2.base);
        if (kind & 1)
          r.reset();
      }
  }
  vector<float>
  run (const vector<Block>& prog, const Env& e)
  {
    heap::fill = e.heap_fill;
    heap::use_offset = true;
    heap::offset = e.heap_offset;
    past (e.past);
    if (e.mem_fill >= 0)
      memset (mem, e.mem_fill, sizeof (mem));
    R *r = (R *) (mem + e.place);
    auto dirty = [&] {
      if (e.stack_fill >= 0)
        {
          dirty_stack (e.stack_fill);
          dirty_registers (e.stack_fill);
        }
    };
    dirty();
    heap::on = true;
    new (r) R (c.mode, c.ratio, c.prec, c.sse, c.filt);
    heap::on = false;
    vector<float> y;
    size_t pos = 0;
    std::unique_ptr<R> neighbour;
    if (e.past > 3)
      neighbour.reset (c.make_new());
    const uint ipf = c.in_per_frame(), opf = c.out_per_frame();
    for (auto& b : prog)
      {
        // memory around the input and old contents of the output differ, too
        if (e.mem_fill >= 0)
          {
            memset (in.at (0), e.mem_fill, (b.frames * ipf + 48) * 4);
            memset (out.at (0), e.mem_fill, (b.frames * opf + 48) * 4);
          }
        memcpy (in.at (16 + b.ia), &x[pos * ipf], b.frames * ipf * 4);
        if (neighbour)
          neighbour->process_block (bad.data(), 7 * ipf, out2.base);
        dirty();
        r->process_block (in.at (16 + b.ia), b.frames * ipf, out.at (16 + b.oa));
        y.insert (y.end(), out.at (16 + b.oa), out.at (16 + b.oa) + b.frames * opf);
        pos += b.frames;
      }
    heap::tracked ([&] { r->~R(); });
    heap::fill = -1;
    heap::use_offset = false;
    return y;
  }
};

static void
explore (Ctx& ctx, const Cfg& c)
{
  const bool th = ctx.thorough;
  Runner run (c);
  const uint O = std::max (c.make().order(), 4u);

  vector<Env> envs;
  const int fills[] = { 0x00, 0xff, 0x7f, 0xa5, 0x3f };
  for (int f : fills)
    {
      envs.push_back ({ f, -1, -1, 0, 0, 0 });
      envs.push_back ({ -1, f, -1, 0, 0, 0 });
      envs.push_back ({ -1, -1, f, 0, 0, 0 });
      for (int g : fills)
        envs.push_back ({ f, g, f ^ g, uint (g & 3) * 16, uint (f & 7) * 8, uint (f + g) % N_PAST });
    }
  for (uint off = 0; off < 64; off += 16)
    for (uint place = 0; place < 128; place += 8)
      envs.push_back ({ off & 16 ? 0xff : 0x55, 0x7f, 0xff, off, place, place / 8 % N_PAST });
  for (uint past = 1; past < N_PAST; past++)
    envs.push_back ({ -1, -1, -1, 0, 0, past });
  const Env base = { 0x00, 0x00, 0x00, 0, 0, 0 };

  auto trace = [&] (const vector<Block>& prog, size_t first, size_t step) {
    vector<float> e;
    for (size_t i = first; i < envs.size(); i += step)
      {
        const Env& v = envs[i];
        if (!ctx.begin ("%s: heap filled with %#x, stack %#x, instance memory %#x, heap address %u mod 64, instance address %u mod 64, past %u", seq_str (prog).c_str(),
                        v.heap_fill, v.stack_fill, v.mem_fill, v.heap_offset, v.place, v.past))
          continue;
        if (e.empty())
          e = run.run (prog, base);
        const vector<float> y = run.run (prog, v);
        ctx.eval (y.size());
        const uint64_t h = mix (hash_out (e), i);
        ctx.outcome (hash_out (y));
        ctx.state (h);
        ctx.transition (h);
        for (size_t k = 0; k < y.size(); k++)
          if (!same_bits (&y[k], &e[k], 1))
            ctx.fail ("output %zu is %.9g in one environment and %.9g in another", k, double (y[k]), double (e[k]));
      }
  };
  uint q = 0;
  const uint step = th ? 1 : 53;
  for (uint n = 0; n <= O + 20; n++)
    for (uint al = 0; al < 4; al++)
      trace ({ { n, al, al ^ 1 }, { 21, 0, 0 }, { 3, 1, 2 } }, q++ % step, step);
  const vector<uint> K = { 0, 1, 3, 6, O / 2, O - 1, O, 2 * O + 9 };
  for (uint a : K) for (uint b : K) for (uint d : K)
    trace ({ { a, b & 3, 0 }, { b, d & 3, 1 }, { d, a & 3, 2 }, { O + 3, 0, 0 } }, q++ % step, step);
  for (uint n : { 127, 128, 129, 255, 256, 257, 511, 513, 1023, 1024, 1025, 2047, 2049, 4097 })
    trace ({ { n, n & 3, 0 }, { 9, 0, 0 }, { n / 8, 0, 1 } }, 0, th ? 1 : 17);
  // all environments
  trace ({ { 1, 0, 0 }, { 2, 1, 0 }, { 60, 0, 0 }, { 7, 3, 1 } }, 0, 1);
  trace ({ { 150, 0, 0 } }, 0, 1);
  trace (vector<Block> (130, { 1, 1, 2 }), 0, 1);
}

int
main (int argc, char **argv)
{
  vector<Item> items;
  for (auto& c : configs (FIR | IIR, { 1, 2, 4, 8 }))
    items.push_back ({ c.name(), [c] (Ctx& ctx) { explore (ctx, c); } });
  return mc::main (argc, argv, items);
}
