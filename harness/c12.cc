// C12: AlignedArray - memory layout for every allocator address, element lifecycle, independent copies.
#include "alloc.hh"
#include "pandaresampler.hh"
#include "mc.hh"
#include <memory>
#include <stdexcept>
using namespace mc;
using std::vector;
using PandaResampler::AlignedArray;

// element type that records its life; V is the payload
static Ctx *g_ctx;

struct Registry {               // addresses of living elements
  static const size_t N = 1 << 16;
  const void *slot[N];
  size_t n = 0;
  static size_t h (const void *p) { return (uintptr_t (p) * 0x9e3779b97f4a7c15ull) >> 48; }
  size_t
  find (const void *p) const
  {
    size_t i = h (p);
    while (slot[i] && slot[i] != p)
      i = (i + 1) % N;
    return i;
  }
  bool has (const void *p) const { return slot[find (p)] == p; }
  void
  add (const void *p)
  {
    const size_t i = find (p);
    if (slot[i])
      g_ctx->fail ("an element is constructed where another element lives");
    slot[i] = p;
    n++;
  }
  void
  del (const void *p)
  {
    size_t i = find (p);
    if (!slot[i])
      g_ctx->fail ("an element is destroyed that does not exist");
    n--;
    // linear probing deletion
    size_t j = i;
    for (;;)
      {
        j = (j + 1) % N;
        if (!slot[j])
          break;
        const size_t k = h (slot[j]);
        if ((i <= j) ? (i < k && k <= j) : (i < k || k <= j))
          continue;
        slot[i] = slot[j];
        i = j;
      }
    slot[i] = nullptr;
  }
};
static Registry reg;

template<class V, int EXTRA>
struct Tracked {
  V    v;
  char extra[EXTRA];
  Tracked() : v (0)                    { memset (extra, 0, EXTRA); reg.add (this); }
  explicit Tracked (int i) : v (i)     { memset (extra, i, EXTRA); reg.add (this); }
  Tracked (const Tracked& o) : v (o.v) { chk (&o); memcpy (extra, o.extra, EXTRA); reg.add (this); }
  Tracked& operator= (const Tracked& o)
  {
    chk (&o);
    chk (this);
    v = o.v;
    memmove (extra, o.extra, EXTRA);
    return *this;
  }
  ~Tracked() { reg.del (this); v = V (77); }
  static void chk (const Tracked *p) { if (!reg.has (p)) g_ctx->fail ("an element is used that does not exist"); }
  operator long() const { return long (v); }
};
// owns memory, so that skipped constructors, destructors or bitwise copies are fatal
struct Owner {
  std::unique_ptr<long> p { new long (0) };
  Owner() {}
  explicit Owner (int i) : p (new long (i)) {}
  Owner (const Owner& o) : p (new long (*o.p)) {}
  Owner& operator= (const Owner& o) { *p = *o.p; return *this; }
  operator long() const { return *p; }
};
struct B3 { unsigned char a, b, c; B3() = default; explicit B3 (int i) : a (i), b (i >> 8), c (i >> 16) {} operator long() const { return a + b * 256L + c * 65536L; } };
struct B12 { int a, b, c; B12() = default; explicit B12 (int i) : a (i), b (~i), c (0) {} operator long() const { return a; } };
struct alignas (16) B16 { float f[4]; B16() = default; explicit B16 (int i) : f { float (i), 1, 2, 3 } {} operator long() const { return long (f[0]); } };
struct alignas (64) B64 { int a; B64() = default; explicit B64 (int i) : a (i) {} operator long() const { return a; } };
struct B100 { int a[25]; B100() = default; explicit B100 (int i) { for (int& x : a) x = i; } operator long() const { return a[0] == a[24] ? a[0] : -1; } };

template<class T> static T mk (int i) { return T (i % 120 + 1); }

template<class T> static bool is_scalar_zero (const T& t) { return long (t) == 0; }

// layout and access of one array with the given contents
template<class T> static void
verify (Ctx& ctx, AlignedArray<T>& a, const vector<long>& expect, const char *what)
{
  const AlignedArray<T>& ca = a;
  const size_t n = expect.size();
  if (a.size() != n || ca.size() != n)
    ctx.fail ("%s: size() is %zu, expected %zu", what, a.size(), n);
  if (size_t (a.end() - a.begin()) != n)
    ctx.fail ("%s: end() - begin() is %td, expected %zu", what, a.end() - a.begin(), n);
  if (uintptr_t (a.begin()) % 64)
    ctx.fail ("%s: elements are at %p, not aligned to 64 bytes", what, (void *) a.begin());
  if (n && !heap::inside (a.begin(), n * sizeof (T)))
    ctx.fail ("%s: the elements are not inside the allocated memory", what);
  for (size_t i = 0; i < n; i++)
    if (&a[i] != a.begin() + i || &ca[i] != a.begin() + i || long (a[i]) != expect[i])
      ctx.fail ("%s: element %zu is %ld, expected %ld", what, i, long (a[i]), expect[i]);
  ctx.eval (n + 4);
}

static void
no_leak (Ctx& ctx)
{
  if (heap::error)
    ctx.fail ("%s", heap::error);
  if (reg.n)
    ctx.fail ("%zu elements were not destroyed", reg.n);
  if (heap::live)
    ctx.fail ("%ld blocks of memory were not returned", heap::live);
}

template<class T> static void
layout (Ctx& ctx)
{
  g_ctx = &ctx;
  vector<size_t> ns;
  for (size_t n = 0; n <= 132; n++)
    ns.push_back (n);
  for (size_t n : { 255, 256, 257, 511, 512, 1000, 1023, 1024, 1025, 2047, 2048, 4095, 4096 })
    ns.push_back (n);
  heap::use_offset = true;
  for (size_t n : ns)
    for (uint off = 0; off < 64; off++)
      {
        if (n > 132 && off % 8 && !ctx.thorough)
          continue;
        for (int how = 0; how < 4; how++)
          {
            if (!ctx.begin ("%zu elements of %zu bytes, allocator address 64*k+%u, %s", n, sizeof (T), off,
                            how == 0 ? "default constructed" : how == 1 ? "from a vector" : how == 2 ? "copied" : "assigned"))
              continue;
            heap::offset = off;
            heap::fill = off & 1 ? 0x00 : 0xa5;
            ctx.state (mix (n * 64 + off, sizeof (T)));
            ctx.transition (mix (n * 64 + off, sizeof (T) * 8 + how));
            vector<long> zero (n), val;
            for (size_t i = 0; i < n; i++)
              val.push_back (long (mk<T> (i)));
            {
              vector<T> src;
              src.reserve (n);
              for (size_t i = 0; i < n; i++)
                src.push_back (mk<T> (i));
              const size_t reg0 = reg.n;
              heap::on = true;
              if (how == 0)
                {
                  AlignedArray<T> a (n);
                  verify (ctx, a, zero, "array");
                  for (size_t i = 0; i < n; i++)
                    a[i] = src[i];
                  verify (ctx, a, val, "array after writing");
                }
              else if (how == 1)
                {
                  AlignedArray<T> a (src);
                  verify (ctx, a, val, "array");
                  for (T *p = a.begin(); p != a.end(); p++)
                    *p = mk<T> (5);
                  verify (ctx, a, vector<long> (n, long (mk<T> (5))), "array after writing");
                  for (size_t i = 0; i < n; i++)
                    if (long (src[i]) != val[i])
                      ctx.fail ("writing to the array changed the vector");
                }
              else if (how == 2)
                {
                  AlignedArray<T> a (src), b (a);
                  verify (ctx, b, val, "copy");
                  for (size_t i = 0; i < n; i++)
                    b[i] = mk<T> (9);
                  verify (ctx, a, val, "original");
                  verify (ctx, b, vector<long> (n, long (mk<T> (9))), "copy after writing");
                }
              else
                {
                  AlignedArray<T> a (src), b (size_t (off % 7));
                  b = a;
                  verify (ctx, b, val, "assigned array");
                  if (n)
                    a[n - 1] = mk<T> (42);
                  verify (ctx, b, val, "assigned array after the other was changed");
                  AlignedArray<T>& c = b;
                  b = c;
                  verify (ctx, b, val, "self-assigned array");
                }
              heap::on = false;
              if (reg.n != reg0)
                ctx.fail ("%ld elements too many are alive", long (reg.n - reg0));
            }
            ctx.outcome (mix (n, off * 4 + how));
            no_leak (ctx);
          }
      }
  heap::use_offset = false;
  heap::fill = -1;
  // counts that no memory can hold must be refused
  const size_t M = size_t (-1);
  for (size_t n : { M, M - 1, M / 2, M / 2 + 1, M / sizeof (T), M / sizeof (T) + 1, M / sizeof (T) + 2, (M - 126) / sizeof (T), (M - 126) / sizeof (T) + 1,
                    M / sizeof (T) / 2 + 1, size_t (1) << 60, size_t (1) << 61, size_t (1) << 62, size_t (1) << 63 })
    {
      if (n < (size_t (1) << 50))
        continue;
      if (!ctx.begin ("%zu elements of %zu bytes", n, sizeof (T)))
        continue;
      bool thrown = false;
      heap::on = true;
      try { AlignedArray<T> a (n); }
      catch (const std::bad_alloc&) { thrown = true; }
      catch (const std::length_error&) { thrown = true; }
      heap::on = false;
      if (!thrown)
        ctx.fail ("construction succeeded");
      no_leak (ctx);
    }
}

// all operation sequences on three arrays
template<class T> static void
sequences (Ctx& ctx, uint depth)
{
  g_ctx = &ctx;
  enum Op { NEW, FROM, COPY, ASSIGN, MOVEC, MOVEA, SWAP, WRITE, DEL };
  struct O { Op k; int a, b; };
  const int S = 3;
  vector<O> ops;
  for (int s = 0; s < S; s++)
    {
      for (int n : { 0, 1, 17 })
        ops.push_back ({ NEW, s, n });
      for (int n : { 0, 5 })
        ops.push_back ({ FROM, s, n });
      for (int t = 0; t < S; t++)
        {
          if (s != t)
            {
              ops.push_back ({ COPY, s, t });
              ops.push_back ({ MOVEC, s, t });
              ops.push_back ({ MOVEA, s, t });
              if (s < t)
                ops.push_back ({ SWAP, s, t });
            }
          ops.push_back ({ ASSIGN, s, t });
        }
      ops.push_back ({ WRITE, s, 0 });
      ops.push_back ({ DEL, s, 0 });
    }
  // abstract state of a slot: 0 empty, 1 alive, 2 moved from
  vector<uint> prog (depth);
  std::function<void (uint, const int *)> rec = [&] (uint d, const int *st) {
    if (d < depth)
      {
        for (uint i = 0; i < ops.size(); i++)
          {
            const O& o = ops[i];
            int n[S] = { st[0], st[1], st[2] };
            bool ok = false;
            switch (o.k)
              {
                case NEW: case FROM: ok = o.a == 0 || st[o.a - 1] || st[o.a]; n[o.a] = 1; break;
                case COPY:   ok = st[o.a] == 1; n[o.b] = 1; break;
                case ASSIGN: ok = st[o.a] == 1 && st[o.b]; n[o.b] = 1; break;
                case MOVEC:  ok = st[o.a] == 1; n[o.a] = 2; n[o.b] = 1; break;
                case MOVEA:  ok = st[o.a] == 1 && st[o.b]; n[o.a] = 2; n[o.b] = 1; break;
                case SWAP:   ok = st[o.a] == 1 && st[o.b] == 1; break;
                case WRITE:  ok = st[o.a] == 1; break;
                case DEL:    ok = st[o.a]; n[o.a] = 0; break;
              }
            if (ok)
              {
                prog[d] = i;
                rec (d + 1, n);
              }
          }
        return;
      }
    std::string desc;
    static const char *nm[] = { "new", "from", "copy", "assign", "move-construct", "move-assign", "swap", "write", "delete" };
    for (uint i : prog)
      {
        char b[64];
        snprintf (b, sizeof (b), "%s %d,%d; ", nm[ops[i].k], ops[i].a, ops[i].b);
        desc += b;
      }
    if (!ctx.begin ("%s", desc.c_str()))
      return;
    {
      std::unique_ptr<AlignedArray<T>> arr[S];
      vector<long> model[S];
      bool moved[S] = { false, false, false };
      int serial = 0;
      uint64_t h = 3;
      auto drop = [&] (int s) {
        heap::tracked ([&] { arr[s].reset(); });
        model[s].clear();
        moved[s] = false;
      };
      for (uint i : prog)
        {
          const O& o = ops[i];
          switch (o.k)
            {
              case NEW:   drop (o.a);
                          heap::tracked ([&] { arr[o.a].reset (new AlignedArray<T> (size_t (o.b))); });
                          model[o.a].assign (o.b, 0);
                          break;
              case FROM:  {
                            drop (o.a);
                            vector<T> src;
                            src.reserve (o.b);
                            for (int k = 0; k < o.b; k++)
                              {
                                src.push_back (mk<T> (serial + k));
                                model[o.a].push_back (long (src.back()));
                              }
                            serial += 7;
                            heap::tracked ([&] { arr[o.a].reset (new AlignedArray<T> (src)); });
                          }
                          break;
              case COPY:  drop (o.b);
                          heap::tracked ([&] { arr[o.b].reset (new AlignedArray<T> (*arr[o.a])); });
                          model[o.b] = model[o.a];
                          break;
              case ASSIGN: heap::tracked ([&] { *arr[o.b] = *arr[o.a]; });
                          if (o.a != o.b)
                            model[o.b] = model[o.a];
                          moved[o.b] = false;
                          break;
              case MOVEC: drop (o.b);
                          heap::tracked ([&] { arr[o.b].reset (new AlignedArray<T> (std::move (*arr[o.a]))); });
                          model[o.b] = model[o.a];
                          moved[o.a] = true;
                          break;
              case MOVEA: heap::tracked ([&] { *arr[o.b] = std::move (*arr[o.a]); });
                          model[o.b] = model[o.a];
                          moved[o.b] = false;
                          moved[o.a] = true;
                          break;
              case SWAP:  heap::tracked ([&] { std::swap (*arr[o.a], *arr[o.b]); });
                          std::swap (model[o.a], model[o.b]);
                          break;
              case WRITE: for (size_t k = 0; k < model[o.a].size(); k++)
                            {
                              (*arr[o.a])[k] = mk<T> (serial + k + 50);
                              model[o.a][k] = long (mk<T> (serial + k + 50));
                            }
                          serial += 3;
                          break;
              case DEL:   drop (o.a);
                          break;
            }
          for (int s = 0; s < S; s++)
            if (arr[s] && !moved[s])
              verify (ctx, *arr[s], model[s], "array");
          size_t alive = 0;
          for (int s = 0; s < S; s++)
            if (arr[s])
              alive += arr[s]->size();
          if (reg.n && reg.n != alive)
            ctx.fail ("%zu elements are alive, the arrays have %zu", reg.n, alive);
          uint64_t n = 5;
          for (int s = 0; s < S; s++)
            {
              n = mix (n, arr[s] ? 1 + moved[s] : 0);
              for (long l : model[s])
                n = mix (n, l);
            }
          ctx.state (n);
          ctx.transition (mix (mix (h, n), i));
          h = n;
        }
      for (int s = 0; s < S; s++)
        drop (s);
      ctx.outcome (h);
    }
    no_leak (ctx);
  };
  const int none[S] = { 0, 0, 0 };
  rec (0, none);
}

template<class T> static void
add (vector<Item>& items, const char *name, bool th)
{
  items.push_back ({ std::string ("layout-") + name, [] (Ctx& c) { layout<T> (c); } });
  items.push_back ({ std::string ("sequences-") + name, [th] (Ctx& c) { sequences<T> (c, th ? 5 : 4); } });
}

int
main (int argc, char **argv)
{
  const bool th = [&] { for (int i = 1; i + 1 < argc; i++) if (!strcmp (argv[i], "--tier")) return !strcmp (argv[i + 1], "thorough"); return false; } ();
  vector<Item> items;
  add<float> (items, "float", th);
  add<Tracked<float, 4>> (items, "tracked8", th);
  add<Owner> (items, "owner", th);
  add<char> (items, "char", false);
  add<short> (items, "short", false);
  add<B3> (items, "bytes3", false);
  add<double> (items, "double", false);
  add<B12> (items, "bytes12", false);
  add<B16> (items, "bytes16", false);
  add<B64> (items, "bytes64", false);
  add<B100> (items, "bytes100", false);
  add<Tracked<char, 2>> (items, "tracked3", false);
  return mc::main (argc, argv, items);
}
