// C11: find_precision_for_bits for all 2^32 arguments; precision_name for all 16 bit values (and extremes).
#include "rs.hh"
#include <set>
using namespace mc;
using std::vector;

static int
expected (uint bits)
{
  for (int p : { 1, 8, 12, 16, 20, 24 })
    if (bits <= uint (p))
      return p;
  return 24;
}

int
main (int argc, char **argv)
{
  vector<Item> items;
  for (uint part = 0; part < 64; part++)
    items.push_back ({ "bits-" + std::to_string (part), [part] (Ctx& ctx) {
      const uint64_t lo = uint64_t (part) << 26, hi = uint64_t (part + 1) << 26;
      for (uint64_t chunk = lo; chunk < hi; chunk += 1 << 20)
        {
          if (!ctx.begin ("bits %llu .. %llu", (unsigned long long) chunk, (unsigned long long) chunk + (1 << 20) - 1))
            continue;
          for (uint64_t b = chunk; b < chunk + (1 << 20); b++)
            {
              const int p = R::find_precision_for_bits (uint (b));
              if (p != (b > 24 ? 24 : expected (b)))
                ctx.fail ("find_precision_for_bits (%llu) is %d", (unsigned long long) b, p);
            }
          ctx.eval (1 << 20);
          ctx.s->states += 1 << 20;
          ctx.s->transitions += 1 << 20;
        }
    } });
  items.push_back ({ "names", [] (Ctx& ctx) {
    std::set<std::string> names;
    std::string unknown;
    vector<int> vals;
    for (int v = -32768; v <= 65535; v++)
      vals.push_back (v);
    vals.push_back (INT32_MAX);
    vals.push_back (INT32_MIN);
    // expected "unknown" string: the one for 0
    {
      const char *u = R::precision_name (R::Precision (0));
      unknown = u ? u : "";
    }
    for (int v : vals)
      {
        if (!ctx.begin ("precision_name (%d)", v))
          continue;
        const char *n = R::precision_name (R::Precision (v));
        ctx.eval();
        ctx.state (v);
        ctx.transition (v);
        if (!n || !*n)
          ctx.fail ("null or empty name");
        ctx.outcome (std::hash<std::string>() (n));
        bool known = false;
        for (auto p : kPrecs)
          known |= p == v;
        if (known && (n == unknown || !names.insert (n).second))
          ctx.fail ("name '%s' is not distinct", n);
        if (!known && n != unknown)
          ctx.fail ("name '%s' for an undefined level, but '%s' for another one", n, unknown.c_str());
      }
    // names stay valid, and lookup is stateless
    if (ctx.begin ("names again"))
      for (auto p : kPrecs)
        if (std::string (R::precision_name (p)) != R::precision_name (p) || !names.count (R::precision_name (p)))
          if (ctx.only < 0)
            ctx.fail ("name of %d changed", p);
  } });
  return mc::main (argc, argv, items);
}
