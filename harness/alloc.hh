// Heap tracking: replaces operator new/delete; the harness is linked with -Wl,--wrap=malloc,... so that
// direct calls from the library are seen too.  Everything here is single-threaded.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <unistd.h>

extern "C" {
void *__real_malloc (size_t n);
void  __real_free (void *p);
}

namespace heap {

struct Header {
  uint64_t magic;
  void    *base;
  size_t   size;
  Header  *prev, *next;
  uint64_t kind;
  void    *user;
};

enum { LIVE = 0x4c495645424c4f43ull, DEAD = 0x4445414444454144ull };

inline bool     on = false;            // track (set around calls of the code under test)
inline long     n_alloc = 0, n_free = 0, live = 0;
inline long     fail_at = -1;           // which allocation fails (0: next one)
inline bool     fail_rest = false;      // ... and all later ones
inline bool     failed = false;
inline unsigned offset = 0;             // returned addresses are 64 * k + offset (offset multiple of 16) ...
inline bool     use_offset = false;
inline int      fill = -1;              // fill pattern for new memory
inline const char *error = nullptr;     // double free etc.
inline Header  *list = nullptr;         // live tracked blocks

inline void *
get (size_t n, uint64_t kind, size_t align = 16)
{
  if (!on)
    {
      // untracked, but still with a header so that free works the same way
    }
  else
    {
      n_alloc++;
      if (fail_at >= 0)
        {
          if (fail_at == 0)
            {
              failed = true;
              if (!fail_rest)
                fail_at = -1;
              return nullptr;
            }
          fail_at--;
        }
    }
  if (n > (size_t (1) << 46))
    return nullptr;
  unsigned char *b = (unsigned char *) __real_malloc (n + sizeof (Header) + 384 + align);
  if (!b)
    return nullptr;
  uintptr_t u = uintptr_t (b) + sizeof (Header) + 128;
  if (align > 16)
    u = (u + align - 1) & ~uintptr_t (align - 1);
  else if (on && use_offset)
    u = (u & ~uintptr_t (63)) + 64 + offset;
  else
    u = (u + 15) & ~uintptr_t (15);
  void *p = (void *) u;
  Header *h = (Header *) (u - sizeof (Header) - (u & 7)); // found again from p by header()
  h = (Header *) (uintptr_t (h) & ~uintptr_t (7));
  h->magic = LIVE;
  h->base = b;
  h->size = n;
  h->user = p;
  h->kind = kind | (on ? 16 : 0);
  if (on)
    {
      live++;
      h->prev = nullptr;
      h->next = list;
      if (list)
        list->prev = h;
      list = h;
      // canary behind the block
      memset ((char *) p + n, 0x5a, 32);
      if (fill >= 0)
        memset (p, fill, n);
    }
  return p;
}

inline Header *
header (void *p)
{
  uintptr_t u = (uintptr_t) p;
  return (Header *) (uintptr_t (u - sizeof (Header) - (u & 7)) & ~uintptr_t (7));
}

inline void
put (void *p, uint64_t kind)
{
  if (!p)
    return;
  Header *h = header (p);
  if (h->magic != LIVE)
    {
      error = h->magic == DEAD ? "memory freed twice" : "invalid pointer freed";
      return;
    }
  const bool tracked = h->kind & 16;
  if (tracked)
    {
      if ((h->kind & 15) != kind)
        error = "memory freed with the wrong function (malloc/new mismatch)";
      for (int i = 0; i < 32; i++)
        if (((unsigned char *) p)[h->size + i] != 0x5a)
          error = "memory behind an allocated block was overwritten";
      (h->prev ? h->prev->next : list) = h->next;
      if (h->next)
        h->next->prev = h->prev;
      n_free++;
      live--;
      memset (p, 0xee, h->size);
    }
  h->magic = DEAD;
  if (!tracked)
    __real_free (h->base);
  else
    {
      // keep freed blocks for a while, so that a second free is recognized
      static void *quarantine[64];
      static unsigned pos = 0;
      __real_free (quarantine[pos % 64]);
      quarantine[pos++ % 64] = h->base;
    }
}

// does [p, p+n) lie inside one live tracked block?
inline bool
inside (const void *p, size_t n)
{
  for (Header *h = list; h; h = h->next)
    {
      const char *b = (const char *) h->user;
      if ((const char *) p >= b && (const char *) p + n <= b + h->size)
        return true;
    }
  return false;
}

// runs f with tracking
template<class F> void
tracked (const F& f)
{
  struct Off { ~Off() { on = false; } } off;
  on = true;
  f();
}

} // namespace heap

extern "C" {
void *__wrap_malloc (size_t n)          { return heap::get (n, 1); }
void  __wrap_free (void *p)             { heap::put (p, 1); }
void *__wrap_calloc (size_t a, size_t b)
{
  void *p = heap::get (a * b, 1);
  if (p)
    memset (p, 0, a * b);
  return p;
}
void *__wrap_realloc (void *p, size_t n)
{
  void *q = heap::get (n, 1);
  if (q && p)
    {
      size_t o = heap::header (p)->size;
      memcpy (q, p, o < n ? o : n);
      heap::put (p, 1);
    }
  return q;
}
static void *wrap_aligned (size_t a, size_t n) { return heap::get (n, 1, a); }
int __wrap_posix_memalign (void **r, size_t a, size_t n)
{
  void *p = wrap_aligned (a, n);
  if (!p)
    return 12;
  *r = p;
  return 0;
}
void *__wrap_aligned_alloc (size_t a, size_t n) { return wrap_aligned (a, n); }
void *__wrap_memalign (size_t a, size_t n)      { return wrap_aligned (a, n); }
void *__wrap__mm_malloc (size_t n, size_t a)    { return wrap_aligned (a, n); }
}

static void *
new_or_throw (size_t n, uint64_t kind, size_t align = 16)
{
  void *p = heap::get (n, kind, align);
  if (!p)
    throw std::bad_alloc();
  return p;
}

void *operator new (size_t n)                                     { return new_or_throw (n, 2); }
void *operator new[] (size_t n)                                   { return new_or_throw (n, 3); }
void *operator new (size_t n, const std::nothrow_t&) noexcept     { return heap::get (n, 2); }
void *operator new[] (size_t n, const std::nothrow_t&) noexcept   { return heap::get (n, 3); }
void *operator new (size_t n, std::align_val_t a)                 { return new_or_throw (n, 2, size_t (a)); }
void *operator new[] (size_t n, std::align_val_t a)               { return new_or_throw (n, 3, size_t (a)); }
void  operator delete (void *p) noexcept                          { heap::put (p, 2); }
void  operator delete[] (void *p) noexcept                        { heap::put (p, 3); }
void  operator delete (void *p, size_t) noexcept                  { heap::put (p, 2); }
void  operator delete[] (void *p, size_t) noexcept                { heap::put (p, 3); }
void  operator delete (void *p, const std::nothrow_t&) noexcept   { heap::put (p, 2); }
void  operator delete[] (void *p, const std::nothrow_t&) noexcept { heap::put (p, 3); }
void  operator delete (void *p, std::align_val_t) noexcept        { heap::put (p, 2); }
void  operator delete[] (void *p, std::align_val_t) noexcept      { heap::put (p, 3); }
void  operator delete (void *p, size_t, std::align_val_t) noexcept   { heap::put (p, 2); }
void  operator delete[] (void *p, size_t, std::align_val_t) noexcept { heap::put (p, 3); }
