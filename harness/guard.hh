// memory for blocks between inaccessible areas
#pragma once
#include "rs.hh"
#ifdef USE_ASAN
#include <sanitizer/asan_interface.h>
#endif

static const size_t PAGE = 4096;

// a block of memory between two inaccessible areas; `rw` is the same memory, writable
struct Guarded {
  size_t         n;
  unsigned char *ro, *rw;
  explicit Guarded (size_t bytes) : n ((bytes + PAGE - 1) / PAGE * PAGE)
  {
    int fd = memfd_create ("buf", 0);
    if (fd < 0 || ftruncate (fd, n))
      abort();
    rw = (unsigned char *) mmap (nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    ro = (unsigned char *) mmap (nullptr, n + 2 * 65536, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0) + 65536;
    close_fd = fd;
  }
  int close_fd;
  void
  map (bool writable)
  {
    if (mmap (ro, n, writable ? PROT_READ | PROT_WRITE : PROT_READ, MAP_SHARED | MAP_FIXED, close_fd, 0) != ro)
      abort();
  }
};
