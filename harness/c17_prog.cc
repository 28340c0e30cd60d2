// The program linked against one build of the library: executes requests from standard input.
#define RUN run_tu0
#include "c17_tu.hh"
#include <unistd.h>

int run_tu1 (const C17Request& q, C17Response& a, const C17Block *blocks, const float *x, float *y);

static bool
rd (void *p, size_t n)
{
  char *c = (char *) p;
  while (n)
    {
      ssize_t k = read (0, c, n);
      if (k <= 0)
        return false;
      c += k;
      n -= k;
    }
  return true;
}

static bool
wr (const void *p, size_t n)
{
  const char *c = (const char *) p;
  while (n)
    {
      ssize_t k = write (1, c, n);
      if (k <= 0)
        return false;
      c += k;
      n -= k;
    }
  return true;
}

int
main()
{
  static float x[C17_MAX], y[C17_MAX * 8];
  static C17Block blocks[C17_MAX];
  C17Request q;
  while (rd (&q, sizeof (q)))
    {
      if (q.n_blocks > C17_MAX || q.n_samples > C17_MAX || !rd (blocks, q.n_blocks * sizeof (C17Block)) || !rd (x, q.n_samples * sizeof (float)))
        return 3;
      C17Response a;
#ifdef ONE_TU
      run_tu0 (q, a, blocks, x, y);
#else
      (q.tu ? run_tu1 : run_tu0) (q, a, blocks, x, y);
#endif
      if (!wr (&a, sizeof (a)) || !wr (y, a.n_out * sizeof (float)))
        return 4;
    }
  return 0;
}
