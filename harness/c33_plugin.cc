// A plugin that contains or uses the resampler (C33): everything happens in one function.
#include "pandaresampler.hh"
#include <new>
#include <string.h>
typedef PandaResampler::Resampler2 R;

// returns the size of an instance; the instance is created in mem if op is 0, used if it is 1, destroyed if it is 2
extern "C" __attribute__ ((visibility ("default"))) unsigned
plugin_op (int op, void *mem, int mode, unsigned ratio, int prec, int sse, int filt, const float *in, unsigned n, float *out)
{
  if (op == 0)
    new (mem) R (mode ? R::DOWN : R::UP, ratio, R::Precision (prec), sse, filt ? R::FILTER_IIR : R::FILTER_FIR);
  if (op == 1)
    static_cast<R *> (mem)->process_block (in, n, out);
  if (op == 2)
    static_cast<R *> (mem)->~R();
  return sizeof (R);
}
