#pragma once
// operations on instances, compiled with instrumentation
#include "pandaresampler.hh"
using R = PandaResampler::Resampler2;
R     *op_create (void *mem, R::Mode m, unsigned ratio, R::Precision p, bool sse, R::Filter f);
R     *op_move (void *mem, R *from);
void   op_destroy (R *r);
void   op_process (R *r, const float *in, unsigned n, float *out);
void   op_reset (R *r);
double op_meta (const R *r);
