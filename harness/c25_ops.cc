// compiled with coverage instrumentation: the inline parts of the resampler's header are counted as well
#include "pandaresampler.hh"
#include "c25.hh"
using R = PandaResampler::Resampler2;
void  op_process (R *r, const float *in, unsigned n, float *out) { r->process_block (in, n, out); }
void  op_reset (R *r)  { r->reset(); }
double op_delay (R *r) { return r->delay(); }
unsigned op_order (R *r) { return r->order(); }
bool  op_sse (R *r)    { return r->sse_enabled(); }
