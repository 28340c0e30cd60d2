#include "c31.hh"
#include <new>
R     *op_create (void *mem, R::Mode m, unsigned ratio, R::Precision p, bool sse, R::Filter f) { return new (mem) R (m, ratio, p, sse, f); }
R     *op_move (void *mem, R *from) { return new (mem) R (std::move (*from)); }
void   op_destroy (R *r) { r->~R(); }
void   op_process (R *r, const float *in, unsigned n, float *out) { r->process_block (in, n, out); }
void   op_reset (R *r) { r->reset(); }
double op_meta (const R *r) { return r->delay() * 1000 + r->order() * 2 + r->sse_enabled() + R::find_precision_for_bits (17) + R::sse_available() + (R::precision_name (R::PREC_96DB) != nullptr); }
