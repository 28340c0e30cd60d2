#pragma once
namespace PandaResampler { class Resampler2; }
void     op_process (PandaResampler::Resampler2 *r, const float *in, unsigned n, float *out);
void     op_reset (PandaResampler::Resampler2 *r);
double   op_delay (PandaResampler::Resampler2 *r);
unsigned op_order (PandaResampler::Resampler2 *r);
bool     op_sse (PandaResampler::Resampler2 *r);
