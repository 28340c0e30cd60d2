#pragma once
#include <stdint.h>
#include <string.h>
enum : uint32_t { C17_RESET = 0xffffffffu, C17_MAX = 60000 };
struct C17Request { uint32_t op, tu, mode, ratio, prec, sse, filt, n_blocks, n_samples; };
struct C17Block { uint32_t frames, ia, oa; };
struct C17Response { uint32_t order, sse_enabled, sse_available, n_out, bad, pad; double delay; char text[64]; };
