// interface between the scheduler / instrumentation runtime (c06.cc) and the instrumented operations (c06_ops.cc)
#pragma once
struct OpCfg { int mode; unsigned ratio; int prec; int sse; int filt; };
enum OpKind { OP_NEW, OP_PROCESS, OP_RESET, OP_META, OP_NAMES, OP_MOVE, OP_DELETE };
struct OpStep { OpKind k; unsigned n; };
extern "C" void  rt_boundary();
extern "C" void *ops_new (const OpCfg *c);
extern "C" void  ops_process (void *r, const float *in, unsigned n, float *out);
extern "C" void  ops_reset (void *r);
extern "C" void  ops_meta (void *r, float *out);        // 4 values
extern "C" void  ops_names (float *out);                // 8 values
extern "C" void *ops_move (void *r);
extern "C" void  ops_delete (void *r);
