/* Stand-in for <arm_neon.h>: lets the NEON code path of the library be compiled and executed on x86.
 * Semantics as in the ARM C language extensions; uses the vector extensions of the compiler only. */
#ifndef VERIF_ARM_NEON_H
#define VERIF_ARM_NEON_H
#include <stdint.h>
#include <string.h>

typedef float    float32_t;
typedef float    float32x4_t __attribute__ ((vector_size (16)));
typedef float    float32x2_t __attribute__ ((vector_size (8)));
typedef uint32_t uint32x4_t  __attribute__ ((vector_size (16)));
typedef int32_t  int32x4_t   __attribute__ ((vector_size (16)));

#define VN static inline __attribute__ ((always_inline, unused))
VN float32x4_t vmulq_f32 (float32x4_t a, float32x4_t b) { return a * b; }
VN float32x4_t vaddq_f32 (float32x4_t a, float32x4_t b) { return a + b; }
VN float32x4_t vsubq_f32 (float32x4_t a, float32x4_t b) { return a - b; }
VN float32x4_t vnegq_f32 (float32x4_t a) { return -a; }
VN float32x4_t vdupq_n_f32 (float x) { float32x4_t r = { x, x, x, x }; return r; }
VN float32x4_t vmovq_n_f32 (float x) { return vdupq_n_f32 (x); }
VN float32x4_t vmulq_n_f32 (float32x4_t a, float b) { return a * vdupq_n_f32 (b); }
VN float32x4_t vmlaq_f32 (float32x4_t a, float32x4_t b, float32x4_t c) { return a + b * c; }
VN float32x4_t vmlsq_f32 (float32x4_t a, float32x4_t b, float32x4_t c) { return a - b * c; }
VN float32x4_t vmlaq_n_f32 (float32x4_t a, float32x4_t b, float c) { return a + b * vdupq_n_f32 (c); }
VN float32x4_t
vfmaq_f32 (float32x4_t a, float32x4_t b, float32x4_t c)
{
  float32x4_t r;
  for (int i = 0; i < 4; i++)
    r[i] = __builtin_fmaf (b[i], c[i], a[i]);
  return r;
}
VN float32x4_t vfmsq_f32 (float32x4_t a, float32x4_t b, float32x4_t c) { return vfmaq_f32 (a, -b, c); }
VN float32x4_t vfmaq_n_f32 (float32x4_t a, float32x4_t b, float c) { return vfmaq_f32 (a, b, vdupq_n_f32 (c)); }
VN float32x4_t vld1q_f32 (const float *p) { float32x4_t r; memcpy (&r, p, sizeof (r)); return r; }
VN float32x4_t vld1q_dup_f32 (const float *p) { return vdupq_n_f32 (*p); }
VN void        vst1q_f32 (float *p, float32x4_t v) { memcpy (p, &v, sizeof (v)); }
VN float32x2_t vld1_f32 (const float *p) { float32x2_t r; memcpy (&r, p, sizeof (r)); return r; }
VN void        vst1_f32 (float *p, float32x2_t v) { memcpy (p, &v, sizeof (v)); }
VN float32x2_t vget_low_f32 (float32x4_t a) { float32x2_t r = { a[0], a[1] }; return r; }
VN float32x2_t vget_high_f32 (float32x4_t a) { float32x2_t r = { a[2], a[3] }; return r; }
VN float32x4_t vcombine_f32 (float32x2_t a, float32x2_t b) { float32x4_t r = { a[0], a[1], b[0], b[1] }; return r; }
VN float32x2_t vadd_f32 (float32x2_t a, float32x2_t b) { return a + b; }
VN float32x2_t vmul_f32 (float32x2_t a, float32x2_t b) { return a * b; }
VN float32x2_t vpadd_f32 (float32x2_t a, float32x2_t b) { float32x2_t r = { a[0] + a[1], b[0] + b[1] }; return r; }
VN float32x4_t vpaddq_f32 (float32x4_t a, float32x4_t b) { float32x4_t r = { a[0] + a[1], a[2] + a[3], b[0] + b[1], b[2] + b[3] }; return r; }
VN float       vaddvq_f32 (float32x4_t a) { return (a[0] + a[1]) + (a[2] + a[3]); }
VN float32x4_t vextq_f32_ (float32x4_t a, float32x4_t b, int n) { float32x4_t r; for (int i = 0; i < 4; i++) r[i] = i + n < 4 ? a[i + n] : b[i + n - 4]; return r; }
VN float32x4_t vrev64q_f32 (float32x4_t a) { float32x4_t r = { a[1], a[0], a[3], a[2] }; return r; }
#define vextq_f32(a, b, n) vextq_f32_ (a, b, n)
#define vgetq_lane_f32(v, i) ((v)[i])
#define vget_lane_f32(v, i) ((v)[i])
VN float32x4_t vsetq_lane_f32_ (float x, float32x4_t v, int i) { v[i] = x; return v; }
#define vsetq_lane_f32(x, v, i) vsetq_lane_f32_ (x, v, i)
#undef VN
#endif
