// Stand-in for <arm_neon.h> on x86: the Armv8 code of the project compiled and run with vector extensions.
// Element-wise the intrinsics mean what the Arm reference says; unaligned loads and stores are allowed, as on Arm.
#ifndef MC_ARM_NEON_H
#define MC_ARM_NEON_H
#include <stdint.h>
#include <string.h>
#include <math.h>
typedef float float32_t;
typedef double float64_t;
typedef float float32x4_t __attribute__((vector_size(16)));
typedef float float32x2_t __attribute__((vector_size(8)));
typedef double float64x2_t __attribute__((vector_size(16)));
typedef uint32_t uint32x4_t __attribute__((vector_size(16)));
typedef int32_t int32x4_t __attribute__((vector_size(16)));
typedef struct { float32x4_t val[2]; } float32x4x2_t;
#define MCI static inline __attribute__((always_inline))
MCI float32x4_t vld1q_f32(const float* p) { float32x4_t r; memcpy(&r, p, 16); return r; }
MCI float32x2_t vld1_f32(const float* p) { float32x2_t r; memcpy(&r, p, 8); return r; }
MCI float32x4_t vld1q_dup_f32(const float* p) { float x = *p; return (float32x4_t){x, x, x, x}; }
MCI float32x4_t vdupq_n_f32(float x) { return (float32x4_t){x, x, x, x}; }
MCI float32x4_t vmovq_n_f32(float x) { return vdupq_n_f32(x); }
MCI uint32x4_t vdupq_n_u32(uint32_t x) { return (uint32x4_t){x, x, x, x}; }
MCI void vst1q_f32(float* p, float32x4_t v) { memcpy(p, &v, 16); }
MCI void vst1_f32(float* p, float32x2_t v) { memcpy(p, &v, 8); }
MCI float32x4_t vfmaq_f32(float32x4_t a, float32x4_t b, float32x4_t c) {
    float32x4_t r;
    for (int i = 0; i < 4; i++) r[i] = fmaf(b[i], c[i], a[i]);
    return r;
}
MCI float32x4_t vfmaq_n_f32(float32x4_t a, float32x4_t b, float n) { return vfmaq_f32(a, b, vdupq_n_f32(n)); }
MCI float32x4_t vmlaq_f32(float32x4_t a, float32x4_t b, float32x4_t c) { return a + b * c; }
MCI float32x4_t vmlaq_n_f32(float32x4_t a, float32x4_t b, float n) { return a + b * vdupq_n_f32(n); }
#define vfmaq_laneq_f32(a, b, v, l) vfmaq_n_f32(a, b, (v)[l])
#define vfmaq_lane_f32(a, b, v, l) vfmaq_n_f32(a, b, (v)[l])
MCI float32x4_t vaddq_f32(float32x4_t a, float32x4_t b) { return a + b; }
MCI float32x4_t vsubq_f32(float32x4_t a, float32x4_t b) { return a - b; }
MCI float32x4_t vmulq_f32(float32x4_t a, float32x4_t b) { return a * b; }
MCI float32x4_t vmulq_n_f32(float32x4_t a, float n) { return a * vdupq_n_f32(n); }
MCI float32x4_t vtrn1q_f32(float32x4_t a, float32x4_t b) { return (float32x4_t){a[0], b[0], a[2], b[2]}; }
MCI float32x4_t vtrn2q_f32(float32x4_t a, float32x4_t b) { return (float32x4_t){a[1], b[1], a[3], b[3]}; }
MCI float64x2_t vtrn1q_f64(float64x2_t a, float64x2_t b) { return (float64x2_t){a[0], b[0]}; }
MCI float64x2_t vtrn2q_f64(float64x2_t a, float64x2_t b) { return (float64x2_t){a[1], b[1]}; }
MCI float32x4_t vzip1q_f32(float32x4_t a, float32x4_t b) { return (float32x4_t){a[0], b[0], a[1], b[1]}; }
MCI float32x4_t vzip2q_f32(float32x4_t a, float32x4_t b) { return (float32x4_t){a[2], b[2], a[3], b[3]}; }
MCI float32x4_t vuzp1q_f32(float32x4_t a, float32x4_t b) { return (float32x4_t){a[0], a[2], b[0], b[2]}; }
MCI float32x4_t vuzp2q_f32(float32x4_t a, float32x4_t b) { return (float32x4_t){a[1], a[3], b[1], b[3]}; }
MCI float32x2_t vget_low_f32(float32x4_t a) { return (float32x2_t){a[0], a[1]}; }
MCI float32x2_t vget_high_f32(float32x4_t a) { return (float32x2_t){a[2], a[3]}; }
MCI float32x4_t vcombine_f32(float32x2_t a, float32x2_t b) { return (float32x4_t){a[0], a[1], b[0], b[1]}; }
#define vgetq_lane_f32(v, l) ((v)[l])
#define vsetq_lane_f32(x, v, l) __extension__({ float32x4_t mc_t = (v); mc_t[l] = (x); mc_t; })
#define vld1q_lane_f32(p, v, l) __extension__({ float32x4_t mc_t = (v); mc_t[l] = *(p); mc_t; })
#define vreinterpretq_f32_f64(x) ((float32x4_t)(x))
#define vreinterpretq_f64_f32(x) ((float64x2_t)(x))
#define vreinterpretq_f32_u32(x) ((float32x4_t)(x))
typedef struct { float32x4_t val[3]; } float32x4x3_t;
typedef struct { float32x4_t val[4]; } float32x4x4_t;
MCI float32x4x2_t vld1q_f32_x2(const float* p) { return (float32x4x2_t){{vld1q_f32(p), vld1q_f32(p + 4)}}; }
MCI float32x4x3_t vld1q_f32_x3(const float* p) { return (float32x4x3_t){{vld1q_f32(p), vld1q_f32(p + 4), vld1q_f32(p + 8)}}; }
MCI float32x4x4_t vld1q_f32_x4(const float* p) { return (float32x4x4_t){{vld1q_f32(p), vld1q_f32(p + 4), vld1q_f32(p + 8), vld1q_f32(p + 12)}}; }
MCI void vst1q_f32_x2(float* p, float32x4x2_t v) { vst1q_f32(p, v.val[0]); vst1q_f32(p + 4, v.val[1]); }
MCI void vst1q_f32_x4(float* p, float32x4x4_t v) { for (int i = 0; i < 4; i++) vst1q_f32(p + 4 * i, v.val[i]); }
MCI float32x2_t vdup_n_f32(float x) { return (float32x2_t){x, x}; }
MCI float32x4_t vfmsq_f32(float32x4_t a, float32x4_t b, float32x4_t c) { return vfmaq_f32(a, -b, c); }
MCI float32x4_t vnegq_f32(float32x4_t a) { return -a; }
MCI float32x4_t vextq_f32_(float32x4_t a, float32x4_t b, int n) { float32x4_t r; for (int i = 0; i < 4; i++) r[i] = i + n < 4 ? a[i + n] : b[i + n - 4]; return r; }
#define vextq_f32(a, b, n) vextq_f32_(a, b, n)
MCI float vaddvq_f32(float32x4_t a) { return (a[0] + a[1]) + (a[2] + a[3]); }
#define vmulq_laneq_f32(a, v, l) vmulq_n_f32(a, (v)[l])
#define vmulq_lane_f32(a, v, l) vmulq_n_f32(a, (v)[l])
#define vst1q_lane_f32(p, v, l) (*(p) = (v)[l])
#define vget_lane_f32(v, l) ((v)[l])
#define vdupq_lane_f32(v, l) vdupq_n_f32((v)[l])
#define vdupq_laneq_f32(v, l) vdupq_n_f32((v)[l])
#endif
