// Makes the broadcast loads of the micro-kernels visible to the instrumentation: the intrinsic is opaque to it.
#pragma once
#include <immintrin.h>
static inline __attribute__((always_inline)) __m256 mc_broadcast_ss(const float *p) { return _mm256_set1_ps(*p); }
#define _mm256_broadcast_ss(p) mc_broadcast_ss(p)
