// Stand-in for BLIS's <blis.h>: the few names CAKE's BLIS configuration uses, with the meaning the BLIS interface
// documents. The kernel is in blis_kernel.cpp.
#ifndef MC_BLIS_H
#define MC_BLIS_H
#include <math.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
typedef int64_t dim_t;
typedef int64_t inc_t;
typedef int64_t doff_t;
typedef struct cntx_s { int is_sentinel; } cntx_t;
typedef struct auxinfo_s { const void *a_next, *b_next; inc_t is_a, is_b; } auxinfo_t;
typedef enum { BLIS_FLOAT = 0, BLIS_DOUBLE = 2, BLIS_SCOMPLEX = 1, BLIS_DCOMPLEX = 3 } num_t;
typedef enum { BLIS_KR, BLIS_MR, BLIS_NR, BLIS_MC, BLIS_KC, BLIS_NC } bszid_t;
#ifdef __cplusplus
extern "C" {
#endif
void bli_init(void);
void bli_finalize(void);
const cntx_t *bli_gks_query_cntx(void);
dim_t bli_cntx_get_blksz_def_dt(num_t dt, bszid_t b, const cntx_t *c);
void bli_sgemm_haswell_asm_6x16(dim_t m, dim_t n, dim_t k, const void *alpha, const void *a, const void *b, const void *beta, void *c, inc_t rs_c, inc_t cs_c,
                                const auxinfo_t *data, const cntx_t *cntx);
#ifdef __cplusplus
}
#endif
#endif
