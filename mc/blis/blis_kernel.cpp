// What the BLIS interface says of the single-precision 6 x 16 kernel: C := beta*C + alpha*A*B for A packed in columns of
// 6, B packed in rows of 16, C with any strides; m <= 6 rows and n <= 16 columns of C; beta = 0 means C is not read.
#include "blis.h"
static const cntx_t the_cntx = {0x5C0};
static void misuse(const char *what) {
  fprintf(stderr, "bli_sgemm_haswell_asm_6x16: %s\n", what);
  abort();
}
extern "C" {
void bli_init(void) {}
void bli_finalize(void) {}
const cntx_t *bli_gks_query_cntx(void) { return &the_cntx; }
dim_t bli_cntx_get_blksz_def_dt(num_t dt, bszid_t b, const cntx_t *c) {
  if (c != &the_cntx) misuse("not a context of BLIS");
  if (dt == BLIS_FLOAT) switch (b) { case BLIS_MR: return 6; case BLIS_NR: return 16; case BLIS_KR: return 1; case BLIS_MC: return 168; case BLIS_KC: return 256; case BLIS_NC: return 4080; }
  switch (b) { case BLIS_MR: return 6; case BLIS_NR: return 8; case BLIS_KR: return 1; case BLIS_MC: return 72; case BLIS_KC: return 256; case BLIS_NC: return 4080; }
  return 0;
}
void bli_sgemm_haswell_asm_6x16(dim_t m, dim_t n, dim_t k, const void *alpha, const void *a, const void *b, const void *beta, void *c, inc_t rs_c, inc_t cs_c,
                                const auxinfo_t *, const cntx_t *cntx) {
  if (cntx != &the_cntx) misuse("the context is not BLIS's");
  if (m < 0 || m > 6 || n < 0 || n > 16 || k < 0) misuse("sizes outside the kernel's");
  const float *A = (const float *)a, *B = (const float *)b;
  float al = *(const float *)alpha, be = *(const float *)beta, *C = (float *)c, t[6][16];
  memset(t, 0, sizeof t);
  for (dim_t l = 0; l < k; l++)
    for (int i = 0; i < 6; i++)
      for (int j = 0; j < 16; j++) t[i][j] += A[l * 6 + i] * B[l * 16 + j];
  for (dim_t i = 0; i < m; i++)
    for (dim_t j = 0; j < n; j++) {
      float *p = C + i * rs_c + j * cs_c;
      *p = be == 0 ? al * t[i][j] : be * *p + al * t[i][j];
    }
}
}
