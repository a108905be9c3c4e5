// C09: C = alpha*A*B + beta*C
#include "common.h"
const char *PROP = MC_PROP("C09");
// cfg: machine tile route M N K p mcu kcu ncu alpha*2 beta*2 (from 1000: unusual pair) prior(0 numbers, 1 NaN) packed
static Operands op;
// unusual scalars; the old C is a small integer times 2^e, so that every result is exact
static const struct { float alpha, beta; int e; const char *text; } unusual[] = {
    {1, -0.0f, 0, "1, -0"}, {-0.0f, 0, 0, "-0, 0"}, {0, -0.0f, 0, "0, -0"}, {-0.0f, 1, 0, "-0, 1"}, {1, 0x1p-30f, 30, "1, 2^-30"}, {0x1p-30f, 0, 0, "2^-30, 0"}, {0x1p-30f, 0x1p-30f, 0, "2^-30, 2^-30"},
    {0x1p40f, 0x1p40f, 0, "2^40, 2^40"}, {1 + 0x1p-10f, 0, 0, "1+2^-10, 0"}, {1 - 0x1p-10f, 0x1p-10f, 0, "1-2^-10, 2^-10"}, {1, 1 + 0x1p-10f, 0, "1, 1+2^-10"}, {1, 1 - 0x1p-10f, 0, "1, 1-2^-10"},
    {1, 0x1p-130f, 125, "1, 2^-130"}, {0x1p-130f, 0, 0, "2^-130, 0"}, {0x1p-140f, 0x1p-140f, 0, "2^-140, 2^-140"}, {0, 0x1p-130f, 125, "0, 2^-130"}, {1 + 0x1p-23f, 0, -200, "1+2^-23, 0"},
    {1, NAN, 0, "1, NaN"}, {NAN, 0, 0, "NaN, 0"}, {1, INFINITY, 0, "1, inf"}, {-2, -INFINITY, 0, "-2, -inf"}, {0, NAN, 0, "0, NaN"}, {0, INFINITY, 0, "0, inf"}, {NAN, 1, 0, "NaN, 1"}};
static const int UNUSUAL = sizeof unusual / sizeof unusual[0];
static mc::GuardBuf pa, pb;
void worker_init() { op.init(4 << 20, 4 << 20, 4 << 20); op.guard_fill(); pa.init(4 << 20); pb.init(4 << 20); }

void enumerate(const std::function<bool(const Cfg &)> &emit) {
  std::vector<int> Ms = {1, 6, 7, 13, 25, 37}, Ns = {1, 16, 17, 33, 49}, Ks = {1, 2, 7, 13, 25}, ps = {1, 2, 3, 5};
  static const int ab[] = {0, 2, -2, 4, -6, 1, 10};  // halves
  if (thorough) { Ms = {1, 5, 6, 7, 8, 12, 13, 18, 19, 25, 31, 37, 49, 61}; Ns = {1, 15, 16, 17, 31, 32, 33, 48, 49, 65, 97}; Ks = {1, 2, 3, 6, 7, 12, 13, 25, 37}; ps = {1, 2, 3, 4, 5, 7, 8}; }
  for (int m : {M_T1, M_T2, M_T3, M_T5}) for (int t = 0; t < 4; t++) for (int M : Ms) for (int N : Ns) for (int K : Ks) {
    if (t && (M + N + K + m) % 4 && (DERIVED || !thorough)) continue;
    for (int p : ps) {
      int x = M + 3 * N + 5 * K + p, n = 0;
      for (int r = 0; r < ROUTES; r++) for (int u = 0; u < UNUSUAL; u++) {
        if (!thorough && (x + r + u) % (t ? 11 : 3)) continue;
        bool zero = unusual[u].beta == 0;
        if (!emit(Cfg{m, t, r, M, N, K, p, 0, 0, 0, 1000 + u, 1000 + u, zero, 0})) return;
        if (zero && !emit(Cfg{m, t, r, M, N, K, p, 0, 0, 0, 1000 + u, 1000 + u, 0, 0})) return;
      }
      for (int al : ab) for (int be : ab) {
        n++;
        for (int r = 0; r < ROUTES; r++) {
          if (!thorough && DERIVED && t && (n + x + r) % 3) continue;
          if (!emit(Cfg{m, t, r, M, N, K, p, 0, 0, 0, al, be, be == 0, 0})) return;
          if (be == 0 && !emit(Cfg{m, t, r, M, N, K, p, 0, 0, 0, al, be, 0, 0})) return;
          if ((n + x) % 7 == 0 && !emit(Cfg{m, t, r, M, N, K, p, tiles[t][0] * (1 + n % 3), 1 + n % 5, tiles[t][1], al, be, be == 0, 0})) return;
          // own tiles, operands packed for them and scalars together
          if ((n + x) % 6 == 0 && r < R_AUTO && !emit(Cfg{m, t, r, M, N, K, p, tiles[t][0] * (1 + n % 4), 1 + n % 7, tiles[t][1] * (1 + n % 2), al, be, be == 0, 1 + n % 3})) return;
          if ((n + x) % 5 == 0 && r < R_AUTO && !emit(Cfg{m, t, r, M, N, K, p, 0, 0, 0, al, be, be == 0, 1 + n % 3})) return;
        }
      }
    }
  }
  for (const Far &f : far_shapes) for (int p : {1, 3, 16}) for (int r = 0; r < ROUTES; r++) for (int be : {0, -1}) if (!emit(Cfg{M_DESK, 0, r, f.M, f.N, f.K, p, 0, 0, 0, 4, be, be == 0, 0})) return;
  for (int m : {M_DESK, MC_PI, M_REV, M_SRV, M_SKEW, M_SMALL}) for (int p : {1, 2, 4, 7, 16}) for (int r = 0; r < ROUTES; r++) for (int M : {1, 97, 301}) for (int N : {1, 65, 200}) for (int K : {1, 40, 193})
    for (int al : {2, -4, 0}) for (int be : {0, 2, -1}) if (!emit(Cfg{m, 0, r, M, N, K, p, 0, 0, 0, al, be, be == 0, 0})) return;
}
static int cexp = 0;
static inline float cval(int i, int j) { int v = (int)(mix(i, j, 99 + seed) % 41) - 20; return cexp ? ldexpf(v * 2, cexp) : v * 2; }

void run_config(const Cfg &k) {
  int r = k[2], M = k[3], N = k[4], K = k[5], p = k[6];
  float alpha = k[10] / 2.0f, beta = k[11] / 2.0f;
  cexp = 0;
  int lim = lim_for(16 * K);
  if (k[10] >= 1000) {
    auto &u = unusual[k[10] - 1000];
    alpha = u.alpha; beta = u.beta; cexp = u.e;
    lim = lim_for(4096 * K);
    if (cexp == -200) { if (K > 1) return; lim = 1; cexp = 0; }
  }
  cake_cntx_t ctx;
  make_cntx(&ctx, k[0], k[1]);
  mc::pol = mc::Policy();
  mc::reset_icv();
  op.set(M, N, K, true, lim);
  size_t nc = (size_t)M * N;
  if (k[12]) op.fill_c();
  else for (size_t i = 0; i < nc; i++) op.C[i] = cval(i / N, i % N);
  op.slack_reset();
  float *A = op.A, *B = op.B;
  if (k[13]) {
    blk_dims_t x;
    memset(&x, 0, sizeof x);
    cake_cntx_t c2 = ctx;
    init_block_dims(M, N, K, p, &x, &c2, (enum sched)r, NULL, 4, k[7], k[8], k[9]);
    size_t sa = cake_sgemm_packed_A_size(M, K, p, &x, &c2, (enum sched)r), sb = cake_sgemm_packed_B_size(K, N, p, &x, &c2);
    if (sa > pa.cap || sb > pb.cap) return;
    mc::run([&] {
      mc::Cake in;
      omp_set_num_threads(p);
      if (k[13] & 1) pack_A(op.A, (float *)pa.rw(sa, true), M, K, p, &x, &c2, (enum sched)r);
      if (k[13] & 2) pack_B(op.B, (float *)pb.rw(sb, true), K, N, p, &x, &c2, (enum sched)r);
    });
    if (mc::failed()) return;
    if (k[13] & 1) A = (float *)pa.ro(sa, true);
    if (k[13] & 2) B = (float *)pb.ro(sb, true);
  }
  long sg[] = {(long)structure(r, M, N, K, p, &ctx, k[7], k[8], k[9]), k[10], k[11], k[12], k[13]};
  nontrivial(mc::hash_bytes(sg, sizeof sg));
  mc::run([&] { multiply(r, A, B, op.C, M, N, K, p, &ctx, k[13] & 1, k[13] & 2, alpha, beta, k[7], k[8], k[9]); });
  if (mc::failed()) return;
  if (!op.slack_ok()) return;
  for (size_t i = 0; i < nc; i++) {
    float old = k[12] ? 0 : cval(i / N, i % N), want = (double)alpha * op.ref[i] + (beta == 0 ? 0 : (double)beta * old);
    if (!(op.C[i] == want || (want != want && op.C[i] != op.C[i]))) {
      mc::fail("C[%ld][%ld] = %.9g, alpha*(A*B) + beta*C = %g*%.9g + %g*%.9g = %.9g", (long)(i / N), (long)(i % N), op.C[i], alpha, op.ref[i], beta, old, want);
      return;
    }
  }
}
std::string describe(const Cfg &c) {
  char b[400], sc[80];
  if (c[10] >= 1000) snprintf(sc, sizeof sc, "alpha, beta = %s", unusual[c[10] - 1000].text);
  else snprintf(sc, sizeof sc, "alpha=%g beta=%g", c[10] / 2.0, c[11] / 2.0);
  snprintf(b, sizeof b, "%s M=%ld N=%ld K=%ld p=%ld tile=%dx%d machine=%s user tiles=%ldx%ldx%ld %s, C %s before%s%s", route_name[c[2]], c[3], c[4], c[5], c[6],
           tiles[c[1]][0], tiles[c[1]][1], machines[c[0]].name, c[7], c[8], c[9], sc, c[12] ? "NaN" : "numbers", c[13] & 1 ? ", A pre-packed" : "", c[13] & 2 ? ", B pre-packed" : "");
  return b;
}
std::string rule() {
  return "each configuration runs every (alpha, beta) over {0, 1, -1, 2, -3, 1/2, 5}^2 with operands, prior C and scalars chosen so that alpha*A*B + beta*C is exact; C holds NaN where beta = 0 "
         "(and, again, numbers); scalars also tiny, huge, signed zeros, NaN and infinite; every element compared; distinct_nontrivial counts distinct (control structure, alpha, beta, prior, packing)";
}
