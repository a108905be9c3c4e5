// C33: the error of every element stays within the classical bound for a dot product in single precision, whatever the data
#include "common.h"
const char *PROP = MC_PROP("C33");
// cfg: machine tile route M N K p mcu kcu ncu data scalars packed
enum { F_MANTISSA, F_WIDE, F_CANCEL, F_TENTHS, F_BIG_FIRST, F_SMALL_FIRST, F_INTEGERS, F_SCALED, F_SUBNORMAL, F_DATA };
static const char *kind_of_data[] = {"full mantissas", "exponents -20..20", "cancelling pairs", "all 0.1", "one large term before small ones", "small terms before a large one", "integers of 20 bits", "badly scaled rows and columns", "around the smallest normal number"};
static const struct { float alpha, beta; } scal[] = {{1, 0}, {0.7f, 0}, {-1.3f, 0.9f}, {1, 1}, {1, -0.1f}, {1e-3f, 1e3f}};
static const int SCAL = sizeof scal / sizeof scal[0];
static mc::GuardBuf a, b, c, pa, pb;
static const size_t CAP = 6 << 20;
void worker_init() { for (auto g : {&a, &b, &c, &pa, &pb}) g->init(CAP * 4); }

void enumerate(const std::function<bool(const Cfg &)> &emit) {
  std::vector<int> Ms = {1, 5, 6, 7, 13, 25, 37}, Ns = {1, 15, 16, 17, 33, 49}, Ks = {1, 2, 3, 6, 7, 13, 25, 49}, ps = {1, 2, 3, 5};
  if (thorough) { Ms = {1, 2, 5, 6, 7, 8, 9, 12, 13, 18, 19, 25, 31, 37, 49, 61}; Ns = {1, 2, 15, 16, 17, 31, 32, 33, 48, 49, 65, 97}; Ks = {1, 2, 3, 5, 6, 7, 12, 13, 18, 25, 37, 49, 97}; ps = {1, 2, 3, 4, 5, 7, 8}; }
  auto fits = [](long M, long N, long K) { return M * K <= (long)CAP && N * K <= (long)CAP && M * N <= (long)CAP; };
  for (int t = 0; t < 4; t++) for (int m : {M_T1, M_T2, M_T3, M_T5}) for (int M : Ms) for (int N : Ns) for (int K : Ks) for (int p : ps) for (int d = 0; d < F_DATA; d++) {
    int x = M + 3 * N + 5 * K + p + d;
    if (t && (x + m) % (thorough ? 2 : 5)) continue;
    for (int r = 0; r < ROUTES; r++) {
      if (!emit(Cfg{m, t, r, M, N, K, p, 0, 0, 0, d, (x + r) % SCAL, 0})) return;
      if ((x + r) % 3 == 0 && !emit(Cfg{m, t, r, M, N, K, p, 0, 0, 0, d, 0, r < R_AUTO ? x % 4 : 0})) return;
      if ((x + r) % 4 == 0 && !emit(Cfg{m, t, r, M, N, K, p, tiles[t][0] * (1 + x % 3), 1 + x % 6, tiles[t][1] * (1 + x % 2), d, (x + r) % SCAL, 0})) return;
    }
  }
  for (const Far &f : far_shapes) for (int d = 0; d < F_DATA; d++) for (int p : {1, 3, 16}) for (int r = 0; r < ROUTES; r++) if (fits(f.M, f.N, f.K) && !emit(Cfg{M_DESK, (d + p) % 4, r, f.M, f.N, f.K, p, 0, 0, 0, d, (d + r) % SCAL, 0})) return;
  for (int m : {M_DESK, MC_PI, M_REV, M_SRV}) for (int d = 0; d < F_DATA; d++) for (int p : {1, 2, 4, 7}) for (int r = 0; r < ROUTES; r++) for (int M : {7, 97, 301}) for (int N : {17, 200}) for (int K : {40, 193, 1500})
    if ((thorough || M < 300 || K < 1000) && !emit(Cfg{m, (M + d) % 4, r, M, N, K, p, 0, 0, 0, d, (M + d + r) % SCAL, r < R_AUTO ? (M + p + d) % 4 : 0})) return;
}
static struct { int M = -1, N, K, d; } have;
static std::vector<double> sum, mag;   // of the products, and of their magnitudes
static float *A, *B;
static void fill(int M, int N, int K, int d) {
  A = (float *)a.rw((size_t)M * K * 4, true); B = (float *)b.rw((size_t)K * N * 4, true);
  if (have.M == M && have.N == N && have.K == K && have.d == d) return;
  have.M = M; have.N = N; have.K = K; have.d = d;
  auto unit = [](uint32_t h) { uint32_t x = (h & 0x807FFFFFu) | 127u << 23; float f; memcpy(&f, &x, 4); return f; };   // +-[1, 2)
  for (int i = 0; i < M; i++) for (int k = 0; k < K; k++) {
    uint32_t h = mix(i, k, 51 + seed);
    float v = unit(h), pair = unit(mix(i, k / 2, 52 + seed));
    switch (d) {
      case F_WIDE: v = ldexpf(v, (int)(h >> 7 & 0xFFFF) % 41 - 20); break;
      case F_CANCEL: v = k % 2 ? -pair * (1 + (h & 7) * 0x1p-20f) : pair; break;
      case F_TENTHS: v = 0.1f; break;
      case F_BIG_FIRST: v = k ? v : ldexpf(v, 22); break;
      case F_SMALL_FIRST: v = k < K - 1 ? v : ldexpf(v, 22); break;
      case F_INTEGERS: v = (float)((int)(h >> 12) - (1 << 19)); break;
      case F_SCALED: v = ldexpf(v, i * 7 % 61 - 30); break;
      case F_SUBNORMAL: v = ldexpf(v, -100 - (int)(h >> 7 & 31)); break;
    }
    A[(size_t)i * K + k] = v;
  }
  for (int k = 0; k < K; k++) for (int j = 0; j < N; j++) {
    uint32_t h = mix(k, j, 53 + seed);
    float v = unit(h), pair = unit(mix(k / 2, j, 54 + seed));
    switch (d) {
      case F_WIDE: v = ldexpf(v, (int)(h >> 7 & 0xFFFF) % 41 - 20); break;
      case F_CANCEL: v = pair; break;
      case F_TENTHS: v = 0.1f; break;
      case F_INTEGERS: v = (float)((int)(h >> 12) - (1 << 19)); break;
      case F_SCALED: v = ldexpf(v, j * 11 % 61 - 30); break;
      case F_SUBNORMAL: v = ldexpf(v, -20); break;
    }
    B[(size_t)k * N + j] = v;
  }
  sum.assign((size_t)M * N, 0);
  mag.assign((size_t)M * N, 0);
  for (int i = 0; i < M; i++) for (int k = 0; k < K; k++) {
    double av = A[(size_t)i * K + k];
    for (int j = 0; j < N; j++) { double x = av * B[(size_t)k * N + j]; sum[(size_t)i * N + j] += x; mag[(size_t)i * N + j] += fabs(x); }
  }
}
static float cold(int i, int j, int d) {
  uint32_t h = mix(i, j, 55 + seed);
  float v = ((int)(h >> 8) - (1 << 23)) / 4194304.0f;
  return d == F_SUBNORMAL ? ldexpf(v, -120) : d == F_INTEGERS ? v * 1e6f : v;
}
void run_config(const Cfg &k) {
  int r = k[2], M = k[3], N = k[4], K = k[5], p = k[6], d = k[10];
  float alpha = scal[k[11]].alpha, beta = scal[k[11]].beta;
  cake_cntx_t ctx;
  make_cntx(&ctx, k[0], k[1]);
  mc::pol = mc::Policy();
  mc::reset_icv();
  fill(M, N, K, d);
  size_t n = (size_t)M * N;
  float *C = (float *)c.rw(n * 4, true), *X = (float *)a.ro((size_t)M * K * 4, true), *Y = (float *)b.ro((size_t)K * N * 4, true);
  for (size_t i = 0; i < n; i++) C[i] = beta == 0 ? NAN : cold(i / N, i % N, d);
  if (k[12]) {
    blk_dims_t x;
    memset(&x, 0, sizeof x);
    cake_cntx_t c2 = ctx;
    init_block_dims(M, N, K, p, &x, &c2, (enum sched)r, NULL, 4, k[7], k[8], k[9]);
    size_t sa = cake_sgemm_packed_A_size(M, K, p, &x, &c2, (enum sched)r), sb = cake_sgemm_packed_B_size(K, N, p, &x, &c2);
    if (sa > pa.cap || sb > pb.cap) return;
    mc::run([&] {
      mc::Cake in;
      omp_set_num_threads(p);
      if (k[12] & 1) pack_A(X, (float *)pa.rw(sa, true), M, K, p, &x, &c2, (enum sched)r);
      if (k[12] & 2) pack_B(Y, (float *)pb.rw(sb, true), K, N, p, &x, &c2, (enum sched)r);
    });
    if (mc::failed()) return;
    if (k[12] & 1) X = (float *)pa.ro(sa, true);
    if (k[12] & 2) Y = (float *)pb.ro(sb, true);
  }
  long sg[] = {(long)structure(r, M, N, K, p, &ctx, k[7], k[8], k[9]), k[10], k[11], k[12]};
  nontrivial(mc::hash_bytes(sg, sizeof sg));
  mc::run([&] { multiply(r, X, Y, C, M, N, K, p, &ctx, k[12] & 1, k[12] & 2, alpha, beta, k[7], k[8], k[9]); });
  if (mc::failed()) return;
  const double u = 0x1p-24, gamma = (K + 8) * u / (1 - (K + 8) * u), eta = 0x1p-149;
  for (size_t i = 0; i < n; i++) {
    double old = beta == 0 ? 0 : cold(i / N, i % N, d), want = (double)alpha * sum[i] + (double)beta * old, m = fabs((double)alpha) * mag[i] + fabs((double)beta * old);
    double bound = gamma * m + (K + 4) * eta * (fabs((double)alpha) + 1) + m * K * 0x1p-52;
    if (!(fabs(C[i] - want) <= bound)) {
      mc::fail("C[%ld][%ld] = %.9g, alpha*A*B + beta*C = %.17g: the error %.3g is above the bound %.3g", (long)(i / N), (long)(i % N), C[i], want, fabs(C[i] - want), bound);
      return;
    }
  }
  count("elements compared", n);
}
std::string describe(const Cfg &c) {
  char b[500];
  snprintf(b, sizeof b, "%s M=%ld N=%ld K=%ld p=%ld tile=%dx%d machine=%s user tiles=%ldx%ldx%ld alpha=%g beta=%g, %s%s%s", route_name[c[2]], c[3], c[4], c[5], c[6],
           tiles[c[1]][0], tiles[c[1]][1], machines[c[0]].name, c[7], c[8], c[9], scal[c[11]].alpha, scal[c[11]].beta, kind_of_data[c[10]], c[12] & 1 ? ", A pre-packed" : "", c[12] & 2 ? ", B pre-packed" : "");
  return b;
}
std::string rule() {
  return "each configuration (entry point, schedule, shape, p, machine, tiles, packed form) runs on nine kinds of data that round at every step (full mantissas, 41 binades, cancelling pairs, "
         "large and small terms in either order, ...) and on scalars; every element is compared with the sum in double precision and must lie within gamma(K+8)*(|alpha||A||B| + |beta||C|); "
         "distinct_nontrivial counts distinct (control structure, kind of data, scalars, packing)";
}
