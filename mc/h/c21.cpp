// C21: NaN and infinity go exactly where the definition sends them
#include "common.h"
const char *PROP = MC_PROP("C21");
// cfg: machine tile route M N K p what value second
//   what: 0 position in A, 1 position in B; every position is tried in turn
static mc::GuardBuf a, b, c;
static const float vals[] = {NAN, INFINITY, -INFINITY};
void worker_init() { a.init(1 << 20); b.init(1 << 20); c.init(1 << 20); }

void enumerate(const std::function<bool(const Cfg &)> &emit) {
  std::vector<int> Ms = {1, 5, 6, 7, 13, 25}, Ns = {1, 15, 16, 17, 33, 49}, Ks = {1, 2, 3, 6, 7, 13}, ps = {1, 2, 3};
  if (thorough) { Ms = {1, 2, 5, 6, 7, 8, 12, 13, 19, 25, 37}; Ns = {1, 15, 16, 17, 31, 32, 33, 49, 65}; Ks = {1, 2, 3, 5, 6, 7, 12, 13, 19, 25}; ps = {1, 2, 3, 4, 7}; }
  for (int m : {M_T1, M_T2, M_T3, M_T5}) for (int t = 0; t < 4; t++) for (int M : Ms) for (int N : Ns) for (int K : Ks) {
    if (t && (M + N + K + m) % 5) continue;
    for (int p : ps) for (int r = 0; r < ROUTES; r++) for (int w = 0; w < 2; w++) for (int v = 0; v < 3; v++) for (int s = 0; s < 2; s++) {
      int x = M + N + K + p + r;
      if (!thorough && (s || v == 2) && (x + w) % 3) continue;
      if (!emit(Cfg{m, t, r, M, N, K, p, w, v, s})) return;
    }
  }
}

void run_config(const Cfg &k) {
  int r = k[2], M = k[3], N = k[4], K = k[5], p = k[6];
  size_t na = (size_t)M * K, nb = (size_t)K * N, nc = (size_t)M * N;
  float *A = (float *)a.rw(na * 4, true), *B = (float *)b.rw(nb * 4, true), *C = (float *)c.rw(nc * 4, true);
  float *RA = (float *)a.ro(na * 4, true), *RB = (float *)b.ro(nb * 4, true);
  // entries include zeros: infinity times zero is NaN
  for (size_t i = 0; i < na; i++) A[i] = (int)(mix(i, 5, seed) % 7) - 3;
  for (size_t i = 0; i < nb; i++) B[i] = (int)(mix(i, 6, seed) % 7) - 3;
  std::vector<float> ref(nc, 0), cls(nc);
  for (int i = 0; i < M; i++) for (int x = 0; x < K; x++) for (int j = 0; j < N; j++) ref[(size_t)i * N + j] += A[(size_t)i * K + x] * B[(size_t)x * N + j];
  float v = vals[k[8]];
  size_t n = k[7] ? nb : na;
  // every position when there are few; in larger operands every row and column of every tile edge
  size_t step = thorough || n <= 48 ? 1 : n / 24 | 1;
  std::vector<size_t> pos;
  for (size_t q = 0; q < n; q += step) pos.push_back(q);
  if (pos.back() != n - 1) pos.push_back(n - 1);
  int rows = k[7] ? K : M, cols = k[7] ? N : K;
  pos.push_back((size_t)(rows - 1) * cols);
  pos.push_back(cols - 1);
  std::sort(pos.begin(), pos.end());
  pos.erase(std::unique(pos.begin(), pos.end()), pos.end());
  cake_cntx_t ctx;
  make_cntx(&ctx, k[0], k[1]);
  mc::pol = mc::Policy();
  mc::reset_icv();
  for (size_t q : pos) {
    float *X = k[7] ? B : A;
    float old = X[q];
    X[q] = v;
    size_t q2 = n;
    float old2 = 0;
    if (k[9] && n > 1) {  // a second special value elsewhere: opposite infinities meet in some sums
      q2 = (q * 7 + 3) % n;
      if (q2 == q) q2 = (q + 1) % n;
      old2 = X[q2];
      X[q2] = -v;
    }
    memset(C, 0, nc * 4);
    mc::run([&] { multiply(r, RA, RB, C, M, N, K, p, &ctx); });
    count("multiplications");
    if (mc::failed()) return;
    long rq = q / cols, cq = q % cols, rq2 = q2 < n ? (long)(q2 / cols) : -1, cq2 = q2 < n ? (long)(q2 % cols) : -1;
    for (int i = 0; i < M; i++) for (int j = 0; j < N; j++) {
      bool hit = k[7] ? (j == cq || j == cq2) : (i == rq || i == rq2);
      float got = C[(size_t)i * N + j];
      if (!hit) {
        if (got == ref[(size_t)i * N + j]) continue;
        mc::fail("%s[%ld][%ld] = %g: C[%d][%d] = %g, exact value %g (not affected)", k[7] ? "B" : "A", rq, cq, v, i, j, got, ref[(size_t)i * N + j]);
        return;
      }
      float want = 0;
      for (int x = 0; x < K; x++) want += A[(size_t)i * K + x] * B[(size_t)x * N + j];
      if (std::isnan(want) ? std::isnan(got) : got == want) continue;
      mc::fail("%s[%ld][%ld] = %g: C[%d][%d] = %g, by definition %g", k[7] ? "B" : "A", rq, cq, v, i, j, got, want);
      return;
    }
    X[q] = old;
    if (q2 < n) X[q2] = old2;
  }
  count("positions of special values", pos.size());
  long sg[] = {(long)structure(r, M, N, K, p, &ctx), k[7], k[8], k[9]};
  nontrivial(mc::hash_bytes(sg, sizeof sg));
}
std::string describe(const Cfg &c) {
  char b[300];
  snprintf(b, sizeof b, "%s M=%ld N=%ld K=%ld p=%ld tile=%dx%d machine=%s, %g at each position of %s%s", route_name[c[2]], c[3], c[4], c[5], c[6], tiles[c[1]][0], tiles[c[1]][1], machines[c[0]].name,
           vals[c[8]], c[7] ? "B" : "A", c[9] ? " and its negative at another" : "");
  return b;
}
std::string rule() {
  return "for each configuration one NaN, +inf or -inf is placed at every position of A or B (every row and column edge and a regular subset in larger operands of the quick tier), optionally with a second one, "
         "the other entries being small integers including zeros; every element of C compared with the defining sum; distinct_nontrivial counts distinct (control structure, operand, value)";
}
