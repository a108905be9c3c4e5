// C20: the result checkers
#include "explore.h"
const char *PROP = MC_PROP("C20");
// cfg: which M N K p kind     which: 0 mat_equals, 1 cake_sgemm_checker, 2 add_checker
static mc::GuardBuf a, b, c, d;
static const float INF = INFINITY;
// how one element of the result is changed: relative to a finite reference value
struct Change { float add; float set; bool use_set, ok; };
static const Change changes[] = {
    {0, 0, false, true}, {0.0005f, 0, false, true}, {-0.0005f, 0, false, true}, {0.00096f, 0, false, true}, {-0.00096f, 0, false, true},
    {0.00104f, 0, false, false}, {-0.00104f, 0, false, false}, {0.002f, 0, false, false}, {-0.002f, 0, false, false}, {1, 0, false, false}, {-1, 0, false, false},
    {1000, 0, false, false}, {-1000, 0, false, false}, {1e30f, 0, false, false}, {-1e30f, 0, false, false},
    {0, INF, true, false}, {0, -INF, true, false}, {0, NAN, true, false}, {0, -NAN, true, false}};
static const float specials[] = {NAN, INF, -INF};
void worker_init() { for (mc::GuardBuf *g : {&a, &b, &c, &d}) g->init(9 << 20); }
void enumerate(const std::function<bool(const Cfg &)> &emit) {
#ifdef MC_TSAN
  for (int w = 0; w < 3; w++) for (int M : {1, 3, 8, 17}) for (int N : {1, 4, 17}) for (int x : w ? std::vector<int>{1, 2, 5} : std::vector<int>{1}) for (int th = 2; th <= (thorough ? 6 : 4); th++) if (!emit(Cfg{w, M, N, x, th, 4})) return;
  return;
#endif
  std::vector<int> ds = {1, 2, 3, 4, 5, 7, 8, 9, 13, 16, 17};
  if (thorough) { ds.clear(); for (int i = 1; i < 26; i++) ds.push_back(i); }
  for (int w = 0; w < 3; w++) for (int M : ds) for (int N : ds) for (int x : w == 0 ? std::vector<int>{1} : w == 1 ? std::vector<int>{1, 2, 5} : std::vector<int>{1, 2, 3, 5}) for (int kind = 0; kind < 3; kind++)
    if (!emit(Cfg{w, M, N, x, kind ? 1 + (M + N) % 4 : 2, kind})) return;
  // large shapes: positions around the edges, the middle and the powers of two
  for (int w = 0; w < 3; w++) for (auto d : {std::pair<int, int>{1, 65537}, {65539, 1}, {300, 301}, {7, 20011}, {20011, 5}, {640, 400}}) for (int x : {1, 2}) for (int th : {1, 3, 16}) if (!emit(Cfg{w, d.first, d.second, x, th, 5})) return;
  for (int w = 0; w < 3; w++) for (auto d : {std::pair<int, int>{1200, 1300}, {1, 2000003}, {1100003, 1}}) if (!emit(Cfg{w, d.first, d.second, 1, 4, 5})) return;
  for (int w = 1; w < 3; w++) for (int x : {100, 1025}) for (int th : {1, 4}) if (!emit(Cfg{w, 5, 7, x, th, 5})) return;
  // references of other magnitudes
  for (int w = 0; w < 3; w++) for (int M : {1, 2, 3, 5, 8, 17}) for (int N : {1, 2, 4, 7, 16, 33}) for (int e = 0; e < 9; e++) for (int th : {1, 3}) if (!emit(Cfg{w, M, N, 1 + (w == 2 && e % 2), th, 6 + e})) return;
  // many wrong elements at once
  for (int w = 0; w < 3; w++) for (int M : {16, 64, 256, 512}) for (int N : {16, 128, 256, 512}) if (!emit(Cfg{w, M, N, 1, 2, 3})) return;
}
static int M, N, K, w, p;
static float *A, *B, *C, *R;
static std::vector<float *> arr;
static bool verdict() {   // true: the checker accepts
  bool bad = false;
  mc::run([&] {
    mc::Cake in;
    if (w == 0) bad = mat_equals(C, R, M, N);
    else if (w == 1) bad = cake_sgemm_checker(A, B, C, N, M, K);
    else bad = add_checker(arr.data(), C, M, N, K);
  });
  count("verdicts");
  return !bad;
}
static bool expect(bool ok, const char *fmt, ...) {
  uint64_t h = mc::hash_bytes(C, (size_t)M * N * 4);
  bool got = verdict();
  if (mc::failed()) return false;
  if (mc::hash_bytes(C, (size_t)M * N * 4) != h) { mc::fail("the checked matrix was modified"); return false; }
  if (got == ok) return true;
  char s[300];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(s, sizeof s, fmt, ap);
  va_end(ap);
  mc::fail("%s was %s", s, got ? "accepted" : "rejected");
  return false;
}
void run_config(const Cfg &k) {
  w = k[0]; M = k[1]; N = k[2]; K = k[3]; p = k[4];
  size_t n = (size_t)M * N;
  mc::pol = mc::Policy();
  mc::pol.team_cap = p;
  mc::pol.order = (M + N) % mc::ORDERS;
  mc::reset_icv();
  C = (float *)c.rw(n * 4, true);
  R = (float *)d.rw(n * 4, true);
  A = (float *)a.rw((size_t)(w == 2 ? n * K : (size_t)M * K) * 4, true);
  B = (float *)b.rw((size_t)K * N * 4, true);
  // references between -2 and 2 (small multiples of 1/8), so that the changes above are exact enough
  if (w == 1) {
    for (int i = 0; i < M * K; i++) A[i] = ((int)(mix(i, 1, seed) % 5) - 2) / 4.0f;
    for (int i = 0; i < K * N; i++) B[i] = ((int)(mix(i, 2, seed) % 5) - 2) / 4.0f;
    for (size_t i = 0; i < n; i++) { R[i] = 0; for (int x = 0; x < K; x++) R[i] += A[i / N * K + x] * B[(size_t)x * N + i % N]; }
  } else if (w == 2) {
    arr.clear();
    for (int x = 0; x < K; x++) { arr.push_back(A + x * n); for (size_t i = 0; i < n; i++) A[x * n + i] = ((int)(mix(i, x, seed) % 5) - 2) / 4.0f; }
    for (size_t i = 0; i < n; i++) { R[i] = 0; for (int x = 0; x < K; x++) R[i] += arr[x][i]; }
  } else for (size_t i = 0; i < n; i++) R[i] = ((int)(mix(i, 3, seed) % 33) - 16) / 8.0f;
  static const float sizes[] = {0, 0x1p-40f, 0x1p-12f, 128, 16384, 0x1p20f, 0x1p24f, 0x1p40f, 0x1p100f};
  if (k[5] >= 6) {
    // every third element (and the first) is of the given size, the others stay; with K = 1, or the second summand zero, sums are exact
    float z = sizes[k[5] - 6];
    for (int i = 0; i < M; i++) for (int j = 0; j < N; j++) {
      size_t q = (size_t)i * N + j;
      bool big = w == 1 ? i % 3 == 0 : q % 3 == 0;
      if (w == 1) { A[i] = big ? z : 0.25f; B[j] = (j % 5 + 1) * (j % 2 ? 1 : -1); R[q] = A[i] * B[j]; }
      else { float v = (big ? z : 0.25f) * ((int)(q % 7) - 3); R[q] = v; if (w == 2) for (int x = 0; x < K; x++) arr[x][q] = x ? 0 : v; }
    }
  }
  memcpy(C, R, n * 4);
#ifdef MC_TSAN
  // verdicts on a right and on a wrong result in every interleaving
  mc::pol = mc::Policy();
  for (int wrong = 0; wrong < 3; wrong++) {
    size_t at = wrong == 2 ? n - 1 : 0;
    C[at] = R[at] + (wrong ? 0.5f : 0);
    if (!interleavings(thorough ? 3 : 2, thorough ? 50000 : 500, [&] { omp_set_num_threads(p); return expect(!wrong, "%s, in some interleaving of %d threads", wrong ? "a wrong result" : "an exact result", p); })) return;
    C[at] = R[at];
  }
  nontrivial(mc::hash_bytes(k.v, sizeof k.v));
  return;
#endif
  if (!expect(true, "an exact result")) return;
  if (k[5] >= 6) {
    for (size_t i = 0; i < n; i++) {
      std::vector<float> other = {R[i] + 0.25f, R[i] - 0.25f, R[i] + 0.0005f, R[i] - 0.0005f, R[i] + 0.0015f, R[i] - 0.0015f, 0, -R[i], nextafterf(R[i], INF), nextafterf(R[i], -INF), R[i] * 1.0001f, R[i] * 2, 0x1p-130f, 1e30f};
      for (float v : other) {
        double diff = fabs((double)v - R[i]);
        if (fabs(diff - 0.001) < 4e-5) continue;
        C[i] = v;
        if (!expect(diff <= 0.001, "element (%d,%d): %.9g where the reference is %.9g (%g elsewhere)", (int)(i / N), (int)(i % N), v, R[i], sizes[k[5] - 6])) return;
        C[i] = R[i];
      }
    }
    long sg[] = {w, M, N, K, p, k[5]};
    nontrivial(mc::hash_bytes(sg, sizeof sg));
    return;
  }
  if (k[5] == 3) {
    for (size_t bad : {(size_t)2, (size_t)3, (size_t)255, (size_t)256, (size_t)512, (size_t)32768, (size_t)65536, (size_t)131072, n}) {
      if (bad > n) continue;
      for (size_t i = 0; i < bad; i++) C[i] = R[i] + (i % 2 ? 1 : -1);
      if (!expect(false, "a result with %zu wrong elements", bad)) return;
      memcpy(C, R, n * 4);
      for (size_t i = n - bad; i < n; i++) C[i] = R[i] + 2;
      if (!expect(false, "a result with %zu wrong elements at the end", bad)) return;
      memcpy(C, R, n * 4);
    }
    for (size_t i = 0; i < n; i++) C[i] = R[i] + (i % 2 ? 0.0009f : -0.0009f);
    if (!expect(true, "a result off by 0.0009 everywhere")) return;
    nontrivial(n * 4 + w);
    return;
  }
  if (k[5] == 5) {
    std::vector<size_t> pos = {0, 1, (size_t)N - 1, (size_t)N, n / 2, n / 3, (size_t)(M - 1) * N, n - 2, n - 1};
    if (n > 1000000) pos = {0, (size_t)N - 1, (size_t)N, n / 2, n - 1};
    else for (size_t q = 8; q < n; q *= 2) { pos.push_back(q - 1); pos.push_back(q); }
    for (size_t i : pos) {
      if (i >= n) continue;
      for (const Change &ch : changes) {
        C[i] = ch.use_set ? ch.set : R[i] + ch.add;
        if (!expect(ch.ok, "element (%d,%d): %.9g where the reference is %.9g", (int)(i / N), (int)(i % N), C[i], R[i])) return;
        C[i] = R[i];
      }
    }
    long sg[] = {w, M, N, K, p, k[5]};
    nontrivial(mc::hash_bytes(sg, sizeof sg));
    return;
  }
  for (size_t i = 0; i < n; i++) {
    if (k[5] == 0) {
      for (const Change &ch : changes) {
        C[i] = ch.use_set ? ch.set : R[i] + ch.add;
        if (!expect(ch.ok, "element (%d,%d): %.9g where the reference is %.9g", (int)(i / N), (int)(i % N), C[i], R[i])) return;
        C[i] = R[i];
      }
    } else if (k[5] == 1) {
      // a special value in the reference at i: through the operand that determines it
      for (float v : specials) {
        float oldR = R[i], oldA = 0, *pa = 0;
        if (w == 0) R[i] = v;
        else if (w == 2) { pa = &arr[K - 1][i]; oldA = *pa; *pa = v; }
        else { pa = &A[i / N * K]; oldA = *pa; *pa = v; }
        std::vector<float> keepC(C, C + n), ref(n);
        for (size_t j = 0; j < n; j++) {
          if (w == 0) ref[j] = R[j];
          else if (w == 2) { ref[j] = 0; for (int x = 0; x < K; x++) ref[j] += arr[x][j]; }
          else { ref[j] = 0; for (int x = 0; x < K; x++) ref[j] += A[j / N * K + x] * B[(size_t)x * N + j % N]; }
        }
        memcpy(C, ref.data(), n * 4);
        if (!expect(true, "an exact result with %g at (%d,%d)", ref[i], (int)(i / N), (int)(i % N))) return;
        for (float g : {0.0f, 1.5f, INF, -INF, (float)NAN, 3e38f, -3e38f}) {
          bool same = std::isnan(ref[i]) ? std::isnan(g) : std::isinf(ref[i]) ? g == ref[i] : fabsf(g - ref[i]) <= 0.0005f;
          if (!std::isnan(ref[i]) && !std::isinf(ref[i]) && !same && fabsf(g - ref[i]) < 0.002f) continue;
          C[i] = g;
          if (!expect(same, "element (%d,%d): %g where the reference is %g", (int)(i / N), (int)(i % N), g, ref[i])) return;
        }
        memcpy(C, keepC.data(), n * 4);
        R[i] = oldR;
        if (pa) *pa = oldA;
      }
    } else {
      // two wrong elements of opposite sign, next to each other and in the same column
      for (size_t j : {(i + 1) % n, (i + N) % n}) {
        if (j == i) continue;
        for (float e : {1.0f, -0.25f, 0.0015f}) {
          C[i] = R[i] + e;
          C[j] = R[j] - e;
          if (!expect(false, "errors of %g and %g at %zu and %zu", e, -e, i, j)) return;
          std::swap(C[i], C[j]);
          bool same = fabsf(C[i] - R[i]) <= 0.001f && fabsf(C[j] - R[j]) <= 0.001f;
          float d1 = fabsf(C[i] - R[i]), d2 = fabsf(C[j] - R[j]);
          bool near = fabsf(d1 - 0.001f) < 3e-5f || fabsf(d2 - 0.001f) < 3e-5f;
          if (!near && !expect(same, "swapped elements %zu and %zu", i, j)) return;
          C[i] = R[i];
          C[j] = R[j];
        }
      }
    }
  }
  long sg[] = {w, M, N, K, k[5]};
  nontrivial(mc::hash_bytes(sg, sizeof sg));
}
std::string describe(const Cfg &c) {
  static const char *wn[] = {"mat_equals", "cake_sgemm_checker", "add_checker"}, *kn[] = {"one element changed", "special values in the reference", "two elements changed", "many elements changed", "every interleaving", "one element changed in a large matrix"};
  char b[200];
  snprintf(b, sizeof b, "%s M=%ld N=%ld %s=%ld %d threads, %s", wn[c[0]], c[1], c[2], c[0] == 2 ? "matrices" : "K", c[3], (int)c[4], c[5] < 6 ? kn[c[5]] : "references of other magnitudes");
  return b;
}
std::string rule() {
#ifdef MC_TSAN
  return "delay-bounded exploration of each checker on an exact and on wrong results: every schedule with at most 2 (thorough: 3) departures, scheduling points at synchronisation operations and conflicting accesses";
#endif
  return "every shape up to the bound x every element position x 19 changes around the tolerance, special values in the result and in the reference, pairs of opposite errors, references of nine other magnitudes (0, 2^-40 to 2^100) mixed with small ones, and up to n wrong elements; the verdict compared with "
         "element-wise |difference| <= 0.001 (deviations within 4% of the tolerance are not judged); distinct_nontrivial counts distinct (checker, shape, kind)";
}
