// C04: bits of C for every team size, completion order and interleaving
#include "explore.h"
#include "race_toys.h"
const char *PROP = MC_PROP("C04");
// cfg: mode machine tile route M N K p bound
//   mode 0: team sizes x orders x nesting; mode 1: delay-bounded exploration of schedules; mode 2: engine self-test
static mc::GuardBuf a, b, c;
static std::vector<float> base;
void worker_init() { a.init(8 << 20); b.init(8 << 20); c.init(8 << 20); mc::set_free_protect(false); }
static float fl(uint32_t h) { return ((int)(h >> 8) - (1 << 23)) / 8388608.0f * (1 + (h & 7)); }

void enumerate(const std::function<bool(const Cfg &)> &emit) {
  for (int t = 0; t < TOYS; t++) if (!emit(Cfg{2, t})) return;
  std::vector<int> Ms = {1, 7, 13, 25, 37}, Ns = {1, 17, 33, 49}, Ks = {1, 7, 13, 25};
#ifndef MC_TSAN
  if (thorough) { Ms = {1, 5, 6, 7, 12, 13, 19, 25, 31, 37, 49, 73}; Ns = {1, 15, 16, 17, 32, 33, 49, 65, 97}; Ks = {1, 2, 6, 7, 12, 13, 25, 31, 49}; }
  for (int m : {M_T1, M_T2, M_T3, M_T5}) for (int t : {0, 3}) for (int p : thorough ? std::vector<int>{1, 2, 3, 4, 5, 6, 8, 12} : std::vector<int>{2, 3, 4, 6, 8})
    for (int M : Ms) for (int N : Ns) for (int K : Ks) for (int r = 0; r < ROUTES; r++) {
      if (t && (M + N + K) % 4 && !thorough) continue;
      if (!emit(Cfg{0, m, t, r, M, N, K, p})) return;
    }
  // production caches
  for (int m : {M_DESK, MC_PI}) for (int p : {2, 3, 4}) for (int r = 0; r < ROUTES; r++) for (int M : {100, 301}) for (int N : {65, 200}) for (int K : {40, 130})
    if (!emit(Cfg{0, m, 0, r, M, N, K, p})) return;
  for (const Far &f : far_shapes) for (int p : {2, 16}) for (int r = 0; r < ROUTES; r++) if (!emit(Cfg{0, M_DESK, 0, r, f.M, f.N, f.K, p})) return;
#else
  for (int m : {M_T1, M_T2, M_T3, M_T5}) for (int t : {0, 2}) for (int p : {2, 3, 4, 5, 8}) for (int M : {1, 7, 13, 25}) for (int N : {5, 17, 33}) for (int K : {3, 7, 13}) for (int r = 0; r < ROUTES; r++) {
    int work = p * (M / 6 + 1) * (N / 16 + 1) * (K / 6 + 1);
    if (t && (M + N + K + p) % 3) continue;
    if (!thorough && work > 60) continue;
    if (!emit(Cfg{1, m, t, r, M, N, K, p, work <= (thorough ? 60 : 40) ? 2 : 1})) return;
  }
  // every departure pattern of the smallest multi-block calls
  for (int m : {M_T1, M_T2}) for (int p : {2, 3}) for (int r = 0; r < ROUTES; r++) for (int K : {3, 7}) if (!emit(Cfg{1, m, 0, r, 7, 17, K, p, thorough ? 4 : 3})) return;
#endif
}

static int M, N, K;
static float *A, *B, *C;
static void setup() {
  A = (float *)a.rw((size_t)M * K * 4, true);
  B = (float *)b.rw((size_t)K * N * 4, true);
  C = (float *)c.rw((size_t)M * N * 4, true);
  for (int i = 0; i < M * K; i++) A[i] = fl(mix(i, M, seed));
  for (int i = 0; i < N * K; i++) B[i] = fl(mix(i, N, seed + 7));
}
static bool call(const Cfg &k, bool first, const char *how) {
  cake_cntx_t ctx;
  make_cntx(&ctx, k[1], k[2]);
  memset(C, 0xFF, (size_t)M * N * 4);
  if (!mc::run([&] { multiply(k[3], A, B, C, M, N, K, k[7], &ctx); })) return false;
  if (first) { base.assign(C, C + (size_t)M * N); return true; }
  if (!memcmp(base.data(), C, (size_t)M * N * 4)) return true;
  for (int i = 0; i < M * N; i++)
    if (memcmp(&base[i], &C[i], 4)) { mc::fail("C[%d][%d] = %.9g, but %.9g with %s", i / N, i % N, base[i], C[i], how); break; }
  return false;
}

void run_config(const Cfg &k) {
  mc::pol = mc::Policy();
  mc::reset_icv();
  if (k[0] == 2) { toy_selftest(k[1]); return; }
  M = k[4]; N = k[5]; K = k[6];
  int p = k[7];
  setup();
  if (k[0] == 0) {
    call(k, true, "");
    if (mc::failed()) return;
    char how[200];
    for (int inr = 0; inr < 2; inr++) for (int cap = 1; cap <= p; cap++) for (int o = 0; o < mc::ORDERS; o++) for (int nested = 0; nested < 1 + inr; nested++) {
      if (inr && !nested && cap > 1) continue;  // a nested region is inactive: one thread whatever the cap
      if (cap == 1 && o) continue;
      mc::pol = mc::Policy();
      mc::pol.team_cap = cap;
      mc::pol.order = o;
      mc::pol.in_region = inr;
      mc::pol.nested = nested;
      snprintf(how, sizeof how, "teams of at most %d threads%s, order %d", cap, inr ? nested ? " inside a parallel region with nested parallelism" : " inside a parallel region" : "", o);
      mc::reset_icv();
      if (!call(k, false, how)) return;
      count("schedules");
      count("switches", mc::st.switches);
      count("states", mc::st.regions * cap);
      nontrivial(mc::hash_bytes(how, strlen(how), mc::hash_bytes(k.v, sizeof k.v)));
    }
    mc::pol = mc::Policy();
    return;
  }
#ifdef MC_TSAN
  bool first = true;
  interleavings(k[8], thorough ? 200000 : 4000, [&] {
    bool f = first;
    first = false;
    return call(k, f, "another interleaving of the same team");
  });
  nontrivial(mc::hash_bytes(k.v, sizeof k.v));
#endif
}
std::string describe(const Cfg &c) {
  char b[300];
  if (c[0] == 2) return std::string("engine self-test ") + toy_name(c[1]);
  snprintf(b, sizeof b, "%s M=%ld N=%ld K=%ld p=%ld tile=%dx%d machine=%s, %s", route_name[c[3]], c[4], c[5], c[6], c[7], tiles[c[2]][0], tiles[c[2]][1], machines[c[1]].name,
           c[0] ? "all schedules with a bounded number of departures from the default" : "every team size, order and nesting");
  return b;
}
std::string rule() {
#ifdef MC_TSAN
  return "delay-bounded exhaustive exploration: all schedules with at most 1-2 departures from run-to-completion, scheduling points at region starts and ends, at every synchronisation "
         "operation of the OpenMP runtime and at every location two threads access without order (found by vector clocks); the bits of C of each compared with the default schedule";
#else
  return "every configuration is run once with the full team and again for every team size 1..p, four thread orders (ascending, descending, odd threads first, round robin at synchronisation "
         "operations), outside and inside a parallel region with and without nested parallelism; inputs are not exactly representable sums, the bits of C are compared; "
         "distinct_nontrivial counts (configuration, schedule policy) pairs that differ from the default";
#endif
}
