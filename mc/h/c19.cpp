// C19: transposition
#include "explore.h"
const char *PROP = MC_PROP("C19");
// cfg: K N (every pair of tile parameters, team size and order)
static mc::GuardBuf a, b;
void worker_init() { a.init(8 << 20); b.init(8 << 20); }
void enumerate(const std::function<bool(const Cfg &)> &emit) {
#ifdef MC_TSAN
  std::vector<int> ds = {1, 7, 8, 9, 16, 17, 25};
  if (thorough) ds = {1, 2, 7, 8, 9, 15, 16, 17, 23, 24, 25, 33, 40, 65};
  for (int K : ds) for (int N : ds) for (int Kt : {1, 8, 16, 24}) for (int Nt : {1, 8, 16, 24}) for (int th = 2; th <= 4; th++) if (!emit(Cfg{K, N, Kt, Nt, th})) return;
  return;
#endif
  int top = thorough ? 56 : 34;
  for (int K = 1; K <= top; K++) for (int N = 1; N <= top; N++) if (!emit(Cfg{K, N})) return;
  for (auto x : {std::pair<int, int>{1, 65537}, {65537, 1}, {3, 20011}, {20011, 3}, {9, 65543}, {65543, 9}, {1000, 1001}, {513, 640}}) if (!emit(Cfg{x.first, x.second})) return;
  for (int K : {1, 7, 8, 63, 64, 65, 100, 128, 200, 257}) for (int N : {1, 7, 8, 63, 64, 65, 100, 128, 200, 257}) if (!emit(Cfg{K, N})) return;
}
void run_config(const Cfg &k) {
  int K = k[0], N = k[1];
  size_t n = (size_t)K * N;
  uint32_t *A = (uint32_t *)a.rw(n * 4, true);
  for (size_t i = 0; i < n; i++) A[i] = 0x3F000000u + (uint32_t)i * 3 + 1;
  A[n / 2] = 0x7FC00000u | 77;        // NaN payloads and signed zeros travel unchanged
  A[n - 1] = 0x80000000u;
  float *RA = (float *)a.ro(n * 4, true);
#ifdef MC_TSAN
  uint32_t *T = (uint32_t *)b.rw(n * 4, true);
  mc::pol = mc::Policy();
  interleavings(thorough ? 3 : 2, thorough ? 100000 : 2000, [&] {
    memset((char *)T - 4096, 0xA5, n * 4 + 4096);
    if (!mc::run([&] { mc::Cake in; omp_set_num_threads(k[4]); transpose_mat(RA, (float *)T, K, N, k[2], k[3]); })) return false;
    for (int x = 0; x < K; x++) for (int y = 0; y < N; y++)
      if (T[(size_t)y * K + x] != A[(size_t)x * N + y]) { mc::fail("in some interleaving of %d threads, element (%d,%d) of the result is 0x%08x, 0x%08x expected", (int)k[4], y, x, T[(size_t)y * K + x], A[(size_t)x * N + y]); return false; }
    for (int i = 1; i <= 1024; i++) if (T[-i] != 0xA5A5A5A5u) { mc::fail("in some interleaving of %d threads: write outside the result", (int)k[4]); return false; }
    return true;
  });
  nontrivial(mc::hash_bytes(k.v, sizeof k.v));
  return;
#endif
  std::vector<int> ts = {1, 5, 8, 9, 16, 24, 40};
  if (thorough) ts = {1, 2, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 40, 64, 100};
  if (n > 2000) ts = {8, 16, 64};
  for (int right = 0; right < 2; right++) {
    uint32_t *T = (uint32_t *)b.rw(n * 4, right);
    for (int Kt : ts) for (int Nt : ts) for (int cap = 1; cap <= 4; cap++) for (int o = 0; o < mc::ORDERS; o++) {
      if (cap == 1 && o) continue;
      if (right && (cap + o) % 2) continue;
      if (!thorough && n > 400 && (cap + o + Kt + Nt) % 3) continue;
      memset(b.rwbase, 0xA5, std::min(b.cap, n * 4 + 4096));
      memset((char *)T - (right ? 4096 : 0), 0xA5, n * 4 + (right ? 4096 : 0));
      mc::pol = mc::Policy();
      mc::pol.team_cap = cap;
      mc::pol.order = o;
      mc::reset_icv();
      mc::run([&] { mc::Cake in; omp_set_num_threads(cap); transpose_mat(RA, (float *)T, K, N, Kt, Nt); });
      count("transpositions");
      if (mc::failed()) return;
      for (int x = 0; x < K; x++) for (int y = 0; y < N; y++)
        if (T[(size_t)y * K + x] != A[(size_t)x * N + y]) {
          mc::fail("tile %dx%d, %d threads order %d: element (%d,%d) of the result is 0x%08x, 0x%08x expected", Kt, Nt, cap, o, y, x, T[(size_t)y * K + x], A[(size_t)x * N + y]);
          return;
        }
      unsigned char *q = right ? (unsigned char *)T - 4096 : (unsigned char *)T + n * 4;
      for (int i = 0; i < 4096; i++) if (q[i] != 0xA5) { mc::fail("tile %dx%d: write outside the result", Kt, Nt); return; }
      long sg[] = {K % 8, N % 8, (K + 7) / 8, (N + 7) / 8, Kt / 8, Nt / 8, cap, o};
      nontrivial(mc::hash_bytes(sg, sizeof sg));
    }
  }
}
std::string describe(const Cfg &c) {
  char b[200];
#ifdef MC_TSAN
  snprintf(b, sizeof b, "transpose_mat K=%ld N=%ld Kt=%ld Nt=%ld, every interleaving of %ld threads with a bounded number of departures", c[0], c[1], c[2], c[3], c[4]);
  return b;
#endif
  snprintf(b, sizeof b, "transpose_mat K=%ld N=%ld, all tile parameters, 1-4 threads in every order", c[0], c[1]);
  return b;
}
std::string rule() {
#ifdef MC_TSAN
  return "conflict detection by vector clocks and delay-bounded exploration: every schedule with at most 2 (thorough: 3) departures from run-to-completion, scheduling points at synchronisation operations and at every location two threads access without order; every result compared";
#endif
  return "every K and N up to the bound (and production sizes) x tile parameters x team size 1-4 x thread order, input read-only, output against an inaccessible page on either side; bits of every element and of the "
         "surroundings compared; distinct_nontrivial counts distinct (remainders, numbers of 8x8 tiles, tile parameters, team, order)";
}
