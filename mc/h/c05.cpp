// C05: no unordered conflicting accesses in any parallel region
#include "explore.h"
#include "race_toys.h"
const char *PROP = MC_PROP("C05");
// cfg: mode ...
//   0: multiply   machine tile route M N K p alpha beta
//   1: pack/unpack  machine tile sched M N K p what(0 A, 1 B, 2 C, 3 unpack C, 4 A and 5 B with the panel packers)
//   2: transpose  K N Kt Nt threads
//   3: checkers   which M N K threads
//   4: engine self-test
static mc::GuardBuf a, b, c, d;
void worker_init() { a.init(1 << 20); b.init(1 << 20); c.init(1 << 20); d.init(1 << 21); }

void enumerate(const std::function<bool(const Cfg &)> &emit) {
  for (int t = 0; t < TOYS; t++) if (!emit(Cfg{4, t})) return;
  std::vector<int> Ms = {1, 6, 7, 13, 20, 25, 37, 50}, Ns = {1, 16, 17, 33, 49, 70}, Ks = {1, 2, 6, 7, 13, 25};
  if (thorough) { Ms = {1, 5, 6, 7, 8, 9, 12, 13, 17, 18, 19, 24, 25, 31, 37, 48, 49, 61, 73, 97}; Ns = {1, 15, 16, 17, 31, 32, 33, 48, 49, 64, 65, 81, 97, 129}; Ks = {1, 2, 3, 5, 6, 7, 12, 13, 18, 19, 25, 37, 49}; }
  for (int m : {M_T1, M_T2, M_T3, M_T5}) for (int t = 0; t < 4; t++) for (int p : thorough ? std::vector<int>{2, 3, 4, 5, 6, 7, 8} : std::vector<int>{2, 3, 4, 6, 8})
    for (int M : Ms) for (int N : Ns) for (int K : Ks) {
      if (t && !thorough && (M + N + K + m + p) % 5) continue;
      for (int r = 0; r < ROUTES; r++) if (r != R_AUTO) if (!emit(Cfg{0, m, t, r, M, N, K, p, 1, 0})) return;
      if ((M + N + K + p) % 4 == 0) for (int r = 0; r < ROUTES; r++) if (r != R_AUTO) if (!emit(Cfg{0, m, t, r, M, N, K, p, 2, -1})) return;
    }
  for (int m : {M_DESK, MC_PI}) for (int p : {2, 3, 4}) for (int r = 0; r < ROUTES; r++) for (int M : {97, 301}) for (int N : {65, 200}) for (int K : {40, 130})
    if (!emit(Cfg{0, m, 0, r, M, N, K, p, 1, 0})) return;
  for (int m : {M_T1, M_T2, M_T3, M_T5}) for (int t : {0, 3}) for (int s = 0; s < 3; s++) for (int p : {2, 3, 4, 5, 8}) for (int M : Ms) for (int N : Ns) for (int K : {1, 2, 7, 13}) for (int w = 0; w < (s == KMN ? 6 : 4); w++) {
    if ((w == 0 || w == 4) && N != 1) continue;
    if ((w == 1 || w == 5) && M != 1) continue;
    if ((w == 2 || w == 3) && K != 1) continue;
    if (!emit(Cfg{1, m, t, s, M, N, K, p, w})) return;
  }
  std::vector<int> kn = thorough ? std::vector<int>{1, 3, 7, 8, 9, 15, 16, 17, 23, 24, 25, 33, 40, 41} : std::vector<int>{1, 7, 8, 9, 16, 17, 24, 25, 33};
  for (int K : kn) for (int N : kn) for (int kt : {0, 8, 9, 16, 24, 64}) for (int nt : {0, 8, 15, 16, 24, 64}) for (int th : {2, 3, 4, 8}) if (!emit(Cfg{2, K, N, kt, nt, th})) return;
  for (int w = 0; w < 3; w++) for (int M : {1, 5, 16, 33}) for (int N : {1, 7, 16, 34}) for (int K : {1, 2, 9}) for (int th : {2, 3, 4, 8}) if (!emit(Cfg{3, w, M, N, K, th})) return;
}

static void judge() {
  if (mc::failed()) return;
  count("accesses", mc::st.accesses);
  count("switches", mc::st.switches);
  count("parallel regions", mc::st.regions);
  count("regions with several threads", mc::st.max_team > 1);
  count("schedules");
  count("states", mc::st.regions * mc::st.max_team);
  if (mc::conflicts_seen.empty()) return;
  auto &x = mc::conflicts_seen[0];
  Dl_info di;
  const char *fn = x.pc && dladdr(x.pc, &di) && di.dli_sname ? di.dli_sname : "?";
  const char *where = x.addr >= (uintptr_t)c.rwbase && x.addr < (uintptr_t)c.rwbase + c.cap ? "C" :
                      x.addr >= (uintptr_t)d.rwbase && x.addr < (uintptr_t)d.rwbase + d.cap ? "the packed buffer" :
                      x.addr >= (uintptr_t)mc::arena_lo && x.addr < (uintptr_t)mc::arena_hi ? "a shared variable or working buffer" : "a global variable";
  mc::fail("data race: threads %d (%s) and %d (%s) access %s without order, in %s (%ld conflicts)", x.a % 8, x.wa ? "write" : "read", x.b % 8, x.wb ? "write" : "read", where, fn, mc::st.conflicts);
}

void run_config(const Cfg &k) {
  mc::pol = mc::Policy();
  mc::reset_icv();
  mc::watch.clear();
  mc::races_on = true;
  nontrivial(mc::hash_bytes(k.v, sizeof k.v));
  if (k[0] == 4) { toy_selftest(k[1]); return; }
  if (k[0] == 0) {
    int M = k[4], N = k[5], K = k[6], p = k[7];
    float *A = (float *)a.rw((size_t)M * K * 4, true), *B = (float *)b.rw((size_t)K * N * 4, true), *C = (float *)c.rw((size_t)M * N * 4, true);
    cake_cntx_t ctx;
    make_cntx(&ctx, k[1], k[2]);
    mc::run([&] { multiply(k[3], A, B, C, M, N, K, p, &ctx, 0, 0, k[8], k[9]); });
  } else if (k[0] == 1) {
    int M = k[4], N = k[5], K = k[6], p = k[7], s = k[3];
    cake_cntx_t ctx;
    make_cntx(&ctx, k[1], k[2]);
    blk_dims_t x;
    memset(&x, 0, sizeof x);
    mc::races_on = false;
    init_block_dims(M, N, K, p, &x, &ctx, (enum sched)s, NULL);
    mc::races_on = true;
    float *A = (float *)a.rw((size_t)M * K * 4, true), *B = (float *)b.rw((size_t)K * N * 4, true), *C = (float *)c.rw((size_t)M * N * 4, true);
    size_t sz = k[8] % 4 == 0 ? cake_sgemm_packed_A_size(M, K, p, &x, &ctx, (enum sched)s) : k[8] % 4 == 1 ? cake_sgemm_packed_B_size(K, N, p, &x, &ctx) : cake_sgemm_packed_C_size(M, N, p, &x, &ctx, (enum sched)s);
    if (sz > d.cap) return;
    float *P = (float *)d.rw((sz + 63) / 64 * 64, false);
    if (k[8] == 3) memset(P, 0, sz);
    mc::run([&] {
      mc::Cake in;
      omp_set_num_threads(p);
      if (k[8] == 0) pack_A(A, P, M, K, p, &x, &ctx, (enum sched)s);
      else if (k[8] == 1) pack_B(B, P, K, N, p, &x, &ctx, (enum sched)s);
      else if (k[8] == 2) pack_C(C, P, M, N, p, &x, &ctx, (enum sched)s);
      else if (k[8] == 4) pack_A_single_buf_k_first_blis(A, P, M, K, p, &x, &ctx);
      else if (k[8] == 5) pack_B_k_first_blis(B, P, K, N, &x, &ctx);
      else unpack_C(C, P, M, N, p, &x, &ctx, (enum sched)s, 2, -1);
    });
  } else if (k[0] == 2) {
    int K = k[1], N = k[2];
    float *A = (float *)a.rw((size_t)K * N * 4, true), *C = (float *)c.rw((size_t)K * N * 4, true);
    mc::run([&] { mc::Cake in; omp_set_num_threads(k[5]); transpose_mat(A, C, K, N, k[3], k[4]); });
  } else {
    int M = k[2], N = k[3], K = k[4], th = k[5];
    float *A = (float *)a.rw((size_t)M * K * 4, true), *B = (float *)b.rw((size_t)K * N * 4, true), *C = (float *)c.rw((size_t)M * N * 4, true), *D = (float *)d.rw((size_t)M * N * 4 * 2, true);
    memset(A, 0, (size_t)M * K * 4); memset(B, 0, (size_t)K * N * 4); memset(C, 0, (size_t)M * N * 4); memset(D, 0, (size_t)M * N * 4 * 2);
    float *arr[2] = {D, D + M * N};
    mc::run([&] {
      mc::Cake in;
      omp_set_num_threads(th);
      if (k[1] == 0) mat_equals(C, D, M, N);
      else if (k[1] == 1) cake_sgemm_checker(A, B, C, N, M, K);
      else add_checker(arr, C, M, N, 2);
    });
  }
  mc::races_on = false;
  judge();
}
std::string describe(const Cfg &k) {
  char s[300];
  switch (k[0]) {
    case 0: snprintf(s, sizeof s, "%s M=%ld N=%ld K=%ld p=%ld tile=%dx%d machine=%s alpha=%ld beta=%ld", route_name[k[3]], k[4], k[5], k[6], k[7], tiles[k[2]][0], tiles[k[2]][1], machines[k[1]].name, k[8], k[9]); break;
    case 1: { static const char *w[] = {"pack_A", "pack_B", "pack_C", "unpack_C", "pack_A_single_buf_k_first_blis", "pack_B_k_first_blis"}; snprintf(s, sizeof s, "%s %s M=%ld N=%ld K=%ld p=%ld tile=%dx%d machine=%s", w[k[8]], route_name[k[3]] + 11, k[4], k[5], k[6], k[7], tiles[k[2]][0], tiles[k[2]][1], machines[k[1]].name); break; }
    case 2: snprintf(s, sizeof s, "transpose_mat K=%ld N=%ld Kt=%ld Nt=%ld threads=%ld", k[1], k[2], k[3], k[4], k[5]); break;
    case 3: { static const char *w[] = {"mat_equals", "cake_sgemm_checker", "add_checker"}; snprintf(s, sizeof s, "%s M=%ld N=%ld K=%ld threads=%ld", w[k[1]], k[2], k[3], k[4], k[5]); break; }
    default: return std::string("engine self-test ") + toy_name(k[1]);
  }
  return s;
}
std::string rule() {
  return "each configuration runs the instrumented library once with the full team; vector clocks over every load and store (4-byte granules, split to bytes where needed) decide whether any two "
         "accesses of different threads conflict without order, which covers all interleavings of that run's regions; every configuration is a distinct case; engine self-tests with known races come first";
}
