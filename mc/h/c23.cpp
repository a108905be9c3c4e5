// C23: several user threads calling at the same time
#include "explore.h"
const char *PROP = MC_PROP("C23");
// cfg: machine users bound (op shape p tile)^users
enum { O_NULL = ROUTES, O_USER, O_PACKED, O_PACK, O_TRANSPOSE, O_CHECK, O_TILES, OPS };
static const char *op_name[] = {"cake_sgemm without a context", "cake_sgemm with user tiles", "cake_sgemm with packed operands", "packing and unpacking", "transpose_mat", "the checkers", "tile selection and cake_sgemm"};
static const char *opn(int o) { return o < ROUTES ? route_name[o] : op_name[o - ROUTES]; }
static const int shp[][3] = {{7, 17, 7}, {13, 33, 5}, {25, 17, 13}, {20, 50, 9}, {1, 1, 1}};
static mc::GuardBuf a, b, c[mc::MAXU], pa[mc::MAXU], pb[mc::MAXU], pc[mc::MAXU];
static std::vector<float> solo[mc::MAXU];
static long solo_req[mc::MAXU];
static cake_cntx_t ctx[mc::MAXU], ctx0[mc::MAXU];
void worker_init() {
  a.init(1 << 16); b.init(1 << 16);
  for (int u = 0; u < mc::MAXU; u++) { c[u].init(1 << 16); pa[u].init(1 << 18); pb[u].init(1 << 18); pc[u].init(1 << 18); }
  hang_limit(200);
}
void enumerate(const std::function<bool(const Cfg &)> &emit) {
  std::vector<int> ms = {M_T1, M_T2, M_T5};
  for (int m : ms) for (int o = 0; o < OPS; o++) for (int q = o; q < OPS; q++) for (int s = 0; s < 4; s++) for (int s2 = 0; s2 < 4; s2++) for (int p = 1; p <= 4; p++) for (int p2 = 1; p2 <= 4; p2++) {
    bool keep = (7 * s + 5 * s2 + 3 * p + 11 * p2 + o + q + m) % 17 == 0 || (o == O_NULL && q == O_NULL && m != M_T2 && p == 2) || (o == q && s == 0 && s2 == 1 && p == 2 && p2 == 3);
    if (!thorough && !keep) continue;
    if ((o == O_NULL || q == O_NULL) && (s + s2 || p + p2 != 5)) continue;
    int t = (s + p) % 4, t2 = (s2 + p2 + o) % 4;
    if (!emit(Cfg{m, 2, thorough ? 2 : 1, o, s, p, t, q, s2, p2, t2})) return;
  }
  // every pair of calls, deeper
  for (int m : {M_T1, M_T2}) for (int o = 0; o < OPS; o++) for (int q = o; q < OPS; q++) for (int p = 1; p < 3; p++) {
    if (o == O_NULL || q == O_NULL) continue;
    if (!thorough && (o + q + p + m) % 4) continue;
    if (!emit(Cfg{m, 2, thorough ? 3 : 2, o, 0, p, (o + q) % 4, q, 4 * (p - 1), 3 - p, q % 4})) return;
  }
  // three at once
  for (int m : ms) for (int o = 0; o < OPS; o++) for (int q = o; q < OPS; q++) for (int r = q; r < OPS; r++) {
    if (o == O_NULL || q == O_NULL || r == O_NULL) continue;
    if (!thorough && (o + 3 * q + 5 * r + m) % 9) continue;
    if (!emit(Cfg{m, 3, 1, o, 0, 1 + o % 3, 0, q, 1, 1 + q % 3, 1, r, 4, 2, 2})) return;
  }
}
static cake_cntx_t *over[mc::MAXU];   // context shared by calls made one after another
static int K_(const Cfg &k, int u, int f) { return k[3 + 4 * u + f]; }
// threads 0 and 1 have different machines in half of the cases
static int machine_of(const Cfg &k, int u) { return u == 1 && (k[4] + k[5]) % 2 ? (k[0] == M_T1 ? M_T2 : M_T1) : k[0]; }
static void call(const Cfg &k, int u) {
  int o = K_(k, u, 0), *x = (int *)shp[K_(k, u, 1)], p = K_(k, u, 2), M = x[0], N = x[1], K = x[2];
  float *A = (float *)a.rwbase, *B = (float *)b.rwbase, *C = (float *)c[u].rw((size_t)M * N * 4, true);
  float *PA = (float *)pa[u].rwbase, *PB = (float *)pb[u].rwbase, *PC = (float *)pc[u].rwbase;
  cake_cntx_t *cx = over[u] ? over[u] : &ctx[u];
  mc::Cake in;
  if (o < ROUTES) { multiply(o, A, B, C, M, N, K, p, cx); return; }
  switch (o) {
    case O_NULL: cake_sgemm(A, B, C, M, N, K, p, NULL, NULL, 0, 0, 1, 0, (enum sched)(u % 3)); return;
    case O_USER: multiply(p % ROUTES, A, B, C, M, N, K, p, cx, 0, 0, 1, 0, 24, 5, 32); return;
    case O_TILES: for (int t = 0; t < 4; t++) { update_mr_nr(cx, tiles[t][0], tiles[t][1]); multiply((p + t) % ROUTES, A, B, C, M, N, K, p, cx); } return;
    case O_TRANSPOSE: omp_set_num_threads(p); transpose_mat(B, C, N, M, 8, 8); return;
    case O_CHECK: {
      omp_set_num_threads(p);
      memset(C, 0, (size_t)M * N * 4);
      float *arr[2] = {PA, PB};
      float r[3] = {(float)cake_sgemm_checker(PA, PB, C, N, M, K), (float)mat_equals(PC, C, M, N), (float)add_checker(arr, C, M, N, 2)};
      for (int i = 0; i < std::min(3, M * N); i++) C[i] = r[i];
      return;
    }
  }
  enum sched s = (enum sched)(p % 3);
  blk_dims_t y;
  init_block_dims(M, N, K, p, &y, cx, s, NULL, 4, 0, 0, 0);
  omp_set_num_threads(p);
  pack_A(A, PA, M, K, p, &y, cx, s);
  pack_B(B, PB, K, N, p, &y, cx, s);
  multiply(s, PA, PB, C, M, N, K, p, cx, true, true);
  if (o == O_PACK) {
    pack_C(C, PC, M, N, p, &y, cx, s);
    for (int i = 0; i < M * N; i++) C[i] = 0;
    unpack_C(C, PC, M, N, p, &y, cx, s, 1, 0);
  }
}
static void reset(const Cfg &k, int users) {
  for (int u = 0; u < users; u++) {
    ctx[u] = ctx0[u];
    memset(c[u].rwbase, 0xFF, c[u].cap);
    memset(pa[u].rwbase, 0, pa[u].cap); memset(pb[u].rwbase, 0, pb[u].cap); memset(pc[u].rwbase, 0, pc[u].cap);
  }
  mc::reset_icv();
}
static size_t elems(const Cfg &k, int u) { const int *x = shp[K_(k, u, 1)]; return (size_t)x[0] * x[1]; }
static bool same(const Cfg &k, int u, const char *when) {
  size_t n = elems(k, u);
  float *C = (float *)c[u].rw(n * 4, true);
  if (memcmp(C, solo[u].data(), n * 4)) {
    for (size_t i = 0; i < n; i++) if (memcmp(&C[i], &solo[u][i], 4)) { mc::fail("user thread %d (%s): element %ld is %.9g %s, %.9g alone", u, opn(K_(k, u, 0)), (long)i, C[i], when, solo[u][i]); break; }
    return false;
  }
  char *base = c[u].rwbase;
  for (char *q = base; q < (char *)C; q++) if (*q != (char)0xFF) { mc::fail("user thread %d (%s): memory around C written %s", u, opn(K_(k, u, 0)), when); return false; }
  return true;
}
void run_config(const Cfg &k) {
  int users = k[1];
  mc::pol = mc::Policy();
  mc::watch.clear();
  mc::races_on = false;
  bool nullctx = false;
  for (int u = 0; u < users; u++) { make_cntx(&ctx0[u], machine_of(k, u), K_(k, u, 3)); nullctx |= K_(k, u, 0) == O_NULL; }
  if (nullctx) set_machine(machines[k[0]]);
  static bool filled = false;
  if (!filled) {
    filled = true;
    for (int i = 0; i < 1 << 14; i++) { ((float *)a.rwbase)[i] = ((int)(mix(i, 1, seed) >> 8) - (1 << 23)) / 8388608.0f; ((float *)b.rwbase)[i] = ((int)(mix(i, 2, seed) >> 8) - (1 << 23)) / 8388608.0f; }
  }
  // each alone
  size_t live = mc::live_count();
  for (int u = 0; u < users && !mc::failed(); u++) {
    reset(k, users);
    mc::run([&] { call(k, u); });
    solo_req[u] = mc::st.max_req;
    float *C = (float *)c[u].rw(elems(k, u) * 4, true);
    solo[u].assign(C, C + elems(k, u));
  }
  if (mc::failed()) { if (nullctx) unset_machine(); return; }
  long base_live = mc::live_count() - live;
  // one after another on different threads, sharing a context where the calls use one of the same machine
  for (int order = 0; order < 2 && !mc::failed(); order++) {
    reset(k, users);
    for (int i = 0; i < users && !mc::failed(); i++) {
      int u = order ? users - 1 - i : i;
      std::vector<std::function<void()>> f(users, [] {});
      if (order && (u == 0 || machine_of(k, u) == machine_of(k, 0))) { over[u] = &ctx[0]; update_mr_nr(&ctx[0], tiles[K_(k, u, 3)][0], tiles[K_(k, u, 3)][1]); }
      f[u] = [&k, u] { call(k, u); };
      mc::run(f);
      if (!mc::failed()) same(k, u, "when called after another thread's calls");
    }
    for (int u = 0; u < users; u++) over[u] = 0;
  }
  std::vector<std::function<void()>> all;
  for (int u = 0; u < users; u++) all.push_back([&k, u] { call(k, u); });
  // unordered conflicting accesses of different user threads
  if (!mc::failed()) {
    reset(k, users);
    mc::races_on = true;
    mc::run(all);
    mc::races_on = false;
    for (auto &x : mc::conflicts_seen)
      if (x.a / 8 != x.b / 8 && !mc::failed()) {
        Dl_info di;
        mc::fail("user threads %d (%s) and %d (%s) access the same memory without order, in %s", x.a / 8, x.wa ? "write" : "read", x.b / 8, x.wb ? "write" : "read", x.pc && dladdr(x.pc, &di) && di.dli_sname ? di.dli_sname : "?");
      }
    count("accesses", mc::st.accesses);
  }
  if (!mc::failed()) for (int u = 0; u < users; u++) if (!same(k, u, "with others at the same time")) break;
  if (!mc::failed() && !(nullctx && (K_(k, 0, 2) + k[0]) % 3)) {
    auto e = explore(nullctx ? 1 : k[2], nullctx ? 20 : thorough ? 20000 : 1500, [&] {
      reset(k, users);
      mc::run(all);
      if (mc::failed()) return false;
      for (int u = 0; u < users; u++) {
        if (!same(k, u, "with others at the same time")) return false;
        if (mc::st.user_req[u] != solo_req[u]) { mc::fail("user thread %d (%s, p=%d) asks for teams of up to %ld threads with others at the same time, %ld alone", u, opn(K_(k, u, 0)), K_(k, u, 2), mc::st.user_req[u], solo_req[u]); return false; }
      }
      return true;
    });
    count("schedules", e.runs);
    count("switches", e.transitions);
    count("states", e.states);
    count(e.complete ? "configurations explored completely" : "configurations cut off");
  }
  if (!mc::failed() && base_live == 0 && mc::live_count() != live) mc::fail("concurrent calls leave %ld blocks allocated, calls alone none", (long)(mc::live_count() - live));
  if (nullctx) unset_machine();
  nontrivial(mc::hash_bytes(k.v, sizeof k.v));
}
std::string describe(const Cfg &k) {
  std::string s = std::string(machines[k[0]].name) + ":";
  for (int u = 0; u < k[1]; u++) {
    const int *x = shp[K_(k, u, 1)];
    char t[300];
    snprintf(t, sizeof t, "%s thread %d: %s M=%d N=%d K=%d p=%d tile %dx%d", u ? ";" : "", u, opn(K_(k, u, 0)), x[0], x[1], x[2], K_(k, u, 2), tiles[K_(k, u, 3)][0], tiles[K_(k, u, 3)][1]);
    s += t;
  }
  return s + ", all schedules with at most " + std::to_string(k[2]) + " departures";
}
std::string rule() {
  return "two or three user threads, each with its own context and output and shared inputs, over pairs and triples of calls: alone, one after another on different threads, together under vector-clock conflict detection, and under all schedules with a bounded number of departures "
         "(scheduling points at parallel regions, synchronisation and conflicting accesses); bits of C, teams asked for and the allocation ledger compared with the calls alone; every configuration is a distinct case";
}
