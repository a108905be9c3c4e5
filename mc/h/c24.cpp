// C24: team sizes requested from the OpenMP runtime
#include "common.h"
const char *PROP = MC_PROP("C24");
// cfg: machine len (route p shape)^len
//   shapes: 0 one tile, 1 a few blocks, 2 many blocks, 3 wide
static const int shp[][3] = {{1, 1, 1}, {13, 33, 7}, {49, 65, 25}, {7, 97, 13}, {700, 20, 9}, {20, 900, 9}, {30, 40, 1500}};
static mc::GuardBuf a, b, c;
void worker_init() { a.init(1 << 21); b.init(1 << 21); c.init(1 << 21); for (long i = 0; i < 1 << 19; i++) ((float *)a.rwbase)[i] = ((float *)b.rwbase)[i] = 1; }
// routes 6..: pre-packed A and B, NULL context, user tiles, checker, transpose, packing
enum { PREPACKED = ROUTES, NULLCTX, USER, OTHERS };
void enumerate(const std::function<bool(const Cfg &)> &emit) {
  std::vector<int> ps = {1, 2, 3, 4, 5, 8, 24};
  int S = 4, ALL = 7, T = OTHERS;
  for (int m : {M_T1, M_T2, M_DESK, M_SRV}) {
    // single calls with every p
    for (int r = 0; r < T; r++) for (int p = 1; p <= (thorough ? 64 : 20); p++) for (int s = 0; s < ALL; s++) if (r == NULLCTX && (p > 6 || s % 2)) continue; else if (!emit(Cfg{m, 1, r, p, s})) return;
    for (int r = 0; r < T; r++) for (int p : {24, 31, 32, 33, 48, 64, 65, 96, 127, 128, 200, 256}) for (int s = 0; s < ALL; s++) if (r == NULLCTX && s % 3) continue; else if (!emit(Cfg{m, 1, r, p, s})) return;
    // all pairs
    for (int r = 0; r < T; r++) for (int q = 0; q < T; q++) for (int p : ps) for (int p2 : ps) for (int s = 0; s < S; s++) {
      if ((r == NULLCTX || q == NULLCTX) && (p + 3 * p2 + 5 * s + r + q) % (thorough ? 8 : 60)) continue;
      if (!thorough && (r + q + p + p2 + s) % 2) continue;
      if (!emit(Cfg{m, 2, q, p2, (s + 1) % S, r, p, s})) return;
    }
    // all triples of worker counts (and longer histories of it)
    for (int r = 0; r < T; r++) for (int p : ps) for (int p2 : ps) for (int p3 : ps) {
      if ((r == NULLCTX || (r + 1) % T == NULLCTX) && (p + p2 * 3 + p3 * 5 + m) % (thorough ? 10 : 60)) continue;
      if (!emit(Cfg{m, 3, r, p3, 1, (r + 1) % T, p2, 2, r, p, 1})) return;
      if (thorough) for (int p4 : ps) if ((r + 2) % T == NULLCTX && p4 % 4) continue; else if (!emit(Cfg{m, 4, (r + 2) % T, p4, 2, r, p3, 1, (r + 1) % T, p2, 2, r, p, 1})) return;
    }
  }
}
static cake_cntx_t ctx;
static long call(int r, int p, int s) {
  int M = shp[s][0], N = shp[s][1], K = shp[s][2];
  float *A = (float *)a.rwbase, *B = (float *)b.rwbase, *C = (float *)c.rwbase;
  mc::run([&] {
    if (r < ROUTES) multiply(r, A, B, C, M, N, K, p, &ctx);
    else if (r == PREPACKED) multiply(p % 3, A, B, C, M, N, K, p, &ctx, true, true);   // contents do not matter here
    else if (r == NULLCTX) { mc::Cake in; cake_sgemm(A, B, C, M, N, K, p, NULL, NULL, 0, 0, 1, 0, (enum sched)(p % 3)); }
    else multiply(p % ROUTES, A, B, C, M, N, K, p, &ctx, 0, 0, 1, 0, 24, 5, 32);
  });
  return mc::st.max_req;
}
void run_config(const Cfg &k) {
  int len = k[1];
  mc::pol = mc::Policy();
  bool queries = false;
  for (int i = 0; i < len; i++) queries |= k[2 + 3 * i] == NULLCTX;
  cake_cntx_t start;
  make_cntx(&start, k[0], 0);
  std::vector<long> sg = {k[0]};
  if (queries) set_machine(machines[k[0]]);
  ctx = start;
  for (int i = 0; i < len && !mc::failed(); i++) {
    int r = k[2 + 3 * i], p = k[3 + 3 * i], s = k[4 + 3 * i];
    if (i == 0) mc::reset_icv();
    long got = call(r, p, s);
    if (mc::failed()) break;
    count("calls");
    if (got > p) { mc::fail("call %d (%s, p=%d): a parallel region asks for %ld threads", i + 1, r < ROUTES ? route_name[r] : "cake_sgemm", p, got); break; }
    sg.push_back(got);
    sg.push_back(p);
    sg.push_back(r);
  }
  // the same calls, each in a fresh thread-count state
  for (int i = 1; i < len && !mc::failed(); i++) {
    int r = k[2 + 3 * i], p = k[3 + 3 * i], s = k[4 + 3 * i];
    ctx = start;
    mc::reset_icv();
    long fresh = call(r, p, s);
    if (mc::failed()) break;
    if (fresh != sg[1 + 3 * i]) mc::fail("call %d (%s, p=%d) asks for at most %ld threads, the same call in a fresh process for %ld", i + 1, r < ROUTES ? route_name[r] : "cake_sgemm", p, sg[1 + 3 * i], fresh);
  }
  if (queries) unset_machine();
  nontrivial(mc::hash_bytes(sg.data(), sg.size() * sizeof(long)));
}
std::string describe(const Cfg &c) {
  std::string s = std::string(machines[c[0]].name) + ":";
  static const char *ex[] = {"cake_sgemm pre-packed", "cake_sgemm without a context", "user tiles"};
  for (int i = 0; i < c[1]; i++) {
    char b[200];
    const int *x = shp[c[4 + 3 * i]];
    snprintf(b, sizeof b, "%s %s p=%ld M=%d N=%d K=%d", i ? " then" : "", c[2 + 3 * i] < ROUTES ? route_name[c[2 + 3 * i]] : ex[c[2 + 3 * i] - ROUTES], c[3 + 3 * i], x[0], x[1], x[2]);
    s += b;
  }
  return s;
}
std::string rule() {
  return "all histories of up to three calls (thorough: four) over entry points, worker counts and shapes; the largest team any region asks the controlled OpenMP runtime for is compared with p and with the same call in a fresh state; "
         "distinct_nontrivial counts distinct sequences of (route, p, team)";
}
