// C16: the tiling arithmetic at every scale
#include "common.h"
const char *PROP = MC_PROP("C16");
// cfg: machine tile route p M user;  every N and K of the lists
static std::vector<int> big;
static const long caches[][4] = {{32768, 32768, 65536, 1}, {32768, 262144, 262144, 64}, {49152, 1310720, 62914560, 40}, {65536, 4194304, 402653184, 128}, {16384, 16384, 524288, 4}, {131072, 12582912, 12582912, 8}, {32768, 524288, 67108864, 64}, {1024, 2048, 4096, 2}};
static void make() {
  if (!big.empty()) return;
  for (double v = 50; v < 70000; v *= 1.37) big.push_back((int)v);
  for (int v : {96, 111, 144, 192, 384, 480, 960, 1024, 2111, 4096, 5760, 16384, 23040, 30000, 65536}) big.push_back(v);
}
static void ctx_of(int m, int t, cake_cntx_t *c) {
  if (m < MACHINES) { make_cntx(c, m, t); return; }
  make_cntx(c, M_DESK, t);
  c->L1 = caches[m - MACHINES][0]; c->L2 = caches[m - MACHINES][1]; c->L3 = caches[m - MACHINES][2]; c->ncores = caches[m - MACHINES][3];
}
static int ucfg[][3] = {{0, 0, 0}, {1, 1, 1}, {2, 7, 1}, {1, 192, 3}, {5, 50, 2}, {16, 300, 12}, {700000, 1, 1}, {1, 4000000, 400000}};
void enumerate(const std::function<bool(const Cfg &)> &emit) {
  make();
  std::vector<int> ps = {1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 16, 24, 31, 32, 64, 127, 128, 256};
  if (thorough) { ps.clear(); for (int i = 1; i <= 40; i++) ps.push_back(i); for (int i : {48, 63, 64, 96, 100, 127, 128, 200, 255, 256}) ps.push_back(i); }
  for (int m = 0; m < MACHINES + 8; m++) for (int t = 0; t < 4; t++) for (int r : {R_KMN, R_MKN, R_NKM, R_AUTO, R_2D}) for (int p : ps) for (int u = 0; u < 8; u++) {
    if (u > 5 && (p > 128 || m % 4)) continue;
    if (!thorough && (u > 1 || t) && (m + t + r + p + u) % 3) continue;
    if (!emit(Cfg{m, t, r, p, u})) return;
  }
}
static bool same(long a, long b, const char *what, int M, int N, int K) {
  if (a == b) return true;
  mc::fail("M=%d N=%d K=%d: %s is %ld, needed %ld", M, N, K, what, a, b);
  return false;
}
#define CHECK(cond, ...) do { if (!(cond)) { mc::fail(__VA_ARGS__); return false; } } while (0)
// blocks along one dimension: full blocks of `workers` slices of `slice`; the partial last block, when there is one,
// has `used` slices of `part`, the last of which is `last`
static bool cover(const char *dim, int D, int unit, int nb, int pad, int workers, int slice, int used, int part, int last, long &padded) {
  long full = (long)workers * slice, whole = nb - (pad ? 1 : 0);
  CHECK(slice > 0 && slice % unit == 0, "%s=%d: slice of %d, register tile %d", dim, D, slice, unit);
  CHECK(nb >= 1 && (pad == 0 || pad == 1) && whole >= 0, "%s=%d: %d blocks", dim, D, nb);
  long rest = D - whole * full;
  CHECK(rest >= 0 && (rest > 0) == (pad == 1), "%s=%d: %ld whole blocks of %ld leave %ld with%s a partial block", dim, D, whole, full, rest, pad ? "" : "out");
  padded = whole * full;
  if (!pad) return true;
  long up = (rest + unit - 1) / unit * unit;
  CHECK(used >= 1 && used <= workers, "%s=%d: %d of %d workers used in the partial block", dim, D, used, workers);
  CHECK(part > 0 && part <= slice && part % unit == 0 || used == 1, "%s=%d: slices of %d in the partial block, the buffers hold %d", dim, D, part, slice);
  CHECK(last > 0 && last <= slice && last % unit == 0 && last <= part, "%s=%d: last slice of %d, the others %d, buffer %d", dim, D, last, part, slice);
  CHECK((long)(used - 1) * part + last == up, "%s=%d: partial block of %ld covered by %d slices of %d and one of %d", dim, D, up, used - 1, part, last);
  padded += up;
  return true;
}
static bool one(int r, int M, int N, int K, int p, cake_cntx_t c, const int *u) {
  blk_dims_t x;
  memset(&x, 0x5A, sizeof x);
  int mcu = u[0] * c.mr, kcu = u[1], ncu = u[2] * c.nr;
  long Mp, Np, Kp;
  if (r == R_2D) {
    init_block_dims_2d(M, N, K, p, &x, &c, KMN, NULL, 4, mcu, kcu, ncu);
    CHECK(x.pm >= 1 && x.pn >= 1 && (long)x.pm * x.pn <= p, "M=%d N=%d K=%d: %d x %d workers of %d", M, N, K, x.pm, x.pn, p);
    if (!cover("M", M, c.mr, x.Mb, x.m_pad, x.pm, x.m_c, x.pm_l, x.m_c1, x.m_c1_last_core, Mp)) return false;
    if (!cover("N", N, c.nr, x.Nb, x.n_pad, x.pn, x.n_c, x.pn_l, x.n_c1, x.n_c1_last_core, Np)) return false;
    if (!cover("K", K, 1, x.Kb, x.k_pad, 1, x.k_c, 1, x.k_c1, x.k_c1, Kp)) return false;
    return true;
  }
  enum sched s = r == R_AUTO ? NA : (enum sched)r;
  init_block_dims(M, N, K, p, &x, &c, s, NULL, 4, mcu, kcu, ncu);
  s = x.sch;
  CHECK(s == KMN || s == MKN || s == NKM, "M=%d N=%d K=%d: schedule %d", M, N, K, s);
  if (!cover("N", N, c.nr, x.Nb, x.n_pad, 1, x.n_c, 1, x.n_c1, x.n_c1, Np)) return false;
  if (s == KMN) {
    if (!cover("M", M, c.mr, x.Mb, x.m_pad, p, x.m_c, x.p_l, x.m_c1, x.m_c1_last_core, Mp)) return false;
    if (!cover("K", K, 1, x.Kb, x.k_pad, 1, x.k_c, 1, x.k_c1, x.k_c1, Kp)) return false;
  } else {
    if (s == MKN && !cover("M", M, c.mr, x.Mb, x.m_pad, 1, x.m_c, 1, x.m_c1, x.m_c1, Mp)) return false;
    // N-first: a block is p*m_c rows high for every worker
    if (s == NKM && !cover("M", M, c.mr, x.Mb, x.m_pad, 1, p * x.m_c, 1, x.m_c1, x.m_c1, Mp)) return false;
    if (!cover("K", K, 1, x.Kb, x.k_pad, p, x.k_c, x.p_l, x.k_c1, x.k_c1_last_core, Kp)) return false;
  }
  CHECK(x.M_padded == Mp && x.N_padded == Np, "M=%d N=%d K=%d: padded to %d x %d, the blocks cover %ld x %ld", M, N, K, x.M_padded, x.N_padded, Mp, Np);
  if (Mp * K < (1L << 31)) if (!same(cake_sgemm_packed_A_size(M, K, p, &x, &c, s), Mp * K * 4, "packed A size", M, N, K)) return false;
  if (Np * K < (1L << 31)) if (!same(cake_sgemm_packed_B_size(K, N, p, &x, &c), Np * K * 4, "packed B size", M, N, K)) return false;
  if (Np * Mp < (1L << 31)) if (!same(cake_sgemm_packed_C_size(M, N, p, &x, &c, s), Mp * Np * 4, "packed C size", M, N, K)) return false;
  return true;
}
void run_config(const Cfg &k) {
  make();
  cake_cntx_t ctx;
  ctx_of(k[0], k[1], &ctx);
  int r = k[2], p = k[3];
  const int *u = ucfg[k[4]];
  std::vector<int> Ms, Ks = {1, 2, 7, 100, 2111, 20000}, Ns = {1, 17, 100, 960, 30001};
  blk_dims_t x;
  auto around = [&](std::vector<int> &v, long w) { for (long d : {-1, 0, 1}) for (long f : {1, 2, 3, 7}) if (w * f + d > 0 && w * f + d < 70000) v.push_back(w * f + d); };
  // the block sizes for a big matrix give the borders in each dimension
  cake_cntx_t c = ctx;
  if (r == R_2D) init_block_dims_2d(60000, 60000, 60000, p, &x, &c, KMN, NULL, 4, u[0] * c.mr, u[1], u[2] * c.nr);
  else init_block_dims(60000, 60000, 60000, p, &x, &c, r == R_AUTO ? NA : (enum sched)r, NULL, 4, u[0] * c.mr, u[1], u[2] * c.nr);
  int top = thorough ? 400 : 130;
  for (int i = 1; i <= top; i++) Ms.push_back(i);
  for (int b : big) Ms.push_back(b);
  std::vector<int> Nv = Ms, Kv = Ms;
  around(Ms, x.m_c); around(Ms, (long)p * x.m_c); around(Ms, (long)p * ctx.mr);
  around(Nv, x.n_c); around(Nv, (long)p * x.n_c); around(Nv, (long)p * ctx.nr);
  around(Kv, x.k_c); around(Kv, (long)p * x.k_c); around(Kv, p);
  long n = 0;
  auto t = [&](int M, int N, int K) {
    n++;
    if (!one(r, M, N, K, p, ctx, u)) { count("tilings judged", n); return false; }
    return true;
  };
  for (int M : Ms) for (int N : Ns) for (int K : Ks) if (!t(M, N, K)) return;
  for (int N : Nv) for (int M : {1, 37, 1000, 9973}) for (int K : {1, 300}) if (!t(M, N, K)) return;
  for (int K : Kv) for (int M : {1, 37, 1000, 9973}) for (int N : {1, 300}) if (!t(M, N, K)) return;
  // dimensions that single precision no longer counts exactly (element counts stay below 2^31)
  for (int e : {24, 25, 28, 30}) for (int d : {-1, 0, 1, 3, 7}) {
    int D = (1 << e) + d;
    for (int a : {1, 2}) if (a == 1 || e < 30) if (!t(D, a, 1) || !t(D, 1, a) || !t(1, D, a) || !t(a, D, 1) || !t(1, a, D) || !t(a, 1, D)) return;
  }
  if (r == R_2D) for (int M : Ms) for (size_t j = M % 3; j < Nv.size(); j += 3) if (!t(M, Nv[j], 77)) return;
  count("tilings judged", n);
  long sg[] = {r, x.m_c, x.n_c, x.k_c, ctx.mr, ctx.nr, p};
  nontrivial(mc::hash_bytes(sg, sizeof sg));
}
std::string describe(const Cfg &c) {
  cake_cntx_t x;
  ctx_of(c[0], c[1], &x);
  char b[300];
  snprintf(b, sizeof b, "%s p=%ld tile %dx%d L1=%d L2=%d L3=%d cores=%d user tiles %d*mr x %d x %d*nr", route_name[c[2]], c[3], x.mr, x.nr, x.L1, x.L2, x.L3, x.ncores, ucfg[c[4]][0], ucfg[c[4]][1], ucfg[c[4]][2]);
  return b;
}
std::string rule() {
  return "for each (machine, tile, schedule, p, user tiles) every dimension up to the bound, a geometric list to 70000 and all neighbours of the block borders in M, N and K, and dimensions around 2^24, 2^25, 2^28 and 2^30; the slices of every block added up and compared with the dimension, "
         "with the block the buffers are sized for and with the reported packed sizes; distinct_nontrivial counts distinct (schedule, blocks, tile, p)";
}
