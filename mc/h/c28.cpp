// C28: the block sizes against the caches, at every border of the cache sizes and of the dimensions
#include "common.h"
const char *PROP = MC_PROP("C28");
// cfg: tile route p cores x_L2 x_L3 user;  x_L2, x_L3: the caches are those that just hold blocks of so many tile rows
typedef long long ll;
static int ucfg[][3] = {{0, 0, 0}, {1, 1, 1}, {2, 7, 1}, {3, 192, 5}};
static ll l2_of(ll x, int nr) { return 8 * (x * x + 2 * nr * x); }             // double-buffered A, B panel and C, m_c = k_c = x
static ll l3_of(ll x, ll cores) { return 8 * (2 * cores * x * x + cores * cores * x * x); }
static ll l2_2d(ll x, int nr) { return 4 * (2 * x * x + nr * x); }
template <class F> static ll largest(int unit, ll cache, F f) {
  ll lo = 0, hi = 1;  // in units; f is increasing
  while (f(hi * unit) <= cache) lo = hi, hi *= 2;
  while (hi - lo > 1) {
    ll m = (lo + hi) / 2;
    (f(m * unit) <= cache ? lo : hi) = m;
  }
  return lo * unit;
}
void enumerate(const std::function<bool(const Cfg &)> &emit) {
  std::vector<int> ps = thorough ? std::vector<int>{1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 16, 31, 32, 48, 64, 128} : std::vector<int>{1, 2, 3, 4, 6, 7, 16, 64};
  std::vector<int> cs = thorough ? std::vector<int>{1, 2, 3, 4, 6, 8, 16, 40, 64, 128} : std::vector<int>{1, 2, 4, 16, 64};
  std::vector<int> x2, x3;
  for (int i = 0; i <= (thorough ? 40 : 9); i++) x2.push_back(i);
  for (int i : {12, 17, 32, 42, 90, 170}) x2.push_back(i);
  for (int i : thorough ? std::vector<int>{0, 1, 2, 3, 4, 5, 7, 8, 11, 16, 24, 33, 64, 100} : std::vector<int>{0, 1, 2, 5, 24, 64}) x3.push_back(i);
  for (int t = 0; t < 4; t++) for (int r : {R_KMN, R_MKN, R_NKM, R_AUTO, R_2D}) for (int u = 0; u < 4; u++) for (int p : ps) for (int c : cs) for (int a : x2) for (int b : x3) {
    if (u && (a % 5 || b % 3)) continue;
    if (!emit(Cfg{t, r, p, c, a, b, u})) return;
  }
}
#define CHECK(cond, ...) do { if (!(cond)) { mc::fail(__VA_ARGS__); return false; } } while (0)
static ll up(ll a, ll b) { return (a + b - 1) / b; }
static bool one(int r, int M, int N, int K, int p, cake_cntx_t c, const int *u) {
  int mr = c.mr, nr = c.nr;
  auto ident = [&] {
    static char b[200];
    snprintf(b, sizeof b, "M=%d N=%d K=%d with L1=%d L2=%d L3=%d", M, N, K, c.L1, c.L2, c.L3);
    return b;
  };
#define id ident()
  ll mcu = (ll)u[0] * mr, kcu = u[1], ncu = (ll)u[2] * nr;
  blk_dims_t x;
  memset(&x, 0x5A, sizeof x);
  if (r == R_2D) {
    init_block_dims_2d(M, N, K, p, &x, &c, KMN, NULL, 4, mcu, kcu, ncu);
    ll m2 = std::max<ll>(largest(mr, c.L2, [&](ll q) { return l2_2d(q, nr); }), mr), n2 = up(m2, nr) * nr;
    if (!u[0]) {
      ll kc = ((ll)c.L1 / 4 - mr * nr) / (mr + nr);
      if (kc < 1) kc = 1;
      CHECK(x.k_c == kc, "%s: k_c is %d, the largest depth for which a kernel call fits the L1 is %lld", id, x.k_c, kc);
      CHECK(x.m_c <= m2, "%s: m_c is %d, the L2 holds %lld", id, x.m_c, m2);
      CHECK(M < (ll)p * m2 || x.m_c == m2, "%s: m_c is %d, the L2 holds %lld and there are rows enough", id, x.m_c, m2);
    } else CHECK(x.k_c == kcu, "%s: k_c is %d, the user asked for %lld", id, x.k_c, kcu);
    CHECK(x.n_c <= up(x.m_c, nr) * nr, "%s: n_c is %d with m_c %d", id, x.n_c, x.m_c);
    CHECK(N < (ll)p * n2 || x.m_c != m2 || x.n_c == n2, "%s: n_c is %d with m_c %d and columns enough", id, x.n_c, x.m_c);
    if (x.m_pad) {
      ll rem = up(M % (x.pm * x.m_c), mr);
      CHECK(x.m_c1 == up(rem, x.pm) * mr, "%s: %lld tile rows of the last block are shared by %d workers in slices of %d", id, rem, x.pm, x.m_c1);
    }
    if (x.n_pad) {
      ll rem = up(N % (x.pn * x.n_c), nr);
      CHECK(x.n_c1 == up(rem, x.pn) * nr, "%s: %lld tile columns of the last block are shared by %d workers in slices of %d", id, rem, x.pn, x.n_c1);
    }
    return true;
  }
  init_block_dims(M, N, K, p, &x, &c, r == R_AUTO ? NA : (enum sched)r, NULL, 4, mcu, kcu, ncu);
  enum sched s = x.sch;
  if (u[0]) {
    CHECK(x.m_c == mcu && x.k_c == kcu && x.n_c == ncu, "%s: blocks of %d x %d x %d, the user asked for %lld x %lld x %lld", id, x.m_c, x.k_c, x.n_c, mcu, kcu, ncu);
  } else {
    ll m2 = std::max<ll>(largest(mr, c.L2, [&](ll q) { return l2_of(q, nr); }), mr);
    auto l3 = [&](ll q) { return l3_of(q, c.ncores); };
    // the size the L3 gives; at exact equality either neighbour is in order (rounding of the square root)
    ll m3 = largest(mr, c.L3, l3), m3lo = m3 > 0 && l3(m3) == c.L3 ? m3 - mr : m3;
    // the slice of one worker
    ll mc = s == NKM ? -1 : x.m_c, lo, hi;
    if (M >= (ll)p * m2) lo = hi = m2;
    else if (M < (ll)p * mr) lo = hi = mr;
    else lo = up(up(M, p), mr) * mr, hi = std::min<ll>(m2, (M / p / mr + 1) * mr);  // all workers have rows, none more than needed
    if (s != NKM) {
      CHECK(mc % mr == 0 && mc >= lo && mc <= hi, "%s: m_c is %lld, not between %lld and %lld (the L2 holds %lld)", id, mc, lo, hi, m2);
      CHECK(x.k_c == mc, "%s: k_c is %d, m_c %lld", id, x.k_c, mc);
      // the n side of the block: alpha * p * m_c
      bool ok = false;
      for (ll q : {m3, m3lo}) for (int e : {0, 1}) {
        ll w = (q * p * mc - e) / m2;
        if (w < 0) w = 0;
        if (x.n_c == std::max<ll>(w / nr * nr, nr)) ok = true;
      }
      CHECK(ok, "%s: n_c is %d with m_c %lld; the L3 holds blocks of %lld, the L2 of %lld", id, x.n_c, mc, m3, m2);
      if (m3 >= m2 && p <= c.ncores && x.n_c > nr && s == KMN) {
        ll ws = 8 * ((ll)p * mc * mc + mc * x.n_c + p * mc * x.n_c);
        CHECK(ws <= c.L3, "%s: working set of a block is %lld", id, ws);
      }
    } else {
      bool ok = false;
      for (ll v = lo; v <= hi && !ok; v += mr) {
        if (x.n_c != std::max<ll>(v / nr * nr, nr)) continue;
        for (ll q : {m3, m3lo}) for (int e : {0, 1}) {
          ll w = (q * v - e) / m2;
          if (w < 0) w = 0;
          if (x.m_c == std::max<ll>(w / mr * mr, mr)) ok = true;
        }
      }
      CHECK(ok && x.k_c == x.m_c, "%s: blocks of %d x %d x %d; the L2 holds %lld, the L3 %lld, a worker's share is %lld", id, x.m_c, x.k_c, x.n_c, m2, m3, lo);
    }
  }
  // the last block, when it is partial, is shared evenly
  if (s == KMN) {
    ll rem = up(M % ((ll)p * x.m_c), mr);
    if (rem) CHECK(x.m_c1 == up(rem, p) * mr, "%s: %lld tile rows of the last block are shared by %d workers in slices of %d", id, rem, p, x.m_c1);
  } else {
    ll rem = K % ((ll)p * x.k_c);
    if (rem) CHECK(x.k_c1 == up(rem, p), "%s: the last %lld of K are shared by %d workers in slices of %d", id, rem, p, x.k_c1);
  }
  return true;
}
void run_config(const Cfg &k) {
  cake_cntx_t ctx;
  make_cntx(&ctx, M_DESK, k[0]);
  int r = k[1], p = k[2];
  const int *u = ucfg[k[6]];
  int mr = ctx.mr, nr = ctx.nr;
  ctx.ncores = k[3];
  ll m2 = k[4] * mr, m3 = k[5] * mr;
  ll e2 = r == R_2D ? l2_2d(m2, nr) : l2_of(m2, nr), e3 = l3_of(m3, ctx.ncores);
  long n = 0;
  for (int d2 : {-1, 0, 1, 4096}) for (int d3 : {-1, 0, 1}) {
    if (d2 == 4096 && d3) continue;
    ll L2 = e2 + d2, L3 = e3 + d3;
    if (L2 < 1 || L3 < 1 || L2 >= 1LL << 31 || L3 >= 1LL << 31) continue;
    ctx.L2 = L2;
    ctx.L3 = L3;
    // L1: that of a kernel call of depth q; for 2D, depths around the border
    std::vector<ll> l1 = {32768};
    if (r == R_2D) for (ll q : {0, 1, 2, 3, 17, 300}) for (int d : {-4, 0, 4}) l1.push_back(4 * ((mr + nr) * (q + k[4] % 5) + mr * nr) + d);
    std::vector<ll> Ms, Ns = {1, 1000, 20000}, Ks = {1, 333, 20011};
    for (ll f : {1, 2, 5}) for (ll d : {-1, 0, 1}) {
      Ms.push_back(f * mr * p + d);
      Ms.push_back(f * m2 * p + d);
      Ms.push_back(f * m2 + d);
      if (d2 == 0) Ms.push_back((ll)f * p * (mr * 3 + 1) + d), Ms.push_back(f * 97 + d);
    }
    Ms.push_back(50000);
    Ns.push_back(up(std::max<ll>(m2, mr), nr) * nr * p);
    Ns.push_back(Ns.back() - 1);
    Ks.push_back(std::max<ll>(m2, mr) * p + 1);
    for (ll M : Ms) for (ll L1 : l1) for (size_t i = 0; i < Ns.size(); i++) {
      if (M < 1 || M > 200000 || L1 < 1) continue;
      ll K = Ks[(i + n) % Ks.size()];
      if (K > 200000 || Ns[i] > 200000) continue;
      ctx.L1 = L1;
      n++;
      if (!one(r, M, Ns[i], K, p, ctx, u)) { count("tilings judged", n); return; }
    }
  }
  count("tilings judged", n);
  long sg[] = {r, mr, nr, p, k[3], k[4], k[5], k[6]};
  if (n) nontrivial(mc::hash_bytes(sg, sizeof sg));
}
std::string describe(const Cfg &c) {
  char b[300];
  snprintf(b, sizeof b, "%s p=%ld tile %dx%d cores=%ld, L2 for blocks of %ld tile rows, L3 of %ld, user tiles %d*mr x %d x %d*nr", route_name[c[1]], c[2], tiles[c[0]][0], tiles[c[0]][1], c[3], c[4], c[5], ucfg[c[6]][0], ucfg[c[6]][1], ucfg[c[6]][2]);
  return b;
}
std::string rule() {
  return "for each (tile, schedule or 2D, p, cores, user tiles) the caches that exactly hold blocks of x tile rows, one byte less and one more, for all x of the list in L2 and in L3 (2D: in L1 too), with every M around the borders these give; "
         "the block sizes are compared with a search for the largest block that fits; distinct_nontrivial counts distinct (schedule, tile, p, cores, x, x, user tiles)";
}
