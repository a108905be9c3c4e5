// C01 (and, by the first argument, C02 and C03): the product is exact for every shape
#include "common.h"
#ifndef WHICH
#define WHICH 1
#endif
#if WHICH == 1
const char *PROP = MC_PROP("C01");
#elif WHICH == 2
const char *PROP = MC_PROP("C02");
#else
const char *PROP = MC_PROP("C03");
#endif
// cfg: machine tile route M N K p mcu kcu ncu data
static Operands op;
static const size_t CAP = 16 << 20;
void worker_init() { op.init(CAP, CAP, CAP); op.guard_fill(); }

struct Space {
  const std::function<bool(const Cfg &)> &emit;
  bool go = true;
  void one(int m, int t, int r, int M, int N, int K, int p, int mcu = 0, int kcu = 0, int ncu = 0, int data = 0) {
    if (!go) return;
    if (M < 1 || N < 1 || K < 1) return;
    if ((size_t)M * N > CAP || (size_t)M * K > CAP || (size_t)K * N > CAP) return;
    go = emit(Cfg{m, t, r, M, N, K, p, mcu, kcu, ncu, data});
  }
};
static std::vector<int> range(int a, int b, int s = 1) { std::vector<int> v; for (int i = a; i <= b; i += s) v.push_back(i); return v; }
// sizes around the multiples of a tile and of a block
static std::vector<int> around(std::vector<int> mult, int tile, int max) {
  std::vector<int> v;
  for (int m : mult) for (int d : {-tile - 1, -tile, -1, 0, 1, tile, tile + 1}) if (m + d >= 1 && m + d <= max) v.push_back(m + d);
  std::sort(v.begin(), v.end());
  v.erase(std::unique(v.begin(), v.end()), v.end());
  return v;
}

static void production(Space &s, int tile, std::vector<int> ms, std::vector<int> ps, bool big) {
  for (int m : ms) {
    // block height of the machine for the default tile: from the library's own sizing of a huge problem
    cake_cntx_t c;
    make_cntx(&c, m, tile);
    blk_dims_t x;
    init_block_dims(1 << 20, 1 << 20, 1 << 10, 2, &x, &c, KMN, NULL);
    int mc = x.m_c, nc = x.n_c / 2, mr = c.mr, nr = c.nr;
    if (mc > 700) mc = 700;
    if (nc > 900) nc = 900;
    for (int p : ps)
      for (int r = 0; r < ROUTES; r++) {
        // one long dimension at a time, over the boundaries of blocks; the other two small or just past a tile
        for (int M : around({p * mc, 2 * p * mc}, mr, 4000)) for (int K : {3, 17}) s.one(m, tile, r, M, nr + 1, K, p);
        for (int N : around({p * nc, 2 * p * nc}, nr, 4000)) for (int K : {3, 17}) s.one(m, tile, r, mr + 1, N, K, p);
        for (int K : around({mc, p * mc, 2 * p * mc}, 1, 4000)) { s.one(m, tile, r, mr + 1, nr + 1, K, p); s.one(m, tile, r, 2 * p * mr + 1, 2 * nr + 1, K, p); }
        // two dimensions past the first block
        s.one(m, tile, r, p * mc + mr + 1, p * nc + nr + 1, 5, p);
        s.one(m, tile, r, p * mc + 1, nr + 1, mc + 1, p);
        s.one(m, tile, r, mr + 1, p * nc + 1, mc + 1, p);
        s.one(m, tile, r, 2 * p * mc + 1, 2 * p * nc + 1, 2, p);
        if (big) s.one(m, tile, r, p * mc + 1, p * nc + 1, p * mc + 1, p);
      }
  }
}

// other contents of the matrices, on shapes around the tiles and blocks
static void contents(Space &s, int tile, bool user) {
  int mr = tiles[tile][0], nr = tiles[tile][1];
  for (int M : {1, 5, mr, mr + 1, 2 * mr + 1, 4 * mr + 3}) for (int N : {1, nr - 1, nr, nr + 1, 3 * nr + 1}) for (int K : {1, 2, 6, 7, 13, 31})
    for (int d = 1; d < DATA; d++) for (int m : {M_T1, M_T2, M_T3, M_T5, M_DESK, MC_PI}) for (int p : {1, 2, 3, 5}) {
      if (tile && !thorough && (M + N + K + m + p + d) % 3) continue;
      for (int r = 0; r < ROUTES; r++) {
        if (!user) s.one(m, tile, r, M, N, K, p, 0, 0, 0, d);
        else if ((M + N + K + m + p + d + r) % 3 == 0) s.one(m, tile, r, M, N, K, p, mr * (1 + K % 3), 1 + (M + d) % 6, nr * (1 + M % 2), d);
      }
    }
  for (int d = 1; d < DATA; d++) for (int p : {1, 4}) for (int r = 0; r < ROUTES; r++) for (int M : {100, 301}) for (int N : {65, 400}) for (int K : {70, 300})
    user ? s.one(M_DESK, tile, r, M, N, K, p, mr * 4, 50, nr * 3, d) : s.one(M_DESK, tile, r, M, N, K, p, 0, 0, 0, d);
}

void enumerate(const std::function<bool(const Cfg &)> &emit) {
  Space s{emit};
#if WHICH == 1
  contents(s, 0, false);
  // small scope: everything
  std::vector<int> small_m = thorough ? range(1, 40) : range(1, 31), small_n = thorough ? range(1, 66) : range(1, 34);
  if (!thorough) for (int n : {40, 48, 49, 55, 64, 65}) small_n.push_back(n);
  std::vector<int> ks = thorough ? range(1, 26) : std::vector<int>{1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 18, 19, 25};
  std::vector<int> ps = thorough ? std::vector<int>{1, 2, 3, 4, 5, 6, 8} : DERIVED ? std::vector<int>{1, 2, 3, 4} : std::vector<int>{1, 2, 3, 4, 5, 7};
  for (int M : small_m) for (int N : small_n) for (int K : ks)
    for (int m : {M_T1, M_T2}) for (int p : ps) for (int r = 0; r < ROUTES; r++) s.one(m, 0, r, M, N, K, p);
  // more machines and worker counts on the boundaries of tiles and blocks
  std::vector<int> bm = {1, 5, 6, 7, 12, 13, 17, 18, 19, 23, 24, 25, 30, 36, 37, 48, 49, 61, 72, 73, 97}, bn = {1, 15, 16, 17, 31, 32, 33, 47, 48, 49, 64, 65, 95, 97, 129, 161},
                   bk = {1, 2, 5, 6, 7, 12, 13, 24, 25, 31, 49};
  for (int M : bm) for (int N : bn) for (int K : bk)
    for (int m : {M_T1, M_T2, M_T3, M_T4, M_T5}) for (int p : {1, 2, 3, 4, 5, 6, 7, 8, 11, 16, 33})
      for (int r = 0; r < ROUTES; r++) if (thorough || !DERIVED || (M + N + K + p + m) % 3 == 0 || (p <= 3 && m >= M_T3)) s.one(m, 0, r, M, N, K, p);
  production(s, 0, std::vector<int>{M_DESK, M_SMALL, MC_PI, M_SRV, M_REV, M_SKEW}, thorough || !DERIVED ? std::vector<int>{1, 2, 3, 4, 7} : std::vector<int>{1, 2, 3}, thorough);
  // many workers: more than a row of blocks has tiles, more than there are tiles at all, primes
  for (int p : thorough ? std::vector<int>{5, 6, 8, 10, 11, 13, 16, 24, 31, 32, 33, 48, 64, 96, 128} : std::vector<int>{5, 8, 13, 16, 31, 64})
    for (int m : {M_DESK, MC_PI, M_SRV, M_REV}) for (int r = 0; r < ROUTES; r++)
      for (int M : {1, 5, 6 * p - 1, 6 * p + 1, 12 * p + 5, 97, 400}) for (int N : {1, 17, 16 * p + 1, 130}) for (int K : {1, 8, 61, p * 7 + 1})
        if ((long)M * N * K < 8000000) s.one(m, 0, r, M, N, K, p);
  // long and thin: every power of two and its neighbours, many workers
  for (int d = 32; d <= (thorough ? 131072 : 65536); d *= 2) for (int e : {-1, 0, 1}) for (int p : {1, 3, 4, 10, 64}) for (int r = 0; r < ROUTES; r++) {
    for (int m : {M_DESK, MC_PI}) {
      s.one(m, 0, r, d + e, 1, 1, p); s.one(m, 0, r, 1, d + e, 1, p); s.one(m, 0, r, 1, 1, d + e, p);
      s.one(m, 0, r, d + e, 17, 7, p); s.one(m, 0, r, 7, d + e, 7, p); s.one(m, 0, r, 7, 17, d + e, p);
    }
  }
#elif WHICH == 2
  std::vector<int> ks = thorough ? range(1, 18) : std::vector<int>{1, 2, 3, 4, 5, 7, 8, 9, 13};
  for (int t = 0; t < 4; t++) {
    contents(s, t, false);
    int mr = tiles[t][0], nr = tiles[t][1];
    std::vector<int> ms = thorough ? range(1, 4 * mr + 3) : around({mr, 2 * mr, 3 * mr, 4 * mr}, 2, 5 * mr), ns = around({nr, 2 * nr, 3 * nr}, 3, 4 * nr);
    ms.push_back(1); ns.push_back(1);
    for (int M : ms) for (int N : ns) for (int K : ks)
      for (int m : {M_T1, M_T2, M_T3, M_T4, M_T5}) for (int p : {1, 2, 3, 4, 5, 7}) for (int r = 0; r < ROUTES; r++)
        if (thorough || m <= M_T2 || p <= 3) s.one(m, t, r, M, N, K, p);
    for (const Far &f : far_shapes) for (int m : {M_DESK, MC_PI, M_T2}) for (int p : {1, 3, 16}) for (int r = 0; r < ROUTES; r++) s.one(m, t, r, f.M, f.N, f.K, p);
    production(s, t, thorough ? std::vector<int>{M_DESK, M_SMALL, MC_PI, M_SRV, M_REV, M_SKEW} : std::vector<int>{M_DESK, MC_PI, M_REV}, thorough ? std::vector<int>{1, 2, 3, 4, 7} : std::vector<int>{1, 2, 3}, thorough);
  }
#else
  // user tiles: rows a multiple of mr, columns a multiple of nr, any depth
  for (int t : {0, 1, 2, 3}) {
    contents(s, t, true);
    int mr = tiles[t][0], nr = tiles[t][1];
    std::vector<int> ms = {1, mr - 1, mr, mr + 1, 2 * mr, 2 * mr + 1, 3 * mr, 4 * mr - 1, 5 * mr + 1, 7 * mr, 9 * mr + 2}, ns = {1, nr - 1, nr, nr + 1, 2 * nr, 2 * nr + 1, 3 * nr, 5 * nr + 1},
                     ks = {1, 2, 3, 5, 7, 8, 13, 20};
    std::vector<int> mus = thorough ? std::vector<int>{1, 2, 3, 4, 5} : std::vector<int>{1, 2, 3}, kus = thorough ? range(1, 12) : std::vector<int>{1, 2, 3, 4, 7, 8, 40}, nus = thorough ? std::vector<int>{1, 2, 3, 4} : std::vector<int>{1, 2, 3};
    for (int M : ms) for (int N : ns) for (int K : ks) for (int p : thorough ? std::vector<int>{1, 2, 3, 4, 5, 6, 8} : std::vector<int>{1, 2, 3, 4, 5})
      for (int mu : mus) for (int ku : kus) for (int nu : nus) for (int r = 0; r < ROUTES; r++)
        if (thorough || t == 0 || (mu + ku + nu + K + M + N + p) % 3 == 0) s.one(M_DESK, t, r, M, N, K, p, mu * mr, ku, nu * nr);
  }
  for (const Far &f : far_shapes) for (int t = 0; t < 4; t++) for (int p : {1, 3, 16}) for (int r = 0; r < ROUTES; r++) s.one(M_DESK, t, r, f.M, f.N, f.K, p, tiles[t][0] * 4, 50 + p, tiles[t][1] * 3);
  // tiles of real sizes, on both sides of the matrix
  for (int mu : {6, 48, 96, 288}) for (int ku : {1, 17, 100, 300}) for (int nu : {16, 64, 160, 512}) for (int p : {1, 2, 3, 4, 8}) for (int r = 0; r < ROUTES; r++)
    for (int M : {p * mu - 1, p * mu, p * mu + 1, 2 * p * mu + 7}) for (int N : {nu - 1, nu, nu + 1, 2 * nu + 5}) for (int K : {ku, ku + 1, 2 * ku + 1}) if (thorough || (long)M * N * K < 20000000) s.one((mu + nu) % 3 ? MC_PI : M_SRV, 0, r, M, N, K, p, mu, ku, nu);
#endif
}

void run_config(const Cfg &c) {
  int m = c[0], t = c[1], r = c[2], M = c[3], N = c[4], K = c[5], p = c[6], mcu = c[7], kcu = c[8], ncu = c[9];
  cake_cntx_t ctx;
  make_cntx(&ctx, m, t);
  op.set(M, N, K, true, 0, c[10]);
  op.fill_c();
  mc::pol = mc::Policy();
  nontrivial(structure(r, M, N, K, p, &ctx, mcu, kcu, ncu) * 16 + c[10]);
  mc::run([&] { multiply(r, op.A, op.B, op.C, M, N, K, p, &ctx, 0, 0, 1, 0, mcu, kcu, ncu); });
  if (mc::failed()) return;
  op.check(route_name[r]);
  count("parallel regions", mc::st.regions);
  count("library allocations", mc::st.allocs);
}
std::string describe(const Cfg &c) {
  char b[400];
  snprintf(b, sizeof b, "%s M=%ld N=%ld K=%ld p=%ld tile=%dx%d machine=%s(L1=%d L2=%d L3=%d cores=%d) user tiles=%ldx%ldx%ld%s%s", route_name[c[2]], c[3], c[4], c[5], c[6],
           tiles[c[1]][0], tiles[c[1]][1], machines[c[0]].name, machines[c[0]].L1, machines[c[0]].L2, machines[c[0]].L3, machines[c[0]].cores, c[7], c[8], c[9], c[10] ? ", " : "", c[10] ? data_name[c[10]] : "");
  return b;
}
std::string rule() {
  return "every (entry point, schedule, M, N, K, p, machine, register tile, user tile) of the enumerated space is run once on the real library with integer-coded "
         "operands whose partial sums are exact, every element of C compared with the integer product; distinct_nontrivial counts distinct control structures "
         "(blocks per dimension, block and slice sizes, paddings, edge remainders, workers)";
}
