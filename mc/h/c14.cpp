// C14: the 2D worker grid
#include "common.h"
const char *PROP = MC_PROP("C14");
// cfg: machine tile p M mode     (all N of the list are tried in one case)
static std::vector<int> dims;
static void make_dims() {
  if (!dims.empty()) return;
  for (int i = 1; i <= (thorough ? 100 : 40); i++) dims.push_back(i);
  for (int i : {48, 63, 64, 65, 95, 96, 97, 100, 111, 127, 128, 129, 160, 200, 250, 256, 300, 333, 384, 400, 500, 512, 640, 777, 960, 1000, 1024, 1500, 2000, 2048, 2111, 3000, 4096, 5000, 7777, 10000, 16384, 23040, 50000, 100000, 1000000}) dims.push_back(i);
}
void enumerate(const std::function<bool(const Cfg &)> &emit) {
  make_dims();
  int P = thorough ? 600 : 130;
  for (int p = 1; p <= P; p++) for (int M : dims) {
    if (!emit(Cfg{M_DESK, 0, p, M, 0})) return;
    if (!emit(Cfg{p % 2 ? M_T1 : M_SRV, 1 + (p + M) % 3, p, M, 1})) return;
  }
  for (int p : {144, 180, 210, 240, 256, 360, 480, 509, 512, 720, 840, 1000, 1009, 1024}) for (int M : dims) if (!emit(Cfg{MC_PI, 0, p, M, 0})) return;
}

static bool best(int M, int N, int p, int pn) {
  if (pn < 1 || p % pn) return false;
  double s = sqrt((double)p * N / M);
  long lo = lrint(floor(s + 0.5)), hi = lo;   // the target; both neighbours when it is a tie in single precision
  double frac = s + 0.5 - floor(s + 0.5);
  double eps = s * 1.2e-7;
  if (frac > 1 - eps) hi = lo + 1;
  if (frac < eps) lo = lo - 1;
  for (long t = lo; t <= hi; t++) {
    long q = t < 1 ? 1 : t > p ? p : t;
    long d = labs(q - pn), b = 1L << 40;
    for (int i = 1; i <= p; i++) if (p % i == 0) b = std::min(b, labs(q - i));
    if (d == b) return true;
  }
  return false;
}

void run_config(const Cfg &k) {
  make_dims();
  int p = k[2], M = k[3];
  cake_cntx_t ctx;
  make_cntx(&ctx, k[0], k[1]);
  for (int N : dims) {
    if (k[4] == 0) {
      int first = -1;
      for (int nc : {ctx.ncores, 1, 64, 1024, p}) {
        int pn = grid_dims_2d(M, N, 100, p, nc);
        if (first < 0) first = pn;
        if (!best(M, N, p, pn)) { mc::fail("N=%d, %d cores: %d grid columns; not a divisor of %d closest to round(sqrt(p*N/M)) = %.6g", N, nc, pn, p, round(sqrt((double)p * N / M))); return; }
        count("grids judged");
      }
      long sg[] = {p, first, lrint(std::min(sqrt((double)p * N / M), (double)p))};
      nontrivial(mc::hash_bytes(sg, sizeof sg));
    }
    for (int u = 0; u < (k[4] ? 3 : 1); u++) {
      blk_dims_t x;
      memset(&x, 0x5A, sizeof x);
      cake_cntx_t c = ctx;
      init_block_dims_2d(M, N, 100, p, &x, &c, KMN, NULL, 4, u ? c.mr * u * 2 : 0, u ? 7 * u : 0, u ? c.nr * u : 0);
      if (x.pm < 1 || x.pn < 1 || (long)x.pm * x.pn > p) { mc::fail("N=%d: a %d x %d grid is used, %d workers were given", N, x.pm, x.pn, p); return; }
      count("tilings judged");
    }
  }
}
std::string describe(const Cfg &c) {
  char b[300];
  snprintf(b, sizeof b, "p=%ld M=%ld, every N of the list, tile %dx%d, machine %s", c[2], c[3], tiles[c[1]][0], tiles[c[1]][1], machines[c[0]].name);
  return b;
}
std::string rule() {
  return "every p up to the bound x all pairs (M,N) from all small values and a list reaching 1000000, five core counts; the grid's columns compared with a brute-force search over the divisors of p, "
         "and the grid of the computed tiling with p; distinct_nontrivial counts distinct (p, columns, target)";
}
