// C15: the automatic schedule choice
#include "common.h"
const char *PROP = MC_PROP("C15");
// cfg: kind machine tile p M ...   kind 0: derive_schedule directly; 1: through init_block_dims and explicit requests
static std::vector<int> dims;
static void make_dims() {
  if (!dims.empty()) return;
  std::vector<int> base = thorough ? std::vector<int>() : std::vector<int>{1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 15, 16, 17, 23, 24, 25, 31, 32, 33};
  if (thorough) for (int i = 1; i <= 40; i++) base.push_back(i);
  dims = base;
  for (double v = 40; v < 70000; v *= thorough ? 1.19 : 1.45) { dims.push_back((int)v); dims.push_back((int)v + 1); }
}
static const int mcs[] = {6, 8, 12, 24, 48, 96, 144, 192, 240, 384, 600};
void enumerate(const std::function<bool(const Cfg &)> &emit) {
  make_dims();
  std::vector<int> ps = {1, 2, 3, 4, 6, 8, 12, 16, 32, 64};
  for (int p : ps) for (int mc : mcs) for (int M : dims) for (int al = 0; al < 5; al++) if (!emit(Cfg{0, mc, al, p, M})) return;
  for (int m = 0; m < MACHINES; m++) for (int t = 0; t < 4; t++) for (int p : {1, 2, 3, 4, 7, 10, 16}) for (int M : dims) if (!emit(Cfg{1, m, t, p, M})) return;
}
// external traffic of a schedule with m = n = k
static double cost(int s, double M, double N, double K, double b) {
  if (s == KMN) return M * N * K / b + M * N * K / b + 2 * M * N;
  if (s == MKN) return M * N * K / b + K * N + 2 * M * N * K / b;
  return M * N * K / b + M * K + 2 * M * N * K / b;
}
static bool judge(int s, int M, int N, int K, double b, const char *what) {
  double c[3], lo;
  for (int i = 0; i < 3; i++) c[i] = cost(i, M, N, K, b);
  lo = std::min(c[0], std::min(c[1], c[2]));
  if (s < 0 || s > 2) { mc::fail("%s N=%d K=%d: schedule %d", what, N, K, s); return false; }
  // a cut-off compares K (or N, M) with a quotient of single precision: at most a relative error of 2e-7 in the cut-off
  if (c[s] > lo * (1 + 2e-6)) {
    static const char *nm[] = {"K-first", "M-first", "N-first"};
    mc::fail("%s N=%d K=%d: %s is chosen, traffic K-first %.10g, M-first %.10g, N-first %.10g (block edge %g)", what, N, K, nm[s], c[0], c[1], c[2], b);
    return false;
  }
  return true;
}
void run_config(const Cfg &k) {
  make_dims();
  int p = k[3], M = k[4];
  if (k[0] == 0) {
    cake_cntx_t c;
    make_cntx(&c, M_DESK, 0);
    static const double alphas[] = {1.0, 0.25, 3.5, 31.0, 0.0};
    c.alpha_n = alphas[k[2]];
    for (int N : dims) for (int K : dims) {
      int s = derive_schedule(M, N, K, p, k[1], &c);
      count("choices judged");
      if (!judge(s, M, N, K, (double)p * k[1], "derive_schedule")) return;
      long sg[] = {p * k[1], s, M < N ? 0 : M == N ? 1 : 2, lrint(log2(M) * 2), lrint(log2(N) * 2), lrint(log2(K) * 2)};
      nontrivial(mc::hash_bytes(sg, sizeof sg));
    }
    // every N and K next to the borders between the schedules
    double b = (double)p * k[1];
    for (int N : {M - 1, M, M + 1}) {
      if (N < 1) continue;
      double Mn = std::min(M, N), cut = 2.0 * Mn / (1 + Mn / b);
      for (long K = std::max(1L, (long)cut - 3); K <= (long)cut + 3; K++) {
        count("choices judged");
        if (!judge(derive_schedule(M, N, (int)K, p, k[1], &c), M, N, (int)K, b, "derive_schedule")) return;
      }
    }
    return;
  }
  cake_cntx_t ctx;
  make_cntx(&ctx, k[1], k[2]);
  for (size_t i = 0; i < dims.size(); i += thorough ? 1 : 2) for (size_t j = 0; j < dims.size(); j += thorough ? 1 : 2) {
    int N = dims[i], K = dims[j];
    blk_dims_t x;
    cake_cntx_t c = ctx;
    int got[5];
    int mc = 0;
    for (int s = 0; s < 4; s++) {
      memset(&x, 0x5A, sizeof x);
      c = ctx;
      init_block_dims(M, N, K, p, &x, &c, (enum sched)s, NULL, 4, 0, 0, 0);
      got[s] = x.sch;
      if (s == KMN) mc = x.m_c;
      if (s < 3 && got[s] != s) { mc::fail("N=%d K=%d: schedule %d requested, %d used", N, K, s, got[s]); return; }
    }
    count("choices judged");
    if (!judge(got[3], M, N, K, (double)p * mc, "init_block_dims")) return;
    // with user-supplied tile sizes the request counts as well
    for (int s = 0; s < 3; s++) {
      c = ctx;
      init_block_dims(M, N, K, p, &x, &c, (enum sched)s, NULL, 4, c.mr * 2, 5, c.nr);
      if (x.sch != s) { mc::fail("N=%d K=%d, user tiles: schedule %d requested, %d used", N, K, s, x.sch); return; }
    }
  }
}
std::string describe(const Cfg &c) {
  char b[300];
  if (c[0] == 0) snprintf(b, sizeof b, "p=%ld M=%ld block rows %ld, every N and K of the list", c[3], c[4], c[1]);
  else snprintf(b, sizeof b, "p=%ld M=%ld tile %dx%d machine %s, every N and K of the list", c[3], c[4], tiles[c[2]][0], tiles[c[2]][1], machines[c[1]].name);
  return b;
}
std::string rule() {
  return "all triples (M,N,K) from all small values and a geometric list with neighbours up to 70000, p, block rows and alpha; the chosen schedule's traffic under the model compared with the least of the three (ties within single-precision rounding), "
         "and every K within 3 of each cut-off; explicit requests read back; distinct_nontrivial counts distinct (block edge, choice, order of M and N, magnitudes)";
}
