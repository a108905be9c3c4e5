// C22: the returned time under scripted clocks
#include "common.h"
const char *PROP = MC_PROP("C22");
// cfg: machine route shape p script base variant    variant: 0 plain, 1 both operands packed, 2 user tiles, 3 no context
static const int shp[][3] = {{1, 1, 1}, {13, 33, 7}, {25, 17, 13}, {37, 49, 19}};
static const long long bases[] = {0, 1, 999999999, 500000000, 999999000, 1600000000000000000LL, 1600000000999999999LL};
enum { SCRIPTS = 10 };
static mc::GuardBuf a, b, c;
void worker_init() { a.init(1 << 18); b.init(1 << 18); c.init(1 << 18); for (long i = 0; i < 1 << 16; i++) ((float *)a.rwbase)[i] = ((float *)b.rwbase)[i] = 1; }
void enumerate(const std::function<bool(const Cfg &)> &emit) {
  for (int m : {M_T1, M_T2, M_DESK, M_REV}) for (int r = 0; r < ROUTES; r++) for (int s = 0; s < 4; s++) for (int p : thorough ? std::vector<int>{1, 2, 3, 4, 5, 7} : std::vector<int>{1, 2, 3}) for (int sc = 0; sc < SCRIPTS; sc++)
    for (int bs = 0; bs < (int)(sizeof bases / sizeof *bases); bs++) for (int v = 0; v < 4; v++) {
      if (v == 1 && r > 3) continue;
      if (v == 3 && ((s + sc + bs + p) % 23 || m != M_T1)) continue;
      if (!emit(Cfg{m, r, s, p, sc, bs, v})) return;
    }
}
// monotone clocks; all differences between two readings of a script are different (except in script 0)
static long long reading(int script, long long base, long i) {
  long long x = i + 1, t = 0;
  switch (script) {
    case 0: return base;                                                  // the clock stands still
    case 1: for (long k = 0; k < i; k++) t += 1000 + 7 * k * k * k; break;        // microseconds
    case 2: for (long k = 0; k < i; k++) t += 900000000LL + 1013 * k * k; break;  // just below a second each
    case 3: for (long k = 0; k < i; k++) t += 1000000000LL + 1013 * k * k; break; // a second and a little
    case 4: for (long k = 0; k < i; k++) t += 1999999999LL - 1013 * k * k; break;
    case 5: for (long k = 0; k < i; k++) t += 1 + k * k * k; break;                // nanoseconds
    case 6: for (long k = 0; k < i; k++) t += 3600000000000LL + 77777777LL * k * k; break;  // hours
    case 7: for (long k = 0; k < i; k++) t += (k % 3 ? 10 + k * k * 3 : 999999990LL + k); break;
    case 8: for (long k = 0; k < i; k++) t += 2500000000000LL + 333333333LL * k * k * k; break;  // beyond 2^31 microseconds
    case 9: t = i < 62 ? (1LL << i) - 1 : 1LL << 62; t *= 1237; break;
  }
  (void)x;
  return base + t;
}
void run_config(const Cfg &k) {
  mc::pol = mc::Policy();
  mc::reset_icv();
  cake_cntx_t ctx;
  make_cntx(&ctx, k[0], 0);
  int r = k[1], p = k[3], M = shp[k[2]][0], N = shp[k[2]][1], K = shp[k[2]][2];
  float *A = (float *)a.rwbase, *B = (float *)b.rwbase, *C = (float *)c.rwbase;
  bool pk = k[6] == 1;
  if (k[6] == 3) set_machine(machines[k[0]]);
  double got = -1;
  mc::clk = [&](long i) { return reading(k[4], bases[k[5]], i); };
  mc::run([&] { got = multiply(r, A, B, C, M, N, K, p, k[6] == 3 ? NULL : &ctx, pk, pk, 1, 0, k[6] == 2 ? 12 : 0, k[6] == 2 ? 5 : 0, k[6] == 2 ? 16 : 0); });
  mc::clk = nullptr;
  if (k[6] == 3) unset_machine();
  count("timed calls");
  if (mc::failed()) return;
  long n = mc::clk_log.size(), f = mc::clk_first_region < 0 ? n : mc::clk_first_region, l = mc::clk_last_region;
  if (n < 2) { mc::fail("returned %.9g after %ld clock readings", got, n); return; }
  for (long i = 0; i < f; i++) for (long j = std::max(l, i + 1); j < n; j++) {
    double d = (mc::clk_log[j] - mc::clk_log[i]) * 1e-9;
    if (fabs(got - d) <= 1.01e-10 + 1e-13 * d) {
      long sg[] = {r, k[4], k[5], i, j, k[6]};
      nontrivial(mc::hash_bytes(sg, sizeof sg));
      return;
    }
  }
  std::string s;
  for (long i = 0; i < n; i++) s += (i ? " " : "") + std::to_string(mc::clk_log[i] - mc::clk_log[0]);
  mc::fail("returned %.12g s; clock readings at ns %s after %lld, of which %ld before the first parallel region began and %ld before the last ended", got, s.c_str(), mc::clk_log[0], f, l);
}
std::string describe(const Cfg &c) {
  static const char *vn[] = {"", ", operands packed", ", user tiles", ", no context"};
  char b[300];
  const int *x = shp[c[2]];
  snprintf(b, sizeof b, "%s M=%d N=%d K=%d p=%ld machine %s clock script %ld from %lld ns%s", route_name[c[1]], x[0], x[1], x[2], c[3], machines[c[0]].name, c[4], bases[c[5]], vn[c[6]]);
  return b;
}
std::string rule() {
  return "every entry point, schedule, shape and p under ten monotone clock scripts (standing still, nanoseconds to hours, just below and above a second per reading) from seven start times around second boundaries, with all differences distinct: "
         "the value returned must be a difference between a reading before the first parallel region and one after the last; distinct_nontrivial counts distinct (route, script, start, pair of readings)";
}
