// C06: memory safety and definedness of multiply calls
#include "common.h"
#ifndef FILL
#define FILL 0xFF
#endif
const char *PROP = MC_PROP("C06");
// cfg: machine tile route M N K p mcu kcu ncu alpha beta packed right
static Operands op;
static mc::GuardBuf pa, pb;
void worker_init() {
  op.init(4 << 20, 4 << 20, 4 << 20);
  op.guard_fill();
  pa.init(4 << 20);
  pb.init(4 << 20);
#if !defined(MC_ASAN) && FILL == 0xFF
  mc::set_free_protect(true);
#endif
}
#ifdef MC_ASAN
extern "C" const char *__asan_default_options() { return "detect_stack_use_after_return=0:quarantine_size_mb=8:malloc_context_size=2:detect_leaks=0:exitcode=77:abort_on_error=0:allocator_may_return_null=1"; }
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=1"; }
#endif

void enumerate(const std::function<bool(const Cfg &)> &emit) {
  std::vector<int> Ms = {1, 2, 5, 6, 7, 8, 11, 12, 13, 17, 18, 19, 24, 25, 37, 48, 49}, Ns = {1, 2, 15, 16, 17, 31, 32, 33, 48, 49, 65, 97}, Ks = {1, 2, 3, 5, 6, 7, 9, 12, 13, 19, 25};
  std::vector<int> ps = {1, 2, 3, 4, 5, 7, 8, 16};
  std::vector<int> ms = {M_T1, M_T2, M_T3, M_T4, M_T5};
#ifdef MC_ASAN
  if (!thorough) { Ms = {1, 5, 6, 7, 8, 12, 13, 19, 25, 37}; Ns = {1, 15, 16, 17, 32, 33, 49, 65}; Ks = {1, 2, 3, 5, 6, 7, 13, 25}; ps = {1, 2, 3, 4, 7}; }
  const int rights = 1;
#else
  if (thorough) for (int i = 1; i < 60; i += 1) Ms.push_back(i);
  if (thorough) ps = {1, 2, 3, 4, 5, 6, 7, 8, 11, 16, 33};
  const int rights = FILL == 0xFF ? 2 : 1;
#endif
  for (int m : ms) for (int t = 0; t < 4; t++) for (int M : Ms) for (int N : Ns) for (int K : Ks) {
    if (t && !thorough && (M + N + K + m) % 4) continue;
    for (int p : ps) for (int r = 0; r < ROUTES; r++) {
      if (!thorough && p > 4 && (M + N + K) % 3) continue;
      for (int right = 0; right < rights; right++) {
        if (!emit(Cfg{m, t, r, M, N, K, p, 0, 0, 0, 1, 0, 0, right})) return;
      }
      if ((M + 2 * N + 3 * K + p) % 7 == 0) {
        if (!emit(Cfg{m, t, r, M, N, K, p, 0, 0, 0, 2, -1, 0, 0})) return;
        if (r < R_AUTO) for (int pk = 1; pk < 4; pk++) if (!emit(Cfg{m, t, r, M, N, K, p, 0, 0, 0, 1, 0, pk, 1})) return;
        int mr = tiles[t][0], nr = tiles[t][1];
        for (int u = 1; u < 3; u++) for (int ku : {1, 2, 5, 100}) if (!emit(Cfg{m, t, r, M, N, K, p, u * mr, ku, (3 - u) * nr, 1, 0, 0, 1})) return;
      }
    }
  }
  for (int m : thorough ? std::vector<int>{M_DESK, M_SMALL, MC_PI, M_SRV, M_REV, M_SKEW} : std::vector<int>{M_DESK, MC_PI, M_REV}) for (int p : {1, 2, 3, 4}) for (int r = 0; r < ROUTES; r++)
    for (int M : {1, 97, 301}) for (int N : {1, 65, 200}) for (int K : {1, 40, 193}) for (int right = 0; right < rights; right++) if (!emit(Cfg{m, 0, r, M, N, K, p, 0, 0, 0, 1, 0, 0, right})) return;
#ifdef MC_ASAN
  const int fp = 3;
#else
  const int fp = 16;
#endif
  for (const Far &f : far_shapes) for (int p : {1, fp}) for (int r = 0; r < ROUTES; r++) for (int right = 0; right < rights; right++) if (!emit(Cfg{M_DESK, 0, r, f.M, f.N, f.K, p, 0, 0, 0, 1, 0, 0, right})) return;
  // machines with unusual caches: L3 missing, equal levels, tiny or huge ones
  for (int r = 0; r < ROUTES; r++) for (int m : {M_SRV, M_SKEW}) for (int p : {1, 3, 16, 64}) for (int d : {1, 7, 130}) if (!emit(Cfg{m, 0, r, d, 2 * d + 1, d + 3, p, 0, 0, 0, 1, 0, 0, 1})) return;
}

void run_config(const Cfg &k) {
  int M = k[3], N = k[4], K = k[5], p = k[6], r = k[2];
  float alpha = k[10], beta = k[11];
  cake_cntx_t ctx;
  make_cntx(&ctx, k[0], k[1]);
  int lim = lim_for(4 * K);
  op.set(M, N, K, k[13], lim);
  mc::pol = mc::Policy();
  mc::reset_icv();
  mc::fill_byte = FILL;
  if (beta == 0) op.fill_c();
  else for (int i = 0; i < M * N; i++) op.C[i] = (i % 17) - 8;
  op.slack_reset();
  float *A = op.A, *B = op.B;
  if (k[12]) {
    blk_dims_t x;
    memset(&x, 0, sizeof x);
    cake_cntx_t c2 = ctx;
    init_block_dims(M, N, K, p, &x, &c2, (enum sched)r, NULL);
    size_t sa = cake_sgemm_packed_A_size(M, K, p, &x, &c2, (enum sched)r), sb = cake_sgemm_packed_B_size(K, N, p, &x, &c2);
    if (sa > pa.cap || sb > pb.cap) return;
    mc::run([&] {
      mc::Cake in;
      omp_set_num_threads(p);
      if (k[12] & 1) pack_A(A, (float *)pa.rw(sa, true), M, K, p, &x, &c2, (enum sched)r);
      if (k[12] & 2) pack_B(B, (float *)pb.rw(sb, true), K, N, p, &x, &c2, (enum sched)r);
    });
    if (k[12] & 1) A = (float *)pa.ro(sa, true);
    if (k[12] & 2) B = (float *)pb.ro(sb, true);
    if (mc::failed()) return;
  }
  uint64_t sig = structure(r, M, N, K, p, &ctx, k[7], k[8], k[9]);
  long sg[] = {(long)sig, k[10], k[12], k[13]};
  nontrivial(mc::hash_bytes(sg, sizeof sg));
  mc::run([&] { multiply(r, A, B, op.C, M, N, K, p, &ctx, k[12] & 1, k[12] & 2, alpha, beta, k[7], k[8], k[9]); });
  count("parallel regions", mc::st.regions);
  if (mc::failed()) return;
#ifndef MC_ASAN
  mc::check_canaries();
#endif
  if (!op.slack_ok()) return;
  // a value taken from fresh memory would be the fill pattern: the product must be exact
  for (int i = 0; i < M * N; i++) {
    float want = beta == 0 ? alpha * op.ref[i] : alpha * op.ref[i] + beta * ((i % 17) - 8);
    if (!(op.C[i] == want)) {
      uint32_t bits;
      memcpy(&bits, &op.C[i], 4);
      mc::fail("C[%d][%d] = %.9g (bits %08x), exact %.9g: a value came from memory the call never wrote", i / N, i % N, op.C[i], bits, want);
      return;
    }
  }
}
std::string describe(const Cfg &c) {
  char b[400];
  snprintf(b, sizeof b, "%s M=%ld N=%ld K=%ld p=%ld tile=%dx%d machine=%s(L1=%d L2=%d L3=%d) user tiles=%ldx%ldx%ld alpha=%ld beta=%ld packed=%s%s matrices at the %s of their pages", route_name[c[2]], c[3], c[4], c[5], c[6],
           tiles[c[1]][0], tiles[c[1]][1], machines[c[0]].name, machines[c[0]].L1, machines[c[0]].L2, machines[c[0]].L3, c[7], c[8], c[9], c[10], c[11], c[12] & 1 ? "A" : "", c[12] & 2 ? "B" : "", c[13] ? "end" : "start");
  return b;
}
std::string rule() {
#ifdef MC_ASAN
  return "each configuration runs the library built with AddressSanitizer and UndefinedBehaviorSanitizer, matrices ending at inaccessible pages; any report ends the run";
#else
  char b[600];
  snprintf(b, sizeof b, "each configuration runs with A, B (read-only) and C between inaccessible pages, at both ends of their pages, every library allocation before an inaccessible page with "
           "canaries on both sides and made inaccessible when freed, fresh memory filled with byte 0x%02x; the exact product is required; distinct_nontrivial counts distinct control structures", FILL);
  return b;
#endif
}
