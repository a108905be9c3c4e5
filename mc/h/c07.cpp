// C07: inputs untouched, exactly C defined, prior contents of C irrelevant, A and B may be the same memory
#include "common.h"
const char *PROP = MC_PROP("C07");
// cfg: machine tile route M N K p mcu kcu ncu right alias prior
static Operands op;
static const uint32_t prior[] = {0xFFC12345u, 0x7F800000u, 0xFF800000u, 0x00000001u, 0x4B7FFFFFu, 0x80000000u, 0x7F812345u};
static const char *prior_name[] = {"NaN", "inf", "-inf", "denormal", "2^24-1", "-0", "signalling NaN"};
void worker_init() { op.init(4 << 20, 4 << 20, 4 << 20); op.guard_fill(); }

void enumerate(const std::function<bool(const Cfg &)> &emit) {
  std::vector<int> Ms = {1, 5, 6, 7, 12, 13, 19, 25, 37, 49}, Ns = {1, 15, 16, 17, 32, 33, 49, 65}, Ks = {1, 2, 6, 7, 13, 25}, ps = {1, 2, 3, 4, 7};
  if (thorough) { for (int i = 1; i < 50; i++) Ms.push_back(i); Ns = {1, 2, 8, 14, 15, 16, 17, 18, 31, 32, 33, 34, 47, 48, 49, 64, 65, 97}; Ks = {1, 2, 3, 5, 6, 7, 9, 12, 13, 19, 25}; ps = {1, 2, 3, 4, 5, 6, 8, 16}; }
  for (int m : {M_T1, M_T2, M_T3, M_T4, M_T5}) for (int t = 0; t < 4; t++) for (int M : Ms) for (int N : Ns) for (int K : Ks) {
    if (t && (M + N + K + m) % 4 && !thorough && DERIVED) continue;
    for (int p : ps) for (int r = 0; r < ROUTES; r++) for (int right = 0; right < 2; right++) {
      int x = M + 3 * N + 5 * K + p + r;
      if (!emit(Cfg{m, t, r, M, N, K, p, 0, 0, 0, right, 0, 0})) return;
      if (!emit(Cfg{m, t, r, M, N, K, p, 0, 0, 0, right, x % 4 == 0 ? 1 : x % 4 == 1 ? 2 : 0, 1 + (x / 4) % 6})) return;
      if (x % 5 == 0 && !emit(Cfg{m, t, r, M, N, K, p, tiles[t][0] * (1 + x % 2), 1 + x % 4, tiles[t][1], right, 0, 0})) return;
    }
  }
  for (const Far &f : far_shapes) for (int p : {1, 3, 16}) for (int r = 0; r < ROUTES; r++) for (int right = 0; right < 2; right++) if (!emit(Cfg{M_DESK, 0, r, f.M, f.N, f.K, p, 0, 0, 0, right, 0, p % 7})) return;
  for (int m : {M_DESK, MC_PI, M_REV, M_SRV, M_SKEW, M_SMALL}) for (int p : {1, 2, 4, 7, 16, 33}) for (int r = 0; r < ROUTES; r++) for (int M : {1, 97, 301}) for (int N : {1, 65, 200}) for (int K : {1, 40, 193})
    for (int pr = 0; pr < 7; pr++) if (!emit(Cfg{m, 0, r, M, N, K, p, 0, 0, 0, pr & 1, pr == 3, pr})) return;
}

void run_config(const Cfg &k) {
  int r = k[2], M = k[3], N = k[4], K = k[5], p = k[6];
  cake_cntx_t ctx;
  make_cntx(&ctx, k[0], k[1]);
  mc::pol = mc::Policy();
  mc::reset_icv();
  int lim = lim_for(K);
  float *A, *B;
  std::vector<float> ref2;
  const float *ref;
  if (k[11]) {  // both operands are the same (read-only) array, or B begins inside A
    op.dirty();
    op.place(M, N, K, k[10]);
    size_t off = k[11] == 2 ? ((size_t)M * K + 1) / 2 : 0, n = std::max((size_t)M * K, off + (size_t)K * N);
    float *W = (float *)op.a.rw(n * 4, k[10]);
    A = (float *)op.a.ro(n * 4, k[10]);
    B = A + off;
    for (size_t i = 0; i < n; i++) W[i] = aval(i, 3, lim);
    ref2.assign((size_t)M * N, 0);
    for (int i = 0; i < M; i++) for (int x = 0; x < K; x++) for (int j = 0; j < N; j++) ref2[(size_t)i * N + j] += W[(size_t)i * K + x] * W[off + (size_t)x * N + j];
    ref = ref2.data();
  } else {
    op.set(M, N, K, k[10], lim);
    A = op.A;
    B = op.B;
    ref = op.ref.data();
  }
  size_t na = (size_t)M * K, nb = (size_t)K * N, nc = (size_t)M * N;
  uint64_t ha = mc::hash_bytes(A, na * 4), hb = mc::hash_bytes(B, nb * 4);
  uint32_t *cb = (uint32_t *)op.C;
  for (size_t i = 0; i < nc; i++) cb[i] = prior[k[12]];
  op.slack_reset();
  long sg[] = {(long)structure(r, M, N, K, p, &ctx, k[7], k[8], k[9]), k[10], k[11], k[12]};
  nontrivial(mc::hash_bytes(sg, sizeof sg));
  mc::run([&] { multiply(r, A, B, op.C, M, N, K, p, &ctx, 0, 0, 1, 0, k[7], k[8], k[9]); });
  struct Dirty { bool d; ~Dirty() { if (d) op.dirty(); } } dirty{k[11] != 0};
  if (mc::failed()) return;
  if (mc::hash_bytes(A, na * 4) != ha) { mc::fail("A was modified"); return; }
  if (mc::hash_bytes(B, nb * 4) != hb) { mc::fail("B was modified"); return; }
  if (!op.slack_ok()) return;
  for (size_t i = 0; i < nc; i++)
    if (!(op.C[i] == ref[i])) {
      mc::fail("C[%ld][%ld] = %.9g (bits %08x) with C holding %s before, exact product %.9g%s", (long)(i / N), (long)(i % N), op.C[i], cb[i], prior_name[k[12]], ref[i], cb[i] == prior[k[12]] ? " (never written)" : "");
      return;
    }
}
std::string describe(const Cfg &c) {
  char b[400];
  snprintf(b, sizeof b, "%s M=%ld N=%ld K=%ld p=%ld tile=%dx%d machine=%s user tiles=%ldx%ldx%ld, matrices at the %s of their pages%s, C holding %s before", route_name[c[2]], c[3], c[4], c[5], c[6],
           tiles[c[1]][0], tiles[c[1]][1], machines[c[0]].name, c[7], c[8], c[9], c[10] ? "end" : "start", c[11] == 2 ? ", B beginning in the middle of A" : c[11] ? ", A and B the same array" : "", prior_name[c[12]]);
  return b;
}
std::string rule() {
  return "each configuration runs with A and B mapped read-only (optionally the same array), C filled with NaN, infinities, denormals, a large value or -0 beforehand, and the bytes around C holding a pattern or "
         "inaccessible; the product must be exact whatever C held, A, B and the surroundings unchanged; distinct_nontrivial counts distinct (control structure, placement, aliasing, prior content)";
}
