// C18: packing is a lossless, zero-padded rearrangement; unpacking inverts it; the vector packers agree
#include "explore.h"
const char *PROP = MC_PROP("C18");
// cfg: kind ...   0: machine tile sched M N K p mcu kcu ncu;  1: the panel packers directly: which k pitch pitch2 ldp
static mc::GuardBuf a, d, d2;
static bool plain_match;
void worker_init() { for (mc::GuardBuf *g : {&a, &d, &d2}) g->init(16 << 20); }

void enumerate(const std::function<bool(const Cfg &)> &emit) {
#ifdef MC_TSAN
  std::vector<int> ms = {1, 7, 13, 25, 37}, ns = {1, 17, 33, 49}, ks = {1, 2, 7, 13};
  if (thorough) { ms = {1, 5, 6, 7, 12, 13, 18, 19, 25, 31, 37, 49, 61}; ns = {1, 15, 16, 17, 31, 33, 49, 65, 81}; ks = {1, 2, 3, 6, 7, 13, 25}; }
  for (int m : {M_T1, M_T2, M_T3, M_T5}) for (int t : {0, 3}) for (int p : {2, 3, 4, 8}) for (int s = 0; s < 3; s++) for (int w = 0; w < (s == KMN ? 6 : 4); w++)
    for (int M : ms) for (int N : ns) for (int K : ks) {
      if ((w == 0 || w == 4) && N != 17) continue;
      if ((w == 1 || w == 5) && M != 13) continue;
      if ((w == 2 || w == 3) && K != 7) continue;
      if (!emit(Cfg{2, m, t, s, M, N, K, p, 0, 0, 0, w})) return;
    }
  return;
#endif
  for (int w = 0; w < 4; w++) for (int k = 1; k <= (thorough ? 200 : 70); k++) for (int pitch : {0, 1, 3, 8, 100}) for (int al = 0; al < 2; al++) if (!emit(Cfg{1, w, k, pitch, al})) return;
  std::vector<int> Ms = {1, 5, 6, 7, 12, 13, 18, 19, 25, 37, 49}, Ns = {1, 15, 16, 17, 31, 33, 49, 65}, Ks = {1, 2, 3, 6, 7, 13, 25}, ps = {1, 2, 3, 4, 5, 7};
  if (thorough) { Ms.clear(); for (int i = 1; i < 56; i++) Ms.push_back(i); Ns.clear(); for (int i = 1; i < 70; i += i < 36 ? 1 : 3) Ns.push_back(i); Ks = {1, 2, 3, 5, 6, 7, 9, 12, 13, 18, 19, 25, 37}; ps = {1, 2, 3, 4, 5, 6, 7, 8, 16}; }
  for (int m : {M_T1, M_T2, M_T3, M_T4, M_T5}) for (int t = 0; t < 4; t++) for (int M : Ms) for (int N : Ns) for (int K : Ks) {
    if (t && (M + N + K + m) % 3 && !thorough) continue;
    for (int p : ps) for (int s = 0; s < 3; s++) {
      int x = M + 3 * N + 5 * K + p + s;
      if (thorough && x % 3) continue;
      if (!emit(Cfg{0, m, t, s, M, N, K, p, 0, 0, 0})) return;
      if (x % 3 == 0 && !emit(Cfg{0, m, t, s, M, N, K, p, tiles[t][0] * (1 + x % 4), 1 + x % 7, tiles[t][1] * (1 + x / 3 % 3)})) return;
    }
  }
  for (const Far &f : far_shapes) for (int m : {M_DESK, M_T2}) for (int t : {0, 3}) for (int p : {1, 3, 16}) for (int s = 0; s < 3; s++) if (!emit(Cfg{0, m, t, s, f.M, f.N, f.K, p, 0, 0, 0})) return;
  for (int m : {M_DESK, MC_PI, M_REV, M_SMALL, M_SRV}) for (int p : {1, 2, 3, 4, 8}) for (int s = 0; s < 3; s++) for (int M : {1, 97, 301, 700}) for (int N : {1, 65, 200, 600}) for (int K : {1, 40, 193})
    if (!emit(Cfg{0, m, 0, s, M, N, K, p, 0, 0, 0})) return;
}

static const uint32_t UNW = 0xFFC0BEEFu;
// elements carry 1..n as bit patterns of normal numbers
static uint32_t tag(size_t i) { return 0x3F800000u + (uint32_t)i; }
static std::vector<uint8_t> seen;
static bool judge(const char *what, uint32_t *buf, size_t bytes, size_t elems) {
  size_t n = bytes / 4, found = 0;
  if (bytes % 4 || n < elems) { mc::fail("%s: %zu bytes reported for %zu elements", what, bytes, elems); return false; }
  seen.assign(elems, 0);
  for (size_t i = 0; i < n; i++) {
    if (buf[i] == UNW) { mc::fail("%s: element %zu of %zu of the packed buffer is not written", what, i, n); return false; }
    if (buf[i] == 0) continue;
    size_t e = buf[i] - 0x3F800000u;
    if (buf[i] == 0x80000000u) continue;
    if (e >= elems) { mc::fail("%s: position %zu holds 0x%08x, which is neither zero nor an element", what, i, buf[i]); return false; }
    if (seen[e]) { mc::fail("%s: element %zu is stored twice", what, e); return false; }
    seen[e] = 1;
    found++;
  }
  if (found != elems) {
    size_t e = 0;
    while (seen[e]) e++;
    mc::fail("%s: element %zu of the matrix is missing", what, e);
    return false;
  }
  return true;
}
static float *matrix(size_t n) {
  uint32_t *A = (uint32_t *)a.rw(n * 4, true);
  for (size_t i = 0; i < n; i++) A[i] = tag(i);
  return (float *)a.ro(n * 4, true);
}
static uint32_t *dest(mc::GuardBuf &g, size_t bytes) {
  uint32_t *p = (uint32_t *)g.rw(bytes, true);
  for (size_t i = 0; i < bytes / 4; i++) p[i] = UNW;
  for (size_t i = 1; i <= 1024 && (char *)(p - i) >= g.rwbase; i++) p[-(long)i] = 0x5A5A5A5A;
  return p;
}
static bool before_ok(mc::GuardBuf &g, uint32_t *p, const char *what) {
  for (size_t i = 1; i <= 1024 && (char *)(p - i) >= g.rwbase; i++) if (p[-(long)i] != 0x5A5A5A5A) { mc::fail("%s: write before the packed buffer", what); return false; }
  return true;
}

static void panels(const Cfg &k) {
  // which: 0/1: 6-row (Armv8: 8-row) panel from row-/column-stored A; 2/3: 16-column (Armv8: 12-column) panel from row-/column-stored B
  #ifdef MC_ARM
  int w = k[1], kk = k[2], mnr = w < 2 ? 8 : 12;
  auto f = mnr == 8 ? bli_spackm_armv8a_int_8xk : bli_spackm_armv8a_int_12xk;
#else
  int w = k[1], kk = k[2], mnr = w < 2 ? 6 : 16;
  auto f = mnr == 6 ? bli_spackm_haswell_asm_6xk_new : bli_spackm_haswell_asm_16xk_new;
#endif
  bool col = w & 1 ? w < 2 : w >= 2;     // the element stride within the panel is 1
  int extra = k[3], lead = (col ? mnr : kk) + extra;
  if (lead == 1) return;                 // both strides 1: either interpretation
  size_t n = (size_t)lead * (col ? kk : mnr);
  // the source ends right after the last element used when al == 0
  size_t used = col ? (size_t)lead * (kk - 1) + mnr : (size_t)lead * (mnr - 1) + kk;
  if (k[4]) used = n;
  uint32_t *A = (uint32_t *)a.rw(used * 4, true);
  for (size_t i = 0; i < used; i++) A[i] = tag(i);
  float *RA = (float *)a.ro(used * 4, true);
  uint32_t *P = dest(d, (size_t)mnr * kk * 4);
  float kappa = 1;
  int inca = col ? 1 : lead, lda = col ? lead : 1;
  mc::run([&] { mc::Cake in; f(mnr, kk, &kappa, RA, inca, lda, (float *)P, mnr); });
  count("panels packed");
  if (mc::failed()) return;
  for (int x = 0; x < kk; x++) for (int i = 0; i < mnr; i++)
    if (P[x * mnr + i] != tag((size_t)i * inca + (size_t)x * lda)) { mc::fail("%dxk panel, k=%d, strides %d and %d: position (%d,%d) holds 0x%08x instead of element %zu", mnr, kk, inca, lda, i, x, P[x * mnr + i], (size_t)i * inca + (size_t)x * lda); return; }
  if (!before_ok(d, P, "panel")) return;
  // the plain packers give the same panel
  uint32_t *Q = dest(d2, (size_t)mnr * kk * 4);
  if (w == 0) { mc::run([&] { mc::Cake in; pack_A_mr_x_kc(RA, (float *)Q, lead, kk, mnr); }); }
  else if (w == 2 || w == 3) {
    if (!col) return;
    mc::run([&] { mc::Cake in; pack_B_nr_x_kc(RA, (float *)Q, lead, kk, mnr); });
  } else return;
  if (mc::failed()) return;
  if (memcmp(P, Q, (size_t)mnr * kk * 4)) mc::fail("%dxk panel, k=%d: the plain packer gives another panel", mnr, kk);
  nontrivial(1000000 + w * 1000 + kk);
}

#ifdef MC_TSAN
// every interleaving of one packing or unpacking
static void interleaved(const Cfg &k) {
  enum sched s = (enum sched)k[3];
  int M = k[4], N = k[5], K = k[6], p = k[7], w = k[11];
  static const char *nm[] = {"pack_A", "pack_B", "pack_C", "unpack_C", "pack_A_single_buf_k_first_blis", "pack_B_k_first_blis"};
  cake_cntx_t ctx;
  make_cntx(&ctx, k[1], k[2]);
  blk_dims_t x;
  memset(&x, 0, sizeof x);
  init_block_dims(M, N, K, p, &x, &ctx, s, NULL);
  int o = w < 3 ? w : w == 3 ? 2 : w - 4;   // the operand
  size_t sz = o == 0 ? cake_sgemm_packed_A_size(M, K, p, &x, &ctx, s) : o == 1 ? cake_sgemm_packed_B_size(K, N, p, &x, &ctx) : cake_sgemm_packed_C_size(M, N, p, &x, &ctx, s);
  size_t el = o == 0 ? (size_t)M * K : o == 1 ? (size_t)K * N : (size_t)M * N;
  if (sz > d.cap) return;
  float *X = matrix(el);
  float *RP = (float *)d.ro(sz, true);
  if (w == 3) {
    uint32_t *P = dest(d, sz);
    mc::run([&] { mc::Cake in; omp_set_num_threads(p); pack_C(X, (float *)P, M, N, p, &x, &ctx, s); });
    if (mc::failed()) return;
  }
  uint64_t first = 0;
  bool have = false;
  interleavings(thorough ? 3 : 2, thorough ? 50000 : 400, [&] {
    uint32_t *P = w == 3 ? dest(d2, el * 4) : dest(d, sz);
    if (!mc::run([&] {
      mc::Cake in;
      omp_set_num_threads(p);
      switch (w) {
        case 0: pack_A(X, (float *)P, M, K, p, &x, &ctx, s); break;
        case 1: pack_B(X, (float *)P, K, N, p, &x, &ctx, s); break;
        case 2: pack_C(X, (float *)P, M, N, p, &x, &ctx, s); break;
        case 3: unpack_C((float *)P, RP, M, N, p, &x, &ctx, s, 1, 0); break;
        case 4: pack_A_single_buf_k_first_blis(X, (float *)P, M, K, p, &x, &ctx); break;
        case 5: pack_B_k_first_blis(X, (float *)P, K, N, &x, &ctx); break;
      }
    })) return false;
    if (w == 3) { for (size_t i = 0; i < el; i++) if (P[i] != tag(i)) { mc::fail("unpack_C in some interleaving: element (%zu,%zu) is 0x%08x", i / N, i % N, P[i]); return false; } return true; }
    if (!judge(nm[w], P, sz, el) || !before_ok(d, P, nm[w])) return false;
    uint64_t h = mc::hash_bytes(P, sz);
    if (have && h != first) { mc::fail("%s: the packed buffer depends on the interleaving", nm[w]); return false; }
    first = h; have = true;
    return true;
  });
  nontrivial(mc::hash_bytes(k.v, sizeof k.v));
}
#endif
void run_config(const Cfg &k) {
  mc::pol = mc::Policy();
  mc::reset_icv();
#ifdef MC_TSAN
  interleaved(k);
  return;
#endif
  if (k[0] == 1) { panels(k); nontrivial(mc::hash_bytes(k.v, sizeof k.v)); return; }
  enum sched s = (enum sched)k[3];
  int M = k[4], N = k[5], K = k[6], p = k[7];
  cake_cntx_t ctx;
  make_cntx(&ctx, k[1], k[2]);
  blk_dims_t x;
  memset(&x, 0, sizeof x);
  init_block_dims(M, N, K, p, &x, &ctx, s, NULL, 4, k[8], k[9], k[10]);
  nontrivial(structure(s, M, N, K, p, &ctx, k[8], k[9], k[10]));
  size_t sz[3] = {cake_sgemm_packed_A_size(M, K, p, &x, &ctx, s), cake_sgemm_packed_B_size(K, N, p, &x, &ctx), cake_sgemm_packed_C_size(M, N, p, &x, &ctx, s)};
  size_t el[3] = {(size_t)M * K, (size_t)K * N, (size_t)M * N};
  static const char *nm[] = {"pack_A", "pack_B", "pack_C"};
  for (int w = 0; w < 3; w++) {
    if (sz[w] > d.cap) continue;
    float *X = matrix(el[w]);
    uint64_t first = 0;
    for (int o = 0; o < 2; o++) {
      mc::pol.team_cap = o ? 1 + (M + N + p) % p : 0;
      mc::pol.order = o ? mc::DESC : mc::ASC;
      uint32_t *P = dest(d, sz[w]);
      mc::run([&] {
        mc::Cake in;
        omp_set_num_threads(p);
        if (w == 0) pack_A(X, (float *)P, M, K, p, &x, &ctx, s);
        else if (w == 1) pack_B(X, (float *)P, K, N, p, &x, &ctx, s);
        else pack_C(X, (float *)P, M, N, p, &x, &ctx, s);
      });
      count("matrices packed");
      if (mc::failed()) return;
      if (!judge(nm[w], P, sz[w], el[w]) || !before_ok(d, P, nm[w])) return;
      uint64_t h = mc::hash_bytes(P, sz[w]);
      if (o && h != first) { mc::fail("%s: the packed buffer depends on the team", nm[w]); return; }
      first = h;
      if (o) continue;
      if (w == 2) {
        // unpack into poisoned memory
        for (int t = 0; t < 3; t++) {
          mc::pol.team_cap = t == 1 ? 1 : 0;
          uint32_t *C = dest(d2, el[2] * 4);
          float *RP = (float *)d.ro(sz[2], true);
          // the third time twice the packed matrix minus the same matrix, which is exact
          if (t == 2) for (size_t i = 0; i < el[2]; i++) C[i] = tag(i);
          mc::run([&] { mc::Cake in; omp_set_num_threads(p); unpack_C((float *)C, RP, M, N, p, &x, &ctx, s, t == 2 ? 2 : 1, t == 2 ? -1 : 0); });
          count("matrices unpacked");
          if (mc::failed() || !before_ok(d2, C, "unpack_C")) return;
          for (size_t i = 0; i < el[2]; i++) if (C[i] != tag(i)) { mc::fail("unpack_C: element (%zu,%zu) is 0x%08x after packing and unpacking%s%s", i / N, i % N, C[i], t == 2 ? " with alpha 2 and beta -1" : "", C[i] == UNW ? " (not written)" : ""); return; }
        }
      } else if (s == KMN) {
        // the panel-packer variants for K-first
        uint32_t *Q = dest(d2, sz[w]);
        mc::run([&] {
          mc::Cake in;
          omp_set_num_threads(p);
          if (w == 0) pack_A_single_buf_k_first_blis(X, (float *)Q, M, K, p, &x, &ctx);
          else pack_B_k_first_blis(X, (float *)Q, K, N, &x, &ctx);
        });
        count("matrices packed");
        if (mc::failed()) return;
        if (!before_ok(d2, Q, "panel packer variant")) return;
        if (memcmp(P, Q, sz[w])) { mc::fail("%s: the panel-packer variant gives another buffer", nm[w]); return; }
      }
    }
  }
}
std::string describe(const Cfg &c) {
  char b[400];
  static const char *sn[] = {"K-first", "M-first", "N-first"};
  if (c[0] == 2) {
    static const char *nm[] = {"pack_A", "pack_B", "pack_C", "unpack_C", "pack_A_single_buf_k_first_blis", "pack_B_k_first_blis"};
    snprintf(b, sizeof b, "every interleaving of %s %s M=%ld N=%ld K=%ld p=%ld tile=%dx%d machine=%s", nm[c[11]], sn[c[3]], c[4], c[5], c[6], c[7], tiles[c[2]][0], tiles[c[2]][1], machines[c[1]].name);
    return b;
  }
  if (c[0] == 1) snprintf(b, sizeof b, "%s panel packer, k=%ld, pitch %ld above the least", c[1] < 2 ? (c[1] ? "6xk column-stored" : "6xk row-stored") : c[1] == 2 ? "16xk column-stored" : "16xk row-stored", c[2], c[3]);
  else snprintf(b, sizeof b, "%s M=%ld N=%ld K=%ld p=%ld tile=%dx%d machine=%s user tiles=%ldx%ldx%ld", sn[c[3]], c[4], c[5], c[6], c[7], tiles[c[2]][0], tiles[c[2]][1], machines[c[1]].name, c[8], c[9], c[10]);
  return b;
}
std::string rule() {
#ifdef MC_TSAN
  return "conflict detection by vector clocks and delay-bounded exploration of every packing and unpacking function: every schedule with at most 2 (thorough: 3) departures from run-to-completion, scheduling points at synchronisation operations and at every location two threads access without order";
#endif
  return "each element carries its own bit pattern and the destination, of exactly the reported size and next to an inaccessible page, a poison pattern: after packing every position must be zero or an element and each element occur once, "
         "also under another team; unpack_C of pack_C restores the matrix; the panel packers are run on every depth up to the bound with both storages and several pitches; distinct_nontrivial counts distinct control structures";
}
