// C08: pre-packed operands
#include "common.h"
const char *PROP = MC_PROP("C08");
// cfg: machine tile sched M N K p mcu kcu ncu
static mc::GuardBuf a, b, c, pa, pb;
static std::vector<float> base;
void worker_init() { for (mc::GuardBuf *g : {&a, &b, &c, &pa, &pb}) g->init(16 << 20); }
static float fl(uint32_t h) { return ((int)(h >> 8) - (1 << 23)) / 8388608.0f * (1 + (h & 7)); }

void enumerate(const std::function<bool(const Cfg &)> &emit) {
  std::vector<int> Ms = {1, 5, 6, 7, 12, 13, 18, 19, 25, 37, 49}, Ns = {1, 15, 16, 17, 31, 33, 49, 65}, Ks = {1, 2, 3, 6, 7, 13, 25}, ps = {1, 2, 3, 4, 5, 7};
  if (thorough) { Ms.clear(); for (int i = 1; i < 56; i++) Ms.push_back(i); Ns = {1, 2, 8, 15, 16, 17, 18, 31, 32, 33, 34, 47, 48, 49, 64, 65, 97}; Ks = {1, 2, 3, 5, 6, 7, 9, 12, 13, 18, 19, 25, 37}; ps = {1, 2, 3, 4, 5, 6, 7, 8, 16}; }
  for (int m : {M_T1, M_T2, M_T3, M_T4, M_T5}) for (int t = 0; t < 4; t++) for (int M : Ms) for (int N : Ns) for (int K : Ks) {
    if (t && (M + N + K + m) % 3 && !thorough && DERIVED) continue;
    for (int p : ps) for (int s = 0; s < 4; s++) {
      if (!emit(Cfg{m, t, s, M, N, K, p, 0, 0, 0})) return;
      int x = M + 3 * N + 5 * K + p + s;
      if (x % 3 == 0 && !emit(Cfg{m, t, s, M, N, K, p, tiles[t][0] * (1 + x % 4), 1 + x % 7, tiles[t][1] * (1 + x % 2)})) return;
    }
  }
  for (const Far &f : far_shapes) for (int p : {1, 3, 16}) for (int s = 0; s < 4; s++) if (!emit(Cfg{M_DESK, 0, s, f.M, f.N, f.K, p, 0, 0, 0})) return;
  for (int m : {M_DESK, MC_PI, M_REV, M_SMALL, M_SRV, M_SKEW}) for (int p : {1, 2, 3, 4, 7, 16, 33}) for (int s = 0; s < 4; s++) for (int M : {1, 97, 301, 700}) for (int N : {1, 65, 200, 600}) for (int K : {1, 40, 193, 420})
    if (!emit(Cfg{m, 0, s, M, N, K, p, 0, 0, 0})) return;
}

void run_config(const Cfg &k) {
  int s = k[2], M = k[3], N = k[4], K = k[5], p = k[6];
  cake_cntx_t ctx;
  make_cntx(&ctx, k[0], k[1]);
  mc::pol = mc::Policy();
  mc::reset_icv();
  float *A = (float *)a.rw((size_t)M * K * 4, true), *B = (float *)b.rw((size_t)K * N * 4, true), *C = (float *)c.rw((size_t)M * N * 4, true);
  for (int i = 0; i < M * K; i++) A[i] = fl(mix(i, M, seed));
  for (int i = 0; i < N * K; i++) B[i] = fl(mix(i, N, seed + 7));
  A = (float *)a.ro((size_t)M * K * 4, true);
  B = (float *)b.ro((size_t)K * N * 4, true);
  size_t nc = (size_t)M * N;
  memset(C, 0xFF, nc * 4);
  nontrivial(structure(s, M, N, K, p, &ctx, k[7], k[8], k[9]));
  mc::run([&] { multiply(s, A, B, C, M, N, K, p, &ctx, 0, 0, 1, 0, k[7], k[8], k[9]); });
  if (mc::failed()) return;
  base.assign(C, C + nc);

  blk_dims_t x;
  memset(&x, 0, sizeof x);
  make_cntx(&ctx, k[0], k[1]);
  init_block_dims(M, N, K, p, &x, &ctx, (enum sched)s, NULL, 4, k[7], k[8], k[9]);
  enum sched sch = x.sch;
  size_t sa = cake_sgemm_packed_A_size(M, K, p, &x, &ctx, sch), sb = cake_sgemm_packed_B_size(K, N, p, &x, &ctx);
  if (sa + 64 > pa.cap || sb + 64 > pb.cap) return;
  // a buffer of the user's is aligned as a float is, no more (the kernels of BLIS ask for more)
  size_t oa = 0, ob = 0;
#ifndef USE_BLIS
  oa = 4 * ((M + 2 * N + 3 * K + 7 * p + s) % 16);
  ob = 4 * ((3 * M + N + 5 * K + p + 3 * s) % 16);
#endif
  float *PA = (float *)pa.rw(sa + oa, true), *PB = (float *)pb.rw(sb + ob, true);  // then oa and ob bytes that belong to no one
  memset(PA, 0x5A, sa + oa);
  memset(PB, 0x5A, sb + ob);
  memset(PA, 0xFF, sa);
  memset(PB, 0xFF, sb);
  mc::run([&] { mc::Cake in; omp_set_num_threads((M + N + K) % 4 == 0 ? 1 : (M + N + K) % 4 == 1 ? p + 2 : p); pack_A(A, PA, M, K, p, &x, &ctx, sch); pack_B(B, PB, K, N, p, &x, &ctx, sch); });
  if (mc::failed()) return;
  for (size_t i = 0; i < oa; i++) if (((unsigned char *)PA)[sa + i] != 0x5A) { mc::fail("pack_A wrote behind a buffer of the reported size"); return; }
  for (size_t i = 0; i < ob; i++) if (((unsigned char *)PB)[sb + i] != 0x5A) { mc::fail("pack_B wrote behind a buffer of the reported size"); return; }
  uint64_t ha = mc::hash_bytes(PA, sa), hb = mc::hash_bytes(PB, sb);
  float *RA = (float *)pa.ro(sa + oa, true), *RB = (float *)pb.ro(sb + ob, true);
  for (int round = 0; round < 2; round++)
    for (int w = 1; w < 4; w++) {
      memset(C, 0xFF, nc * 4);
      size_t live = mc::live_count();
      mc::run([&] { multiply(s, w & 1 ? RA : A, w & 2 ? RB : B, C, M, N, K, p, &ctx, w & 1, w & 2, 1, 0, k[7], k[8], k[9]); });
      const char *who = w == 1 ? "A" : w == 2 ? "B" : "A and B";
      if (mc::failed()) return;
      for (size_t i = 0; i < nc; i++)
        if (memcmp(&C[i], &base[i], 4)) {
          mc::fail("%s pre-packed%s: C[%ld][%ld] = %.9g, with plain matrices %.9g", who, round ? " (second use)" : "", (long)(i / N), (long)(i % N), C[i], base[i]);
          return;
        }
      if (mc::live_count() != live) { mc::fail("%s pre-packed: %ld blocks allocated and not freed", who, (long)(mc::live_count() - live)); return; }
      if (mc::hash_bytes(PA, sa) != ha || mc::hash_bytes(PB, sb) != hb) { mc::fail("a packed buffer was modified"); return; }
      count("multiplications with pre-packed operands");
    }
}
std::string describe(const Cfg &c) {
  char b[400];
  snprintf(b, sizeof b, "%s M=%ld N=%ld K=%ld p=%ld tile=%dx%d machine=%s user tiles=%ldx%ldx%ld, A, B and both packed beforehand", route_name[c[2]], c[3], c[4], c[5], c[6],
           tiles[c[1]][0], tiles[c[1]][1], machines[c[0]].name, c[7], c[8], c[9]);
  return b;
}
std::string rule() {
  return "each configuration multiplies plain matrices (not exactly representable sums), packs A and B into buffers of exactly the reported size between inaccessible pages, aligned to 4, 8, ... 64 bytes, and multiplies with A, B and both packed, "
         "twice each, the packed buffers mapped read-only: bits of C, buffers and the allocation ledger compared; distinct_nontrivial counts distinct control structures";
}
