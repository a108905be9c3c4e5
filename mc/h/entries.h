// Every public entry point with the resources it uses, shared by the ledger (C11) and the fault enumeration (C12).
#pragma once
#include "common.h"

enum Entry { E_KMN, E_MKN, E_NKM, E_AUTO, E_ONLINE, E_2D,             // multiplications
             E_QUERY, E_QUERY_TORCH, E_CACHE1, E_CACHE2, E_CACHE3, E_CORES,   // the machine
             E_DIMS, E_DIMS2D, E_CDIMS, E_SIZES, E_GRID,                   // tilings
             E_PACKA, E_PACKB, E_PACKC, E_UNPACKC, E_PACKA_PANEL, E_PACKB_PANEL,
             E_TRANSPOSE, E_MATEQ, E_CHECKER, E_ADDCHECK, E_RAND, E_TILE, ENTRIES };
static const char *entry_name[] = {"cake_sgemm/K-first", "cake_sgemm/M-first", "cake_sgemm/N-first", "cake_sgemm/automatic", "cake_sgemm_online", "cake_sgemm_2d",
                                   "cake_query_cntx", "cake_query_cntx_torch", "get_cache_size(1)", "get_cache_size(2)", "get_cache_size(3)", "get_num_physical_cores",
                                   "init_block_dims", "init_block_dims_2d", "get_cache_dims", "packed sizes", "grid_dims_2d",
                                   "pack_A", "pack_B", "pack_C", "unpack_C", "pack_A_single_buf_k_first_blis", "pack_B_k_first_blis",
                                   "transpose_mat", "mat_equals", "cake_sgemm_checker", "add_checker", "rand_init", "update_mr_nr"};
enum { V_PLAIN, V_PA, V_PB, V_PAB, V_NULL, V_USER, V_NULLUSER, V_NULLPAB, V_SCALED, VARIANTS };
static const char *variant_name[] = {"", ", A packed", ", B packed", ", A and B packed", ", no context", ", user tiles", ", no context and user tiles", ", no context, A and B packed", ", scaled by -2 and added to half of C"};
static bool uses_null(int v) { return v == V_NULL || v == V_NULLUSER || v == V_NULLPAB; }

// what the stand-in lscpu answers besides the caches
struct Probe { const char *name, *lscpu, *caches; int procs; bool fail; };
static const Probe probes[] = {
    {"desktop", "Architecture:  x86_64\nModel:  0\nThread(s) per core:  2\nSocket(s):  1\n", 0, 8, false},
    {"known model", "Model:  142\nThread(s) per core:  2\nSocket(s):  1\n", 0, 8, false},
    {"another known model", "Model name:  X\nModel:  3\nThread(s) per core:  1\nSocket(s):  1\n", 0, 4, false},
    {"empty lscpu", "", "", 4, false},
    {"lscpu fails", "", "", 4, true},
    {"no L3", "Model:  0\nThread(s) per core:  1\nSocket(s):  1\n", "L1d=32K,L1i=32K,L2=1M", 4, false},
    {"dashes", "Model:  -\nThread(s) per core:  -\nSocket(s):  -\n", "L1d=-,L1i=-,L2=-,L3=-", 4, false},
    {"no processors", "Model:  0\nThread(s) per core:  1\nSocket(s):  1\n", 0, 0, false},
};
enum { PROBES = 8 };
static void set_probe(int i, const Machine &m) {
  set_machine(m);
  const Probe &p = probes[i];
  setenv("MC_LSCPU", p.lscpu, 1);
  if (p.caches) setenv("MC_CACHES", p.caches, 1);
  if (p.fail) setenv("MC_LSCPU_FAIL", "1", 1);
  FILE *o = fopen(getenv("MC_CPUINFO"), "w");
  for (int k = 0; k < p.procs; k++) fprintf(o, "processor\t: %d\n\n", k);
  fclose(o);
}
static void unset_probe() {
  unset_machine();
  unsetenv("MC_LSCPU_FAIL");
  setenv("MC_LSCPU", probes[0].lscpu, 1);
}

static mc::GuardBuf ea, eb, ec, epa, epb, epc;
static void entries_init() { for (mc::GuardBuf *g : {&ea, &eb, &ec, &epa, &epb, &epc}) g->init(4 << 20); }
struct Job {
  int e, v, M, N, K, p, tile;
  cake_cntx_t ctx;
  float *A, *B, *C, *PA, *PB, *PC;
  size_t sa, sb, sc;
  blk_dims_t x;
  std::vector<float> want;      // the product
  void *ret = 0;                // object handed to the caller
  double value = 0;
};
// operands, packed operands and the reference product; runs library code
static bool prepare(Job &j, int machine, int e, int v, int M, int N, int K, int p, int tile) {
  j.e = e; j.v = v; j.M = M; j.N = N; j.K = K; j.p = p; j.tile = tile;
  make_cntx(&j.ctx, machine, tile);
  size_t na = (size_t)M * K, nb = (size_t)K * N, nc = (size_t)M * N;
  j.A = (float *)ea.rw(na * 4, true);
  j.B = (float *)eb.rw(nb * 4, true);
  j.C = (float *)ec.rw(nc * 4, true);
  for (size_t i = 0; i < na; i++) j.A[i] = (int)(mix(i, 5, seed) % 15) - 7;
  for (size_t i = 0; i < nb; i++) j.B[i] = (int)(mix(i, 6, seed) % 15) - 7;
  j.want.assign(nc, 0);
  for (int i = 0; i < M; i++) for (int x = 0; x < K; x++) for (int n = 0; n < N; n++) j.want[(size_t)i * N + n] += j.A[(size_t)i * K + x] * j.B[(size_t)x * N + n];
  memset(j.C, 0xFF, nc * 4);
  memset(&j.x, 0, sizeof j.x);
  enum sched s = e == E_AUTO ? NA : e == E_MKN ? MKN : e == E_NKM ? NKM : KMN;
  int u = v == V_USER || v == V_NULLUSER;
  init_block_dims(M, N, K, p, &j.x, &j.ctx, s, NULL, 4, u ? 24 : 0, u ? 5 : 0, u ? 32 : 0);
  s = j.x.sch;
  j.sa = cake_sgemm_packed_A_size(M, K, p, &j.x, &j.ctx, s);
  j.sb = cake_sgemm_packed_B_size(K, N, p, &j.x, &j.ctx);
  j.sc = cake_sgemm_packed_C_size(M, N, p, &j.x, &j.ctx, s);
  if (j.sa > epa.cap || j.sb > epb.cap || j.sc > epc.cap) return false;
  j.PA = (float *)epa.rw(j.sa, true);
  j.PB = (float *)epb.rw(j.sb, true);
  j.PC = (float *)epc.rw(j.sc, true);
  mc::run([&] { mc::Cake in; omp_set_num_threads(p); pack_A(j.A, j.PA, M, K, p, &j.x, &j.ctx, s); pack_B(j.B, j.PB, K, N, p, &j.x, &j.ctx, s); });
  mc::reset_icv();
  return !mc::failed();
}
// the call itself (inside mc::run)
static void perform(Job &j) {
  int M = j.M, N = j.N, K = j.K, p = j.p;
  cake_cntx_t *c = &j.ctx;
  enum sched s = j.x.sch;
  j.ret = 0;
  mc::Cake in;
  if (j.e <= E_2D) {
    bool pa = j.v == V_PA || j.v == V_PAB || j.v == V_NULLPAB, pb = j.v == V_PB || j.v == V_PAB || j.v == V_NULLPAB, u = j.v == V_USER || j.v == V_NULLUSER;
    cake_cntx_t *cc = uses_null(j.v) ? NULL : c;
    float *A = pa ? j.PA : j.A, *B = pb ? j.PB : j.B;
    int mcu = u ? 24 : 0, kcu = u ? 5 : 0, ncu = u ? 32 : 0;
    float al = j.v == V_SCALED ? -2 : 1, be = j.v == V_SCALED ? 0.5f : 0;
    // cake_sgemm_online and cake_sgemm_2d take the packed flags and ignore them: the operands stay plain
    if (j.e == E_ONLINE) j.value = cake_sgemm_online(j.A, j.B, j.C, M, N, K, p, cc, NULL, pa, pb, al, be, KMN, mcu, kcu, ncu);
    else if (j.e == E_2D) j.value = cake_sgemm_2d(j.A, j.B, j.C, M, N, K, p, cc, NULL, pa, pb, al, be, KMN, mcu, kcu, ncu);
    else j.value = cake_sgemm(A, B, j.C, M, N, K, p, cc, NULL, pa, pb, al, be, j.e == E_AUTO ? NA : j.e == E_MKN ? MKN : j.e == E_NKM ? NKM : KMN, mcu, kcu, ncu);
    return;
  }
  blk_dims_t y;
  switch (j.e) {
    case E_QUERY: j.ret = cake_query_cntx(); break;
    case E_QUERY_TORCH: j.ret = cake_query_cntx_torch(262144, 4194304); break;
    case E_CACHE1: get_cache_size(1); break;
    case E_CACHE2: get_cache_size(2); break;
    case E_CACHE3: get_cache_size(3); break;
    case E_CORES: get_num_physical_cores(); break;
    case E_DIMS: for (int t = 0; t < 4; t++) { init_block_dims(M, N, K, p, &y, c, (enum sched)t, NULL, 4, 0, 0, 0); init_block_dims(M, N, K, p, &y, c, (enum sched)t, NULL, 4, 24, 5, 32); } break;
    case E_DIMS2D: init_block_dims_2d(M, N, K, p, &y, c, KMN, NULL, 4, 0, 0, 0); init_block_dims_2d(M, N, K, p, &y, c, KMN, NULL, 4, 24, 5, 32); break;
    case E_CDIMS: j.ret = get_cache_dims(M, N, K, p, c, j.v == V_USER ? NKM : KMN, NULL, 4, 0, 0, 0); break;
    case E_SIZES: cake_sgemm_packed_A_size(M, K, p, &j.x, c, s); cake_sgemm_packed_B_size(K, N, p, &j.x, c); cake_sgemm_packed_C_size(M, N, p, &j.x, c, s); break;
    case E_GRID: grid_dims_2d(M, N, K, p, c->ncores); break;
    case E_PACKA: pack_A(j.A, j.PA, M, K, p, &j.x, c, s); break;
    case E_PACKB: pack_B(j.B, j.PB, K, N, p, &j.x, c, s); break;
    case E_PACKC: pack_C(j.C, j.PC, M, N, p, &j.x, c, s); break;
    case E_UNPACKC: unpack_C(j.C, j.PC, M, N, p, &j.x, c, s, 1, 0); break;
    case E_PACKA_PANEL: pack_A_single_buf_k_first_blis(j.A, j.PA, M, K, p, &j.x, c); break;
    case E_PACKB_PANEL: pack_B_k_first_blis(j.B, j.PB, K, N, &j.x, c); break;
    case E_TRANSPOSE: transpose_mat(j.A, j.PA, M, K, 8, 8); break;
    case E_MATEQ: j.value = mat_equals(j.C, j.v == V_USER ? j.C : j.want.data(), M, N); break;
    case E_CHECKER: j.value = cake_sgemm_checker(j.A, j.B, j.v == V_USER ? j.C : j.want.data(), N, M, K); break;
    case E_ADDCHECK: { float *arr[2] = {j.C, j.C}; j.value = add_checker(arr, j.v == V_USER ? j.C : j.want.data(), M, N, 2); break; }
    case E_RAND: rand_init(j.C, M, N); rand_gen(); normalRandom(); break;
    case E_TILE: update_mr_nr(c, tiles[j.M % 4][0], tiles[j.M % 4][1]); break;
  }
}
static bool probing(int e, int v) { return (e >= E_QUERY && e <= E_CORES) || (e <= E_2D && uses_null(v)); }
static std::string job_text(const long *c) {   // machine entry variant M N K p tile probe
  char b[400];
  snprintf(b, sizeof b, "%s%s M=%ld N=%ld K=%ld p=%ld tile=%dx%d machine=%s", entry_name[c[1]], c[1] <= E_2D ? variant_name[c[2]] : "", c[3], c[4], c[5], c[6], tiles[c[7]][0], tiles[c[7]][1], machines[c[0]].name);
  std::string s = b;
  if (probing(c[1], c[2])) s += std::string(" probing: ") + probes[c[8]].name;
  return s;
}
