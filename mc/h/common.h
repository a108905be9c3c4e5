// Shared by the checks of the multiply entry points: machines, contexts, operands, reference product.
#pragma once
#include "main.h"
#include <cmath>
#include "cake.h"
// register-name macros of bli_x86_asm_macros.h
#undef al
#undef ah
#undef bl
#undef bh
#undef cl
#undef ch
#undef dl
#undef dh
#undef ax
#undef bx
#undef cx
#undef dx
#undef si
#undef di
#undef bp
#undef sp

// ---- machines: what the stand-in lscpu reports ------------------------------------------------------------------
struct Machine { const char *name; int L1, L2, L3, cores; };
// With the caches of a "tiny" machine every block is one or two register tiles, so that all block structures
// (several blocks per dimension, corner turns, partial last blocks, partial slices) occur at dimensions <= 60.
static const Machine machines[] = {
    {"t1", 608 * 1, 1824, 4096, 4},        // one 6x16 tile per block
    {"t2", 4 * (96 + 22 * 2), 4224, 40960, 4},   // two tiles high, depth-2 panels in 2D, wide N blocks
    {"t3", 4 * (96 + 22 * 5), 7200, 1048576, 4},  // three tiles high, L3 much larger (alpha >> 1)
    {"t4", 1024, 2432, 2048, 1},                  // L3 smaller than L2 (alpha < 1)
    {"t5", 4 * (96 + 22 * 3), 1824, 262144, 2},   // one-tile blocks high, several tiles wide
    {"desk", 32768, 1048576, 8388608, 4},
    {"small", 32768, 262144, 4194304, 2},
    {"pi", 32768, 32768, 524288, 4},
    {"srv", 49152, 2097152, 37748736, 16},
    {"rev", 32768, 1048576, 65536, 8},            // L3 below one block
    {"skew", 8192, 16384, 67108864, 3},           // alpha ~ 30
};
enum { M_T1, M_T2, M_T3, M_T4, M_T5, M_DESK, M_SMALL, MC_PI, M_SRV, M_REV, M_SKEW, MACHINES };

static std::string kib(long bytes) {
  char b[64];
  snprintf(b, sizeof b, "%.10g", bytes / 1024.0);
  return std::string(b) + "K";
}
static void set_machine(const Machine &m) {
  const char *stubs = getenv("MC_STUBS");
  if (!stubs) { fprintf(stderr, "MC_STUBS unset\n"); _exit(99); }
  std::string caches = "L1d=" + kib(m.L1) + ",L1i=32K,L2=" + kib(m.L2) + ",L3=" + kib(m.L3);
  setenv("MC_CACHES", caches.c_str(), 1);
  unsetenv("MC_CACHES_ALL");
  char f[300];
  snprintf(f, sizeof f, "%s/cpuinfo.%d.%d", stubs, m.cores, (int)getpid());
  FILE *o = fopen(f, "w");
  for (int i = 0; i < m.cores; i++) fprintf(o, "processor\t: %d\n\n", i);
  fclose(o);
  setenv("MC_CPUINFO", f, 1);
}
static void unset_machine() { unlink(getenv("MC_CPUINFO")); }
#ifdef MC_ARM
static const int tiles[4][2] = {{8, 12}, {8, 24}, {10, 12}, {10, 24}};
#elif defined MC_BLIS   // one kernel
static const int tiles[4][2] = {{6, 16}, {6, 16}, {6, 16}, {6, 16}};
#else
static const int tiles[4][2] = {{6, 16}, {6, 32}, {8, 16}, {8, 32}};
#endif

// a context of the machine with the register tile selected, as cake_query_cntx makes it
static cake_cntx_t machine_cntx(int m) {
  static cake_cntx_t memo[MACHINES];
  static bool have[MACHINES];
  if (!have[m]) {
    set_machine(machines[m]);
    int save = mc::in_cake;
    mc::in_cake = 0;
    cake_cntx_t *c = cake_query_cntx();
    memo[m] = *c;
    free(c);
    mc::in_cake = save;
    unset_machine();
    have[m] = true;
    if (memo[m].L2 != machines[m].L2 || memo[m].L3 != machines[m].L3 || memo[m].L1 != machines[m].L1 || memo[m].ncores != machines[m].cores) {
      // reading the machine is C13's subject: the other checks need the caches they are about
      memo[m].L1 = machines[m].L1;
      memo[m].L2 = machines[m].L2;
      memo[m].L3 = machines[m].L3;
      memo[m].ncores = machines[m].cores;
    }
  }
  return memo[m];
}
static void make_cntx(cake_cntx_t *c, int machine, int tile) {
  *c = machine_cntx(machine);
  update_mr_nr(c, tiles[tile][0], tiles[tile][1]);
}

// ---- entry points ----------------------------------------------------------------------------------------------------
// route: 0..3 cake_sgemm with KMN, MKN, NKM, automatic schedule; 4 cake_sgemm_online; 5 cake_sgemm_2d
enum { R_KMN, R_MKN, R_NKM, R_AUTO, R_ONLINE, R_2D, ROUTES };
static const char *route_name[] = {"cake_sgemm/K-first", "cake_sgemm/M-first", "cake_sgemm/N-first", "cake_sgemm/automatic", "cake_sgemm_online", "cake_sgemm_2d"};

// shapes far beyond the small scope: dimensions past 16 bits, and some past the usual blocks in two dimensions
struct Far { int M, N, K; };
static const Far far_shapes[] = {{65537, 1, 1}, {1, 65537, 1}, {1, 1, 65537}, {65543, 7, 2}, {5, 65551, 3}, {7, 9, 65539}, {20011, 33, 2}, {3, 20011, 17}, {13, 18, 20011},
                                 {1030, 513, 3}, {130, 1030, 70}, {70, 40, 1030}, {257, 259, 263}};

static double multiply(int route, float *A, float *B, float *C, int M, int N, int K, int p, cake_cntx_t *ctx, bool pa = 0, bool pb = 0,
                       float alpha = 1, float beta = 0, int mcu = 0, int kcu = 0, int ncu = 0) {
  mc::Cake in;
  switch (route) {
    case R_KMN: return cake_sgemm(A, B, C, M, N, K, p, ctx, NULL, pa, pb, alpha, beta, KMN, mcu, kcu, ncu);
    case R_MKN: return cake_sgemm(A, B, C, M, N, K, p, ctx, NULL, pa, pb, alpha, beta, MKN, mcu, kcu, ncu);
    case R_NKM: return cake_sgemm(A, B, C, M, N, K, p, ctx, NULL, pa, pb, alpha, beta, NKM, mcu, kcu, ncu);
    case R_AUTO: return cake_sgemm(A, B, C, M, N, K, p, ctx, NULL, pa, pb, alpha, beta, NA, mcu, kcu, ncu);
    case R_ONLINE: return cake_sgemm_online(A, B, C, M, N, K, p, ctx, NULL, 0, 0, alpha, beta, KMN, mcu, kcu, ncu);
    case R_2D: return cake_sgemm_2d(A, B, C, M, N, K, p, ctx, NULL, 0, 0, alpha, beta, KMN, mcu, kcu, ncu);
  }
  abort();
}

// ---- operands: entries depend on (row, column) only, so that one table of partial sums serves every shape ---------
static inline uint32_t mix(uint32_t a, uint32_t b, uint32_t c) {
  uint32_t h = a * 0x9E3779B1u ^ b * 0x85EBCA77u ^ c * 0xC2B2AE3Du;
  h ^= h >> 15; h *= 0x2C1B3C6Du; h ^= h >> 12; h *= 0x297A2D39u; h ^= h >> 15;
  return h;
}
// nonzero integers; |a|,|b| <= lim
static inline int aval(int i, int k, int lim) { int v = (int)(mix(i, k, seed * 2 + 1) % (2 * lim)) - lim; return v >= 0 ? v + 1 : v; }
static inline int bval(int k, int j, int lim) { int v = (int)(mix(k, j, seed * 2 + 2) % (2 * lim)) - lim; return v >= 0 ? v + 1 : v; }
// largest magnitude for which every partial sum over K terms is exact in single precision
static inline int lim_for(int K) { int l = 1; while ((double)(l + 1) * (l + 1) * K < 16777216.0 && l < 499) l++; return l; }

// a float with all its 24 bits in use
static inline float full(uint32_t h) { uint32_t b = (h & 0x807FFFFFu) | 1 | (118 + (h >> 23 & 15)) << 23; float f; memcpy(&f, &b, 4); return f; }
// what the matrices hold: nonzero integers; many zeros; denormal A; denormal products; products near the largest float; a single nonzero in A or in B;
// blocks of zeros (rows of A and columns of B in groups); one matrix with full mantissas, the other with one power of two in every column (row)
enum { D_DENSE, D_ZEROS, D_DENORMAL, D_TINY, D_HUGE, D_UNIT_A, D_UNIT_B, D_ZERO_BLOCKS, D_FULL_A, D_FULL_B, DATA };
static const char *data_name[] = {"nonzero integers", "integers with many zeros", "denormal A", "denormal products", "products near 2^124", "A with one nonzero element", "B with one nonzero element", "blocks of zeros", "A with full mantissas, B with one power of two in every column", "B with full mantissas, A with one power of two in every row"};

struct Operands {
  mc::GuardBuf a, b, c;
  int M = -1, N = -1, K = -1, lim = 0, data = 0;
  bool right = true;
  float *A = 0, *B = 0, *C = 0, *Arw = 0, *Brw = 0;
  std::vector<float> ref;
  void init(size_t amax, size_t bmax, size_t cmax) { a.init(amax * 4); b.init(bmax * 4); c.init(cmax * 4); }
  static const uint32_t NANBITS = 0xFFC12345u;
  void place(int m, int n, int k, bool r) {
    right = r;
    M = m; N = n; K = k;
    A = (float *)a.ro((size_t)M * K * 4, right);
    B = (float *)b.ro((size_t)K * N * 4, right);
    C = (float *)c.rw((size_t)M * N * 4, right);
    Arw = (float *)a.rw((size_t)M * K * 4, right);
    Brw = (float *)b.rw((size_t)K * N * 4, right);
  }
  void set(int m, int n, int k, bool r, int limit = 0, int dat = D_DENSE) {
    int l = limit ? limit : lim_for(k);
    if (m == M && n == N && k == K && r == right && l == lim && dat == data) return;
    place(m, n, k, r);
    lim = l;
    data = dat;
    for (int i = 0; i < M; i++) for (int x = 0; x < K; x++) Arw[(size_t)i * K + x] = aval(i, x, lim);
    for (int x = 0; x < K; x++) for (int j = 0; j < N; j++) Brw[(size_t)x * N + j] = bval(x, j, lim);
    if (data == D_ZEROS) {
      for (size_t i = 0; i < (size_t)M * K; i++) if (mix(i, 21, seed) % 5 < 3) Arw[i] = 0;
      for (size_t i = 0; i < (size_t)K * N; i++) if (mix(i, 22, seed) % 5 < 3) Brw[i] = 0;
    } else if (data == D_ZERO_BLOCKS) {
      for (int i = 0; i < M; i++) for (int x = 0; x < K; x++) if ((i / 6 + x / 3) % 2) Arw[(size_t)i * K + x] = 0;
      for (int x = 0; x < K; x++) for (int j = 0; j < N; j++) if ((x / 4 + j / 16) % 3 == 0) Brw[(size_t)x * N + j] = 0;
    } else if (data == D_UNIT_A || data == D_UNIT_B) {
      size_t n = data == D_UNIT_A ? (size_t)M * K : (size_t)K * N, at = mix(M, N, K) % n;
      float *W = data == D_UNIT_A ? Arw : Brw;
      for (size_t i = 0; i < n; i++) if (i != at) W[i] = 0;
    } else if (data == D_FULL_A) {
      for (size_t i = 0; i < (size_t)M * K; i++) Arw[i] = full(mix(i, 23, seed));
      for (int x = 0; x < K; x++) for (int j = 0; j < N; j++) Brw[(size_t)x * N + j] = x == (j * 5 + 1) % K ? ldexpf(j % 2 ? 1 : -1, j % 9 - 4) : 0;
    } else if (data == D_FULL_B) {
      for (int i = 0; i < M; i++) for (int x = 0; x < K; x++) Arw[(size_t)i * K + x] = x == (i * 7 + 2) % K ? ldexpf(i % 2 ? 1 : -1, i % 9 - 4) : 0;
      for (size_t i = 0; i < (size_t)K * N; i++) Brw[i] = full(mix(i, 24, seed));
    }
    ref.assign((size_t)M * N, 0);
    for (int i = 0; i < M; i++)
      for (int x = 0; x < K; x++) {
        float av = Arw[(size_t)i * K + x];
        const float *br = Brw + (size_t)x * N;
        float *rr = ref.data() + (size_t)i * N;
        for (int j = 0; j < N; j++) rr[j] += av * br[j];
      }
    if (data >= D_DENORMAL && data <= D_HUGE) {  // by powers of two: everything stays exact
      int ea = data == D_DENORMAL ? -149 : data == D_TINY ? -75 : 50, eb = data == D_DENORMAL ? 0 : data == D_TINY ? -74 : 50;
      for (size_t i = 0; i < (size_t)M * K; i++) Arw[i] = ldexpf(Arw[i], ea);
      for (size_t i = 0; i < (size_t)K * N; i++) Brw[i] = ldexpf(Brw[i], eb);
      for (auto &v : ref) v = ldexpf(v, ea + eb);
    }
  }
  void dirty() { M = -1; }
  void fill_c() { uint32_t *p = (uint32_t *)C; for (size_t i = 0, n = (size_t)M * N; i < n; i++) p[i] = NANBITS; }
  // the harness' view of C around the matrix must be untouched: the rest of the guard page holds a pattern
  bool check(const char *what) {
    size_t n = (size_t)M * N;
    if (!memcmp(C, ref.data(), n * 4)) return true;
    for (size_t i = 0; i < n; i++)
      if (!(C[i] == ref[i])) {
        uint32_t bits;
        memcpy(&bits, C + i, 4);
        if (bits == NANBITS) mc::fail("%s: C[%ld][%ld] never written", what, (long)(i / N), (long)(i % N));
        else mc::fail("%s: C[%ld][%ld] = %.9g, exact product %.9g", what, (long)(i / N), (long)(i % N), C[i], ref[i]);
        return false;
      }
    return true;  // only signs of zeros differ
  }
  void guard_fill() {  // pattern in the slack of the three buffers
    memset(c.rwbase, 0x5A, c.cap);
  }
  bool slack_ok() {
    size_t n = (size_t)M * N * 4;
    char *lo = c.rwbase, *hi = c.rwbase + c.cap, *s = (char *)C;
    long w = 4096;
    for (char *q = std::max(lo, s - w); q < s; q++) if (*q != 0x5A) { mc::fail("write %ld bytes before C", (long)(s - q)); return false; }
    for (char *q = s + n; q < std::min(hi, s + n + w); q++) if (*q != 0x5A) { mc::fail("write %ld bytes past C", (long)(q - s - n)); return false; }
    return true;
  }
  void slack_reset() {
    size_t n = (size_t)M * N * 4;
    char *lo = c.rwbase, *hi = c.rwbase + c.cap, *s = (char *)C;
    long w = 4096;
    char *x = std::max(lo, s - w), *y = std::min(hi, s + n + w);
    memset(x, 0x5A, s - x);
    memset(s + n, 0x5A, y - (s + n));
  }
};

static uint64_t structure(int route, int M, int N, int K, int p, cake_cntx_t *ctx, int mcu = 0, int kcu = 0, int ncu = 0) {
  // what distinguishes two executions' control structure: blocks, slices and remainders
  blk_dims_t x;
  memset(&x, 0, sizeof x);
  cake_cntx_t c = *ctx;
  int save = mc::in_cake;
  mc::in_cake = 0;
  if (route == R_2D) init_block_dims_2d(M, N, K, p, &x, &c, KMN, NULL, 4, mcu, kcu, ncu);
  else init_block_dims(M, N, K, p, &x, &c, route == R_MKN ? MKN : route == R_NKM ? NKM : route == R_AUTO ? NA : KMN, NULL, 4, mcu, kcu, ncu);
  mc::in_cake = save;
  long key[] = {route, x.Mb, x.Nb, x.Kb, x.m_c / c.mr, x.n_c / c.nr, x.k_c, x.m_c1, x.n_c1, x.k_c1, x.m_pad, x.n_pad, x.k_pad, x.p_l, x.pm, x.pn,
                M % c.mr, N % c.nr, c.mr, c.nr, p};
  return mc::hash_bytes(key, sizeof key);
}
