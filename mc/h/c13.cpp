// C13: reading the machine
#include "common.h"
#include <climits>
const char *PROP = MC_PROP("C13");
// cfg: what l1 l2 l3 model threads sockets procs fail
//   what: 0 cake_query_cntx and multiplications, 1 cake_query_cntx_torch, 2 get_cache_size, 3 get_num_physical_cores
struct Size { const char *text; double bytes; };   // bytes < 0: not a size lscpu lists; the documented fallback applies (-1) or any positive value (-2)
static const double K = 1024, M = 1024 * K, G = 1024 * M;
static const Size sizes[] = {{"32K", 32 * K}, {"48K", 48 * K}, {"256K", 256 * K}, {"1M", M}, {"1.3M", 1.3 * M}, {"1.25M", 1.25 * M}, {"2M", 2 * M}, {"8M", 8 * M}, {"512K", 512 * K}, {"16K", 16 * K},
                             {"35.8M", 35.8 * M}, {"36608K", 36608 * K}, {"256M", 256 * M}, {"1G", G}, {"1.1G", 1.1 * G}, {"0.5M", 0.5 * M}, {"1152M", 1152 * M}, {"4K", 4 * K}, {"12.5K", 12.5 * K}, {"1K", K}, {"3.75M", 3.75 * M}, {"112M", 112 * M}, {"1.9G", 1.9 * G},
                             {"-", -1}, {"", -1}, {0, -1}, {"0K", -1}, {"0", -1}, {"4G", -2}, {"1048576", -2}, {"32KiB", 32 * K}, {"1.25MiB", 1.25 * M}, {"K", -1}, {"M", -2}, {"?", -1}};
static const int NS = sizeof sizes / sizeof *sizes;
static const char *models[] = {"0", "1", "3", "4", "17", "33", "49", "69", "85", "142", "165", "-", "", 0, "2", "5", "14", "16", "18", "34", "68", "84", "86", "140", "141", "143", "151", "154", "158", "183", "850", "1650", "-1", "99999999999999999999"};
static const int NM = sizeof models / sizeof *models;
static const char *counts[] = {"1", "2", "4", "8", "-", "", 0, "0", "3", "12", "99999999999", "4294967296", "x"};
static const int NC = sizeof counts / sizeof *counts;
static const int procs[] = {-1, 0, 1, 2, 3, 4, 6, 7, 8, 12, 16, 20, 64, 96, 128, 256};
static const int NP = sizeof procs / sizeof *procs;
// the library's table of models: L1, L2, L3
static const struct { int id; long l[3]; } table[] = {
    {1, {32 << 10, 512 << 10, 64 << 20}}, {3, {32 << 10, 32 << 10, 1 << 20}}, {4, {16 << 10, 16 << 10, 512 << 10}}, {17, {32 << 10, 512 << 10, 4 << 20}}, {33, {32 << 10, 512 << 10, 64 << 20}},
    {49, {32 << 10, 512 << 10, 128 << 20}}, {69, {32 << 10, 256 << 10, 4 << 20}}, {85, {32 << 10, 1024 << 10, 36608 << 10}}, {142, {32 << 10, 256 << 10, 8 << 20}}, {165, {32 << 10, 256 << 10, 20 << 20}}};

static mc::GuardBuf a, b, c;
void worker_init() { int fd = open("/dev/null", O_WRONLY); dup2(fd, 2); hang_limit(200); chunk_size(4); a.init(1 << 20); b.init(1 << 20); c.init(1 << 20); }
void enumerate(const std::function<bool(const Cfg &)> &emit) {
  // every size of every level, alone and in pairs of levels
  for (int l = 1; l <= 3; l++) for (int i = 0; i < NS; i++) if (!emit(Cfg{2, l == 1 ? i : 0, l == 2 ? i : 3, l == 3 ? i : 7, 0, 0, 0, 5, 0})) return;
  for (int m = 0; m < NM; m++) for (int i : {0, 4, 23, 25}) if (!emit(Cfg{2, i, (i + 3) % NS, (i + 7) % NS, m, 0, 0, 5, 0})) return;
  for (int i = 0; i < NS; i++) for (int j = 0; j < NS; j++) {
    if (!thorough && (i + j) % 6) continue;
    if (!emit(Cfg{0, (i + j) % NS, i, j, (i * j) % 7 ? 0 : (i + j) % NM, (i + 2 * j) % 3, j % 2, 2 + (i + j) % (NP - 2), 0})) return;
  }
  for (int i = 0; i < NS; i++) if (!emit(Cfg{1, i, (i * 5) % NS, (i * 3) % NS, i % 3 ? 0 : i % NM, i % NC, (i / 2) % NC, i % NP, 0})) return;
  // every way of counting cores
  for (int t = 0; t < NC; t++) for (int s = 0; s < NC; s++) for (int p = 0; p < NP; p++) {
    if (!thorough && (t + s + p) % 3 && t > 1 && s > 1) continue;
    if (!emit(Cfg{3, 0, 3, 7, 0, t, s, p, 0})) return;
  }
  // whole contexts with odd core counts
  for (int t = 0; t < NC; t++) for (int p = 0; p < NP; p++) if (thorough || (t + p) % 4 == 0) if (!emit(Cfg{0, t % NS, (t + p) % NS, (2 * t + p) % NS, p % NM, t, (t + p) % NC, p, 0})) return;
  // nothing works
  for (int f = 1; f <= 4; f++) for (int w = 0; w < 4; w++) for (int p = 0; p < NP; p++) if (!emit(Cfg{w, 0, 3, 7, 0, 0, 0, p, f})) return;
  if (thorough) for (int i = 0; i < NS; i++) for (int j = 0; j < NS; j++) for (int k = 0; k < NS; k++) if (!emit(Cfg{2, i, j, k, 0, 0, 0, 5, 0})) return;
}
static long want_size(const Cfg &k, int level) {   // 0: any positive value
  const char *ms = models[k[4]];
  if (k[8] == 1 || k[8] == 2) return level == 3 ? 512 << 10 : 32 << 10;   // lscpu fails
  if (k[8] != 3 && ms) {
    std::string d;
    for (const char *q = ms; *q; q++) if (*q >= '0' && *q <= '9') d += *q;
    long id = d.size() > 15 ? 0 : atol(d.c_str());
    for (auto &t : table) if (t.id == id) return t.l[level - 1];
    if (d.size() > 9) return 0;   // no such model: table or caches
  }
  if (k[8] == 3) return level == 3 ? 512 << 10 : 32 << 10;   // caches not listed
  const Size &s = sizes[k[level]];
  if (level == 1 && s.bytes < 0 && k[2] % 2) return 0;   // an L1 is listed, but not the data cache
  if (s.bytes == -1) return level == 3 ? 512 << 10 : 32 << 10;
  if (s.bytes == -2) return 0;
  return (long)s.bytes;
}
static long num(const char *t) {
  if (!t) return 1;
  std::string d;
  for (const char *q = t; *q; q++) if (*q >= '0' && *q <= '9') d += *q;
  if (d.empty()) return 1;
  if (d.size() > 9) return -1;
  return std::max(1L, atol(d.c_str()));
}
static long want_cores(const Cfg &k) {   // 0: any positive value
  long p = std::max(0, procs[k[7]]);
  if (k[8] == 1 || k[8] == 2) return std::max(1L, p);
  if (k[8] == 3) return std::max(1L, p);
  if (k[8] == 4) p = 0;
  long t = num(counts[k[5]]), s = num(counts[k[6]]);
  if (t < 0 || s < 0) return 0;
  return std::max(1L, p / t / s);
}
static void set_env(const Cfg &k) {
  std::string l = "Architecture:  x86_64\nCPU(s):  8\n";
  if (counts[k[5]]) l += std::string("Thread(s) per core:  ") + counts[k[5]] + "\n";
  l += "Core(s) per socket:  4\n";
  if (counts[k[6]]) l += std::string("Socket(s):  ") + counts[k[6]] + "\n";
  l += "Model name:  Stub 8550 CPU @ 1.80GHz\n";
  if (models[k[4]]) l += std::string("Model:  ") + models[k[4]] + "\n";
  std::string raw = "NAME ONE-SIZE ALL-SIZE\n";
  setenv("MC_LSCPU", k[8] == 3 ? "" : l.c_str(), 1);
  std::string caches;
  static const char *names[] = {"", "L1d", "L2", "L3"};
  for (int lv = 1; lv <= 3; lv++) {
    if (!sizes[k[lv]].text) continue;
    caches += (caches.empty() ? "" : ",") + std::string(names[lv]) + "=" + sizes[k[lv]].text;
    if (lv == 1 && (sizes[k[1]].bytes > 0 || k[2] % 2)) caches += ",L1i=64K";
  }
  setenv("MC_CACHES", k[8] == 3 ? "" : caches.c_str(), 1);
  unsetenv("MC_CACHES_ALL");
  if (k[8] == 1) setenv("MC_LSCPU_FAIL", "1", 1);
  char f[300];
  snprintf(f, sizeof f, "%s/cpuinfo.c13.%d", getenv("MC_STUBS"), (int)getpid());
  unlink(f);
  if (k[8] != 4 && procs[k[7]] >= 0) {
    FILE *o = fopen(f, "w");
    for (int i = 0; i < procs[k[7]]; i++) fprintf(o, "processor\t: %d\nmodel name\t: processor of a stub\n\n", i);
    fclose(o);
  }
  setenv("MC_CPUINFO", f, 1);
}
static const int shp[][3] = {{1, 1, 1}, {7, 17, 5}, {50, 70, 30}, {97, 33, 64}};
static void try_context(cake_cntx_t *x) {
  float *A = (float *)a.rwbase, *B = (float *)b.rwbase, *C = (float *)c.rwbase;
  for (int s = 0; s < 4; s++) for (int r = 0; r < ROUTES; r++) for (int p : {1, 2, 5}) {
    int M = shp[s][0], N = shp[s][1], K = shp[s][2];
    if ((s + r + p) % 2 && s) continue;
    A = (float *)a.rw((size_t)M * K * 4, true);
    B = (float *)b.rw((size_t)K * N * 4, true);
    C = (float *)c.rw((size_t)M * N * 4, true);
    for (int i = 0; i < M; i++) for (int q = 0; q < K; q++) A[i * K + q] = aval(i, q, 15);
    for (int q = 0; q < K; q++) for (int j = 0; j < N; j++) B[q * N + j] = bval(q, j, 15);
    memset(C, 0xFF, (size_t)M * N * 4);
    mc::run([&] { multiply(r, A, B, C, M, N, K, p, x); });
    if (mc::failed()) return;
    count("multiplications with the context");
    for (int i = 0; i < M; i++) for (int j = 0; j < N; j++) {
      float w = 0;
      for (int q = 0; q < K; q++) w += A[i * K + q] * B[q * N + j];
      if (C[i * N + j] != w) { mc::fail("with the context, %s M=%d N=%d K=%d p=%d: C[%d][%d] = %.9g, exact product %.9g", route_name[r], M, N, K, p, i, j, C[i * N + j], w); return; }
    }
  }
}
static void check(const char *what, long got, long want) {
  if (mc::failed()) return;
  if (got < 1 || (want && got != want)) mc::fail("%s is %ld, %s %ld", what, got, want ? "the machine has" : "which is below", want ? want : 1);
}
void run_config(const Cfg &k) {
  mc::pol = mc::Policy();
  mc::reset_icv();
  mc::fill_byte = 0xFF;
  set_env(k);
  std::string path = getenv("PATH");
  if (k[8] == 2) {   // lscpu is not installed: a directory with the other tools only
    std::string d = std::string(getenv("MC_STUBS")) + "/nolscpu." + std::to_string(getpid());
    mkdir(d.c_str(), 0755);
    for (const char *t : {"grep", "head", "tr", "sh", "cat", "nproc", "awk", "sed", "cut", "wc", "tail", "sort"}) {
      std::string from = !strcmp(t, "grep") || !strcmp(t, "cat") || !strcmp(t, "nproc") ? std::string(getenv("MC_STUBS")) + "/" + t : std::string("/usr/bin/") + t;
      if (symlink(from.c_str(), (d + "/" + t).c_str())) {}
    }
    setenv("PATH", d.c_str(), 1);
  }
  cake_cntx_t *x = 0;
  long v[4] = {0, 0, 0, 0};
  mc::run([&] {
    mc::Cake in;
    switch (k[0]) {
      case 0: x = cake_query_cntx(); break;
      case 1: x = cake_query_cntx_torch(1 << (10 + k[1] % 12), 1 << (12 + k[2] % 12)); break;
      case 2: for (int l = 1; l <= 3; l++) v[l] = get_cache_size(l); break;
      case 3: v[0] = get_num_physical_cores(); break;
    }
  });
  setenv("PATH", path.c_str(), 1);
  if (k[8] == 2) {
    std::string d = std::string(getenv("MC_STUBS")) + "/nolscpu." + std::to_string(getpid());
    for (const char *t : {"grep", "head", "tr", "sh", "cat", "nproc", "awk", "sed", "cut", "wc", "tail", "sort"}) unlink((d + "/" + t).c_str());
    rmdir(d.c_str());
  }
  unlink(getenv("MC_CPUINFO"));
  unsetenv("MC_LSCPU_FAIL");
  count("queries");
  if (!mc::failed()) {
    static const char *ln[] = {"", "the L1 data cache size", "the L2 cache size", "the L3 cache size"};
    if (k[0] == 2) for (int l = 1; l <= 3; l++) check(ln[l], v[l], want_size(k, l));
    if (k[0] == 3) check("the number of physical cores", v[0], want_cores(k));
    if (k[0] < 2 && x) {
      check("ctx->L1", x->L1, want_size(k, 1));
      check("ctx->L2", x->L2, k[0] ? 1 << (10 + k[1] % 12) : want_size(k, 2));
      check("ctx->L3", x->L3, k[0] ? 1 << (12 + k[2] % 12) : want_size(k, 3));
      check("ctx->ncores", x->ncores, want_cores(k));
      int t = -1;
      for (int i = 0; i < 4; i++) if (x->mr == tiles[i][0] && x->nr == tiles[i][1]) t = i;
      if (!mc::failed() && t < 0) mc::fail("the register tile of the context is %dx%d", x->mr, x->nr);
      cake_cntx_t y = *x;
      if (!mc::failed()) {
        update_mr_nr(&y, x->mr, x->nr);
        if (y.m_map != x->m_map || y.n_map != x->n_map) mc::fail("the kernel index of the context is [%d][%d], for its tile %dx%d it is [%d][%d]", x->m_map, x->n_map, x->mr, x->nr, y.m_map, y.n_map);
        else if (!(x->alpha_n > 0 && x->alpha_n < 1e6)) mc::fail("ctx->alpha_n is %g", x->alpha_n);
        else if (x->blis_cntx != NULL) mc::fail("ctx->blis_cntx is not initialised");
        else if (!(x->peak_flops > 0 && x->peak_dram_bw > 0)) mc::fail("the peak rates of the context are not initialised");
      }
      // working buffers grow with the caches: multiply on machines whose L1 and L2 are of a possible size
      if (!mc::failed() && x->L1 <= 1 << 20 && x->L2 <= 256 << 20) try_context(x);
    } else if (k[0] < 2) mc::fail("no context returned");
  }
  if (x) mc::run([&] { mc::Cake in; free(x); });
  long sg[] = {k[0], k[0] == 3 ? 0 : want_size(k, 1), k[0] == 3 ? 0 : want_size(k, 2), k[0] == 3 ? 0 : want_size(k, 3), k[0] == 2 ? 0 : want_cores(k), k[4], k[8]};
  nontrivial(mc::hash_bytes(sg, sizeof sg));
}
std::string describe(const Cfg &c) {
  static const char *what[] = {"cake_query_cntx", "cake_query_cntx_torch", "get_cache_size", "get_num_physical_cores"};
  static const char *fails[] = {"", " (lscpu fails)", " (lscpu is missing)", " (lscpu prints nothing)", " (no /proc/cpuinfo)"};
  auto q = [](const char *s) { return s ? std::string("'") + s + "'" : std::string("missing"); };
  return std::string(what[c[0]]) + ": L1d " + q(sizes[c[1]].text) + ", L2 " + q(sizes[c[2]].text) + ", L3 " + q(sizes[c[3]].text) + ", Model " + q(models[c[4]]) + ", threads per core " + q(counts[c[5]]) + ", sockets " + q(counts[c[6]]) + ", " + std::to_string(procs[c[7]]) + " processors" + fails[c[8]];
}
std::string rule() {
  return "a grammar of lscpu outputs (35 spellings per cache level, 34 model ids, 13 spellings of threads and sockets, 16 processor counts, four ways of failing) fed through stand-ins to the real probing pipelines; every size, core count and context field is compared with the machine described, "
         "fresh memory being 0xFF, and multiplications are made with each context; distinct_nontrivial counts distinct (function, expected machine, model, failure)";
}
