// C25: invalid schedule values end in the error exit, before anything is written
#include "common.h"
const char *PROP = MC_PROP("C25");
// cfg: entry value shape p machine user packed
enum { SGEMM, TILING, CACHEDIMS, PACKA, PACKB, PACKC, UNPACKC, ASIZE, CSIZE, ENTRIES };
static const char *en[] = {"cake_sgemm", "init_block_dims", "get_cache_dims", "pack_A", "pack_B", "pack_C", "unpack_C", "cake_sgemm_packed_A_size", "cake_sgemm_packed_C_size"};
static const int shp[][3] = {{1, 1, 1}, {13, 33, 7}, {37, 17, 19}};
static const long values[] = {4, 5, 6, 7, 8, 16, 255, 256, 257, 258, 1000, 65536, 65537, 65538, 2147483647, -1, -2, -3, -4, -256, -255, -254, -2147483647L - 1, 1 << 30, (1 << 30) + 1, (1 << 30) + 2};
static mc::GuardBuf a, b, c;
void worker_init() { a.init(1 << 20); b.init(1 << 20); c.init(1 << 20); for (long i = 0; i < 1 << 18; i++) ((float *)a.rwbase)[i] = ((float *)b.rwbase)[i] = 1; }
void enumerate(const std::function<bool(const Cfg &)> &emit) {
  for (int e = 0; e < ENTRIES; e++) for (long v : values) for (int s = 0; s < 3; s++) for (int p : {1, 2, 3}) for (int m : {M_T1, M_DESK}) for (int u = 0; u < 2; u++) for (int k = 0; k < 4; k++) {
    if (k && e != SGEMM) continue;
    if (u && e != SGEMM && e != TILING) continue;
    if (!thorough && (v + 3 * s + p + 5 * m + k + u) % 3) continue;
    if (!emit(Cfg{e, v, s, p, m, u, k})) return;
  }
  if (thorough) for (long v = -300; v < 1100; v++) for (int e = 0; e < ENTRIES; e++) if (v < 0 || v > 3) if (!emit(Cfg{e, v, 1, 2, M_T1, 0, 0})) return;
}
static unsigned char *out;
static size_t outn;
static void at_exit_check(int) { for (size_t i = 0; i < outn; i++) if (out[i] != 0xA5) _exit(110); }
void run_config(const Cfg &k) {
  cake_cntx_t ctx;
  make_cntx(&ctx, k[4], 0);
  int M = shp[k[2]][0], N = shp[k[2]][1], K = shp[k[2]][2], p = k[3];
  float *A = (float *)a.rwbase, *B = (float *)b.rwbase, *C = (float *)c.rwbase;
  out = (unsigned char *)C;
  outn = c.cap;
  memset(out, 0xA5, outn);
  int e = k[0];
  long raw = k[1];
  enum sched s;
  memcpy(&s, &raw, sizeof s);
  int mcu = k[5] ? 12 : 0, kcu = k[5] ? 5 : 0, ncu = k[5] ? 16 : 0;
  fflush(stdout);
  int pid = fork();
  if (!pid) {
    alarm(20);
    mc::exit_mode = mc::EXIT_RECORD;
    mc::exit_hook = at_exit_check;
    mc::pol = mc::Policy();
    mc::reset_icv();
    blk_dims_t x;
    memset(&x, 0, sizeof x);
    init_block_dims(M, N, K, p, &x, &ctx, KMN, NULL, 4, 0, 0, 0);
    mc::run([&] {
      mc::Cake in;
      switch (e) {
        case SGEMM: cake_sgemm(A, B, C, M, N, K, p, &ctx, NULL, k[6] & 1, k[6] & 2, 1, 0, s, mcu, kcu, ncu); break;
        case TILING: { blk_dims_t y; init_block_dims(M, N, K, p, &y, &ctx, s, NULL, 4, mcu, kcu, ncu); break; }
        case CACHEDIMS: get_cache_dims(M, N, K, p, &ctx, s, NULL, 4, 0, 0, 0); break;
        case PACKA: pack_A(A, C, M, K, p, &x, &ctx, s); break;
        case PACKB: pack_B(B, C, K, N, p, &x, &ctx, s); break;
        case PACKC: pack_C(A, C, M, N, p, &x, &ctx, s); break;
        case UNPACKC: unpack_C(C, A, M, N, p, &x, &ctx, s, 1, 0); break;
        case ASIZE: cake_sgemm_packed_A_size(M, K, p, &x, &ctx, s); break;
        case CSIZE: cake_sgemm_packed_C_size(M, N, p, &x, &ctx, s); break;
      }
    });
    _exit(mc::failed() ? 120 : 99);
  }
  int st;
  waitpid(pid, &st, 0);
  count("calls");
  if (WIFSIGNALED(st)) { mc::fail("killed by signal %d", WTERMSIG(st)); return; }
  int x = WEXITSTATUS(st);
  if (x == 101) { nontrivial(mc::hash_bytes(k.v, sizeof k.v)); return; }
  mc::fail("%s", x == 100 ? "exit with status 0" : x == 99 ? "returned normally" : x == 110 ? "the output was written before the exit" : "failed in another way");
}
std::string describe(const Cfg &c) {
  char b[300];
  const int *x = shp[c[2]];
  snprintf(b, sizeof b, "%s with schedule %ld, M=%d N=%d K=%d p=%ld machine %s%s%s", en[c[0]], c[1], x[0], x[1], x[2], c[3], machines[c[4]].name, c[5] ? ", user tiles" : "", c[6] ? ", packed operands" : "");
  return b;
}
std::string rule() {
  return "every entry point that dispatches on a schedule x invalid values (next to the valid ones, equal to them modulo 2^8, 2^16 and 2^30, extremes; thorough: all in [-300,1100)) x shapes, p, machines, user tiles and packed flags, each in a process of its own: "
         "the library's exit must be called with a non-zero status and every byte of the output be untouched at that moment; distinct_nontrivial counts distinct calls";
}
