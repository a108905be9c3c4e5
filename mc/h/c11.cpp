// C11: the resource ledger of every entry point
#include "entries.h"
#include <dirent.h>
const char *PROP = MC_PROP("C11");
// cfg: machine entry variant M N K p tile probe [machine entry ... ]*   (histories of up to three calls)
void worker_init() { entries_init(); hang_limit(120); }
static const int shp[][3] = {{1, 1, 1}, {7, 17, 7}, {13, 33, 13}, {49, 65, 25}};
void enumerate(const std::function<bool(const Cfg &)> &emit) {
  for (int e = 0; e < ENTRIES; e++) for (int v = 0; v < VARIANTS; v++) {
    if (e > E_2D && v != V_PLAIN && v != V_USER) continue;
    bool pr = probing(e, v);
    if (pr) {
      for (int q = 0; q < PROBES; q++) for (int s = 0; s < 3; s++) for (int p : {1, 3}) {
        if (e > E_2D && (s || p > 1)) continue;
        if (!thorough && e <= E_2D && (q + s + p / 2) % 3) continue;
        if (!emit(Cfg{M_T1, e, v, shp[s][0], shp[s][1], shp[s][2], p, 0, q})) return;
      }
      continue;
    }
    for (int m : {M_T1, M_T2, M_T3, M_T4, M_T5, M_DESK, M_REV}) for (int t = 0; t < 4; t++) for (int p : {1, 2, 3, 4, 5, 8}) for (int s = 0; s < 4; s++)
      if (!emit(Cfg{m, e, v, shp[s][0], shp[s][1], shp[s][2], p, t, 0})) return;
    if (e <= E_2D) for (int M : {1, 5, 6, 7, 12, 19, 25, 31}) for (int N : {1, 16, 17, 33, 48}) for (int K : {1, 6, 7, 13}) for (int p : {1, 2, 3, 7}) if (!emit(Cfg{M + N & 1 ? M_T1 : M_T2, e, v, M, N, K, p, 0, 0})) return;
  }
  // pairs of different calls
  for (int e = 0; e < ENTRIES; e++) for (int f = 0; f < ENTRIES; f++) for (int v = 0; v < 4; v++) {
    if (probing(e, v) || probing(f, v)) continue;
    if ((e > E_2D || f > E_2D) && v) continue;
    if (!emit(Cfg{M_T1, e, v, 13, 33, 13, 3, 0, 0, M_T1, f, v, 7, 17, 7, 2, 0, 0})) return;
  }
}
struct Ledger { size_t blocks, bytes; int fds, threads; bool children; };
static int entries_of(const char *dir) {
  DIR *d = opendir(dir);
  int n = 0;
  while (readdir(d)) n++;
  closedir(d);
  return n;
}
static Ledger take(bool os) {
  Ledger l{mc::live_count(), mc::live_bytes(), 0, 0, false};
  if (os) {
    l.fds = entries_of("/proc/self/fd");
    l.threads = entries_of("/proc/self/task");
    int st;
    l.children = waitpid(-1, &st, WNOHANG) != -1;
  }
  return l;
}
static bool equal(const Ledger &a, const Ledger &b, const char *what, int times) {
  if (a.blocks != b.blocks || a.bytes != b.bytes) mc::fail("%s, call %d: %ld blocks and %ld bytes more than before", what, times, (long)(b.blocks - a.blocks), (long)(b.bytes - a.bytes));
  else if (a.fds != b.fds) mc::fail("%s, call %d: %d open file descriptors more than before", what, times, b.fds - a.fds);
  else if (a.threads != b.threads) mc::fail("%s, call %d: %d threads more than before", what, times, b.threads - a.threads);
  else if (b.children) mc::fail("%s, call %d: a child process is left", what, times);
  return !mc::failed();
}
void run_config(const Cfg &k) {
  std::vector<long> sg;
  for (int o = 0; o + 8 < k.n; o += 9) {
    const long *c = k.v + o;
    int e = c[1], v = c[2];
    mc::pol = mc::Policy();
    mc::pol.order = (c[3] + c[6]) % mc::ORDERS;
    mc::reset_icv();
    Job j;
    if (!prepare(j, c[0], e, v, c[3], c[4], c[5], c[6], c[7])) return;
    bool pr = probing(e, v);
    bool os = pr || (c[3] + c[4] + c[5] + c[6]) % 8 == 0;
    uint64_t ha = mc::hash_bytes(j.PA, j.sa), hb = mc::hash_bytes(j.PB, j.sb);
    if (pr) set_probe(c[8], machines[c[0]]);
    for (int t = 1; t <= (pr ? 2 : 3) && !mc::failed(); t++) {
      cake_cntx_t keep = j.ctx;
      Ledger before = take(os);
      mc::run([&] { perform(j); });
      if (mc::failed()) break;
      if (j.ret) {
        // the object handed to the caller is one block, his to free
        if (mc::live_count() != before.blocks + 1) { mc::fail("%s, call %d: %ld blocks besides the returned object", entry_name[e], t, (long)(mc::live_count() - before.blocks) - 1); break; }
        free(j.ret);
        if (mc::failed()) break;
      }
      if (!equal(before, take(os), entry_name[e], t)) break;
      count("calls");
      mc::check_canaries();
      j.ctx = keep;
    }
    if (pr) unset_probe();
    if (mc::failed()) return;
    if (e <= E_2D && (mc::hash_bytes(j.PA, j.sa) != ha || mc::hash_bytes(j.PB, j.sb) != hb)) { mc::fail("a caller's packed buffer was changed"); return; }
    sg.push_back(e * 10 + v);
    sg.push_back(structure(e <= E_2D ? e : 0, c[3], c[4], c[5], c[6], &j.ctx));
    sg.push_back(c[8]);
  }
  nontrivial(mc::hash_bytes(sg.data(), sg.size() * sizeof(long)));
}
std::string describe(const Cfg &c) {
  std::string s;
  for (int o = 0; o + 8 < c.n; o += 9) s += (o ? ", then " : "") + job_text(c.v + o);
  return s;
}
std::string rule() {
  return "every public entry point in every variant (context or none, operands packed or not, user tiles, eight answers of the probed commands) is called repeatedly; after each call the ledger of the checking allocator, the entries of /proc/self/fd "
         "and /proc/self/task and the children must be as before, the returned object apart, double and foreign frees fail at once; distinct_nontrivial counts distinct (entry, variant, control structure, answers)";
}
