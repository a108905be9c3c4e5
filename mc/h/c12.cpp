// C12: every single allocation failure of every entry point that allocates
#include "entries.h"
#include <exception>
#include <new>
const char *PROP = MC_PROP("C12");
// cfg: machine entry variant M N K p tile probe
void worker_init() { entries_init(); hang_limit(200); }
static const int shp[][3] = {{1, 1, 1}, {7, 17, 7}, {13, 33, 13}, {25, 65, 19}};
void enumerate(const std::function<bool(const Cfg &)> &emit) {
  for (int e = 0; e < ENTRIES; e++) for (int v = 0; v < VARIANTS; v++) {
    if (e > E_2D && v != V_PLAIN && v != V_USER) continue;
    if (v == V_SCALED) continue;
    if (probing(e, v)) {
      for (int q : {0, 1, 3}) for (int s = 0; s < 2; s++) for (int p : {1, 3}) {
        if (e > E_2D && (s || p > 1)) continue;
        if (!thorough && e <= E_2D && (q + s + p / 2 + e) % 4) continue;
        if (!emit(Cfg{M_T1, e, v, shp[s][0], shp[s][1], shp[s][2], p, 0, q})) return;
      }
      continue;
    }
    for (int m : thorough ? std::vector<int>{M_T1, M_T2, M_T3, M_T4, M_T5, M_DESK} : std::vector<int>{M_T1, M_T3, M_DESK}) for (int t : {0, 3}) for (int p : {1, 2, 3, 4, 7}) for (int s = 0; s < 4; s++)
      if (!emit(Cfg{m, e, v, shp[s][0], shp[s][1], shp[s][2], p, t, 0})) return;
  }
}
static const char *outcome(Job &j, int st, int &kind) {
  kind = 0;
  if (WIFSIGNALED(st)) return WTERMSIG(st) == SIGALRM ? "hangs" : "crashes";
  switch (WEXITSTATUS(st)) {
    case 101: kind = 1; return 0;
    case 100: return "exits with status 0";
    case 90: kind = 2; return 0;
    case 91: return "returns with a wrong result";
    case 92: kind = 3; return 0;
    case 93: return "misuses memory (invalid free or write outside a block)";
  }
  return "ends in an unexpected way";
}
// an uncaught std::bad_alloc ends the process with a message and a failure status too
static void uncaught() {
  std::exception_ptr x = std::current_exception();
  try { if (x) std::rethrow_exception(x); } catch (const std::bad_alloc &) { _exit(101); } catch (...) {}
  signal(SIGABRT, SIG_DFL);
  abort();
}
void run_config(const Cfg &c) {
  int e = c[1], v = c[2];
  mc::pol = mc::Policy();
  mc::reset_icv();
  Job j;
  if (!prepare(j, c[0], e, v, c[3], c[4], c[5], c[6], c[7])) return;
  bool pr = probing(e, v);
  if (pr) set_probe(c[8], machines[c[0]]);
  // how many allocations, and the answer without faults
  Job plain = j;
  memset(j.C, 0xFF, (size_t)j.M * j.N * 4);
  if (e >= E_MATEQ && e <= E_ADDCHECK) memcpy(j.C, j.want.data(), j.want.size() * 4);
  mc::fail_at = 0;
  mc::alloc_no = 0;
  mc::run([&] { perform(plain); });
  long n = mc::alloc_no;
  if (plain.ret) free(plain.ret);
  double value = plain.value;
  std::vector<float> res(j.C, j.C + (size_t)j.M * j.N);
  if (e <= E_2D && v != V_NULLPAB && !mc::failed() && memcmp(res.data(), j.want.data(), res.size() * 4)) { if (pr) unset_probe(); return; }   // C01's subject
  for (int mode = 0; mode < 2 && !mc::failed(); mode++)
    for (long k = 1; k <= n; k++) {
      fflush(stdout);
      int pid = fork();
      if (!pid) {
        mainimpl::me = -1;
        for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGABRT, SIGILL, SIGUSR1}) signal(s, SIG_DFL);
        alarm(40);
        std::set_terminate(uncaught);
        mc::exit_mode = mc::EXIT_RECORD;
        memset(j.C, 0xFF, (size_t)j.M * j.N * 4);
        if (e >= E_MATEQ && e <= E_ADDCHECK) memcpy(j.C, j.want.data(), j.want.size() * 4);
        mc::alloc_no = 0;
        mc::fail_at = k;
        mc::fail_upto = mode ? 1L << 60 : k;
        mc::run([&] { perform(j); });
        mc::fail_at = 0;
        if (mc::failed()) _exit(93);
        if (e <= E_2D) {
          if (j.value < 0) _exit(92);   // reported
          _exit(memcmp(j.C, res.data(), res.size() * 4) ? 91 : 90);
        }
        if (e == E_QUERY || e == E_QUERY_TORCH || e == E_CDIMS) {
          if (!j.ret) _exit(92);
          _exit(90);
        }
        if (e >= E_MATEQ && e <= E_ADDCHECK) _exit(j.value == value ? 90 : j.value ? 92 : 91);
        _exit(90);
      }
      int st, kind;
      waitpid(pid, &st, 0);
      count(mode ? "runs in which every allocation from the k-th on fails" : "runs in which the k-th allocation fails");
      const char *bad = outcome(j, st, kind);
      if (bad) { mc::fail("%s %ld of %ld fails%s: the call %s", mode ? "every allocation from number" : "allocation", k, n, mode ? " on" : "", bad); break; }
      count(kind == 1 ? "ended in the error exit" : kind == 2 ? "completed correctly" : "reported failure");
      long sg[] = {e, v, k, n, mode, c[8]};
      nontrivial(mc::hash_bytes(sg, sizeof sg));
    }
  if (pr) unset_probe();
}
std::string describe(const Cfg &c) { return job_text(c.v); }
std::string rule() {
  return "every entry point and variant is run once to count its allocations and then once per allocation in a process of its own with that allocation (and with it and all later ones) failing: it must end in the library's exit with a non-zero status, "
         "report failure, or return the right result; a crash, hang, exit status 0 or wrong C is a violation; distinct_nontrivial counts distinct (entry, variant, allocation, mode, probe)";
}
