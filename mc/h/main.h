// Framework of the checks: exhaustive enumeration of configurations on forked workers, confirmation of
// failures in a fresh process, replay, evidence.
#pragma once
// the property a check program reports on, when it is not the one it was written for
#ifdef MC_PROPID
#define DERIVED 1  // another configuration of the library judged by the same space (C30, C31): a smaller part of it at the quick tier
#define MC_STR2(x) #x
#define MC_STR(x) MC_STR2(x)
#define MC_PROP(x) MC_STR(MC_PROPID)
#else
#define MC_PROP(x) x
#define DERIVED 0
#endif

#include "../rt/rt.h"
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <ucontext.h>
#include <dlfcn.h>
#include <stddef.h>
#include <algorithm>
#include <functional>
#include <map>
#include <string>
#include <vector>

struct Cfg {
  static const int N = 24;
  int n = 0;
  long v[N];
  Cfg() { memset(v, 0, sizeof v); }
  Cfg(std::initializer_list<long> l) { memset(v, 0, sizeof v); for (long x : l) v[n++] = x; }
  long operator[](int i) const { return v[i]; }
};

// a check defines these
extern const char *PROP;
void enumerate(const std::function<bool(const Cfg &)> &emit);  // emit returns false when the run is to stop
void run_config(const Cfg &c);                                 // mc::fail() on a violation
std::string describe(const Cfg &c);
std::string rule();                                            // how cases are made, what is non-trivial
__attribute__((weak)) void worker_init();
__attribute__((weak)) void extra_evidence(std::string &json);

extern bool thorough;
extern unsigned seed;
extern bool replaying;

// measured during the run
enum { MAXCNT = 24 };
void count(const char *name, long n = 1);       // named counters, summed over the workers
void nontrivial(uint64_t signature);            // counts distinct signatures
void hang_limit(int seconds);
void chunk_size(int n);                         // configurations a worker takes at a time

// ---------------------------------------------------------------------------------------------------------
// implementation
bool thorough = false, replaying = false;
unsigned seed = 1;

namespace mainimpl {
struct Worker {
  volatile int pid, state;  // 0 running, 1 finished, 2 failed
  volatile long index, done, started_ns;
  Cfg cur;
  char msg[2048];
  long long cnt[MAXCNT];
  long nranges;
  struct { long lo, hi; } ranges[1 << 16];
};
struct Shared {
  volatile long next_chunk, stop, total;
  volatile long evals;
  char names[MAXCNT][80];
  volatile int nnames;
  volatile long ndistinct;
  volatile int hang_s;   // a case that takes longer has hung; set by the workers, enforced by the parent
  char samples[4][512];
  volatile int nsamples;
};
static Shared *sh;
static Worker *workers;
static int nworkers = 8, me = -1;
static long CHUNK = 16;
static volatile uint64_t *dset;
static const size_t DSET = 1 << 23;
static FILE *report;
static double deadline_s = 0;

static long long now_ns() {
  struct timespec t;
  syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t);
  return t.tv_sec * 1000000000LL + t.tv_nsec;
}
static void *shared(size_t n) {
  void *p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); _exit(99); }
  return p;
}
static void put_msg(const char *m) {
  if (me < 0) return;
  strncpy(workers[me].msg, m, sizeof workers[me].msg - 1);
}
static void end_failed(const char *m) {
  put_msg(m);
  if (me >= 0) workers[me].state = 2;
  if (sh) sh->stop = 1;
  _exit(3);
}
static void on_signal(int sig, siginfo_t *si, void *) {
  mc::in_cake = 0;
  char b[400];
  if (sig == SIGUSR1) { end_failed(mc::failed() ? mc::failure() : "unexpected exit"); }
  const char *what = sig == SIGSEGV || sig == SIGBUS ? "invalid memory access" : sig == SIGFPE ? "arithmetic trap (division by zero)" :
                     sig == SIGABRT ? "abort" : sig == SIGILL ? "illegal instruction" : "fatal signal";
  const char *where = "";
  if ((sig == SIGSEGV || sig == SIGBUS)) where = mc::in_guard(si->si_addr) ? " outside (or forbidden write to) a caller's matrix" : "";
  snprintf(b, sizeof b, "%s%s%s%s", what, where, mc::failed() ? "; before that: " : "", mc::failed() ? mc::failure() : "");
  end_failed(b);
}
static void install_handlers() {
  static char *alt = 0;
  if (!alt) alt = (char *)mmap(0, 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  stack_t ss{};
  ss.ss_sp = alt;
  ss.ss_size = 65536;
  sigaltstack(&ss, 0);
  struct sigaction sa{};
  sa.sa_sigaction = on_signal;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
#ifdef MC_ASAN
  for (int s : {SIGUSR1}) sigaction(s, &sa, 0);
#else
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGABRT, SIGILL, SIGUSR1}) sigaction(s, &sa, 0);
#endif
}
static std::string esc(const std::string &s) {
  std::string r;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r;
}
static std::string cfg_text(const Cfg &c) {
  std::string s;
  for (int i = 0; i < c.n; i++) s += (i ? " " : "") + std::to_string(c.v[i]);
  return s;
}
static void run_one(const Cfg &c) {
  Worker &w = workers[me];
  w.cur = c;
  w.started_ns = now_ns();
  mc::clear_failure();
  run_config(c);
  if (mc::failed()) end_failed(mc::failure());
}
static void quiet_stdio() {
  fflush(stdout);
  int fd = open("/dev/null", O_WRONLY);
  dup2(fd, 1);
  close(fd);
}
static void worker_main(int w) {
  me = w;
  setvbuf(stdout, (char *)malloc(1 << 16), _IOFBF, 1 << 16);
  quiet_stdio();
  install_handlers();
  if (worker_init) worker_init();
  Worker &W = workers[w];
  long idx = 0, lo = -1, hi = -1;
  enumerate([&](const Cfg &c) -> bool {
    long i = idx++;
    if (i >= hi) {
      if (sh->stop) return false;
      long ch = __sync_fetch_and_add(&sh->next_chunk, 1);
      lo = ch * CHUNK;
      hi = lo + CHUNK;
      if (W.nranges && W.ranges[W.nranges - 1].hi == lo) W.ranges[W.nranges - 1].hi = hi;
      else if (W.nranges < (long)(sizeof W.ranges / sizeof W.ranges[0])) { W.ranges[W.nranges].lo = lo; W.ranges[W.nranges].hi = hi; W.nranges++; }
    }
    if (i < lo) return true;
    W.index = i;
    run_one(c);
    W.done++;
    if (sh->nsamples < 4 && (i == 0 || (i & 1023) == 517)) {
      int k = __sync_fetch_and_add(&sh->nsamples, 1);
      if (k < 4) snprintf(sh->samples[k], sizeof sh->samples[k], "%s", describe(c).c_str());
    }
    return true;
  });
  if (idx > sh->total) sh->total = idx;
  W.state = 1;
  _exit(0);
}
// run a list of configurations in a fresh process: 0 quiet, 1 failed, 2 hung
static int isolated(const std::vector<Cfg> &cs, std::string &msg, int limit) {
  Worker &W = workers[nworkers];
  memset((void *)&W, 0, offsetof(Worker, ranges));
  int pid = fork();
  if (!pid) {
    me = nworkers;
    setvbuf(stdout, (char *)malloc(1 << 16), _IOFBF, 1 << 16);
    quiet_stdio();
    install_handlers();
    if (worker_init) worker_init();
    for (auto &c : cs) run_one(c);
    W.state = 1;
    _exit(0);
  }
  long long t0 = now_ns();
  int stt;
  for (;;) {
    int r = waitpid(pid, &stt, WNOHANG);
    if (r == pid) break;
    if (now_ns() - t0 > limit * 1000000000LL) {
      kill(pid, SIGKILL);
      waitpid(pid, &stt, 0);
      msg = "no termination within " + std::to_string(limit) + " s";
      return 2;
    }
    usleep(2000);
  }
  if (W.state == 1) return 0;
  msg = W.msg[0] ? W.msg : WIFSIGNALED(stt) ? "killed by signal " + std::to_string(WTERMSIG(stt)) : "ended with status " + std::to_string(WEXITSTATUS(stt));
  return 1;
}
}  // namespace mainimpl

void count(const char *name, long n) {
  using namespace mainimpl;
  if (me < 0) return;
  int i;
  for (i = 0; i < sh->nnames; i++) if (!strcmp(sh->names[i], name)) break;
  if (i == sh->nnames) {
    static volatile int *lock = (volatile int *)&sh->names[MAXCNT - 1][72];
    while (__sync_lock_test_and_set(lock, 1)) usleep(10);
    for (i = 0; i < sh->nnames; i++) if (!strcmp(sh->names[i], name)) break;
    if (i == sh->nnames && i < MAXCNT - 1) { strncpy(sh->names[i], name, 70); __sync_synchronize(); sh->nnames = i + 1; }
    __sync_lock_release(lock);
  }
  if (i < MAXCNT) workers[me].cnt[i] += n;
}
void nontrivial(uint64_t s) {
  using namespace mainimpl;
  if (!s) s = 1;
  size_t h = (s * 0x9E3779B97F4A7C15ULL) >> 41;
  for (int probe = 0; probe < 64; probe++) {
    volatile uint64_t *c = &dset[(h + probe) & (DSET - 1)];
    if (*c == s) return;
    if (*c == 0) {
      uint64_t old = __sync_val_compare_and_swap(c, 0, s);
      if (old == 0) { __sync_fetch_and_add(&sh->ndistinct, 1); return; }
      if (old == s) return;
    }
  }
}
void hang_limit(int s) { if (mainimpl::sh) mainimpl::sh->hang_s = s; }
void chunk_size(int n) { mainimpl::CHUNK = n; }

int main(int argc, char **argv) {
  using namespace mainimpl;
  std::string out, replay;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--thorough") thorough = true;
    else if (a == "--seed") seed = atoi(argv[++i]);
    else if (a == "--out") out = argv[++i];
    else if (a == "--replay") replay = argv[++i];
    else if (a == "--jobs") nworkers = atoi(argv[++i]);
    else if (a == "--limit") deadline_s = atof(argv[++i]);
  }
  struct rlimit rl;
  rl.rlim_cur = rl.rlim_max = 0;
  setrlimit(RLIMIT_CORE, &rl);
  signal(SIGPIPE, SIG_IGN);
  sh = (Shared *)shared(sizeof(Shared));
  sh->hang_s = 90;
  workers = (Worker *)shared(sizeof(Worker) * (nworkers + 1));
  dset = (volatile uint64_t *)shared(DSET * 8);
  long long t0 = now_ns();

  if (!replay.empty()) {
    replaying = true;
    FILE *f = fopen(replay.c_str(), "r");
    if (!f) { perror(replay.c_str()); return 2; }
    std::vector<Cfg> cs;
    char line[1 << 14];
    while (fgets(line, sizeof line, f)) {
      if (strncmp(line, "cfg:", 4)) continue;
      Cfg c;
      char *p = line + 4, *e;
      while (c.n < Cfg::N) { long x = strtol(p, &e, 10); if (e == p) break; c.v[c.n++] = x; p = e; }
      cs.push_back(c);
    }
    fclose(f);
    std::string msg;
    int r = isolated(cs, msg, 300);
    printf("%s: %s\n", r ? "FAIL" : "PASS", r ? msg.c_str() : "");
    if (r) printf("  case: %s\n", describe(cs.back()).c_str());
    return r ? 1 : 0;
  }

  for (int w = 0; w < nworkers; w++) {
    workers[w].started_ns = now_ns();
    int pid = fork();
    if (!pid) worker_main(w);
    workers[w].pid = pid;
  }
  std::vector<bool> dead(nworkers, false), hung(nworkers, false);
  std::vector<int> wst(nworkers, 0);
  int left = nworkers;
  bool capped = false;
  long long stop_at = 0;
  while (left) {
    for (int w = 0; w < nworkers; w++) {
      if (dead[w]) continue;
      int stt;
      if (waitpid(workers[w].pid, &stt, WNOHANG) == workers[w].pid) {
        dead[w] = true;
        left--;
        wst[w] = stt;
        if (workers[w].state == 0) { workers[w].state = 2; sh->stop = 1; }
      } else if (now_ns() - workers[w].started_ns > sh->hang_s * 1000000000LL || (stop_at && now_ns() > stop_at)) {
        hung[w] = !stop_at || now_ns() - workers[w].started_ns > 5000000000LL;
        kill(workers[w].pid, SIGKILL);
        waitpid(workers[w].pid, &stt, 0);
        dead[w] = true;
        left--;
        if (hung[w] && !stop_at) { workers[w].state = 3; sh->stop = 1; }
      }
    }
    if (deadline_s && !sh->stop && now_ns() - t0 > (long long)(deadline_s * 1e9)) { capped = true; sh->stop = 1; }
    if (sh->stop && !stop_at) stop_at = now_ns() + 20000000000LL;
    usleep(3000);
  }
  long evals = 0;
  std::map<std::string, long long> cnt;
  for (int w = 0; w < nworkers; w++) {
    evals += workers[w].done;
    for (int i = 0; i < sh->nnames; i++) cnt[sh->names[i]] += workers[w].cnt[i];
  }
  // confirm a failure in a fresh process: alone, else after the configurations its worker ran before it
  std::string vmsg, vdesc;
  std::vector<Cfg> vcs;
  bool violation = false, unconfirmed = false;
  std::vector<int> cand;
  for (int w = 0; w < nworkers; w++) if (workers[w].state >= 2) cand.push_back(w);
  std::sort(cand.begin(), cand.end(), [](int a, int b) { return workers[a].index < workers[b].index; });
  for (int w : cand) {
    if (violation) break;
    Cfg c = workers[w].cur;
    std::string msg;
    int lim = thorough ? sh->hang_s * 2 : std::min(sh->hang_s * 2, 400);
    int r = isolated({c}, msg, lim);
    std::vector<Cfg> hist{c};
    if (!r && workers[w].state == 2) {
      std::vector<Cfg> all;
      long idx = 0, k = 0;
      enumerate([&](const Cfg &d) {
        long i = idx++;
        while (k < workers[w].nranges && workers[w].ranges[k].hi <= i) k++;
        if (k < workers[w].nranges && i >= workers[w].ranges[k].lo && i <= workers[w].index) all.push_back(d);
        return i < workers[w].index;
      });
      for (size_t len = 2; !r; len *= 4) {
        size_t l = std::min(len, all.size());
        hist.assign(all.end() - l, all.end());
        r = isolated(hist, msg, 600);
        if (l == all.size()) break;
      }
    }
    if (r) {
      violation = true;
      vmsg = msg;
      vcs = hist;
      vdesc = describe(c);
      if (hist.size() > 1) vdesc += " (after " + std::to_string(hist.size() - 1) + " earlier cases in the same process)";
    } else {
      unconfirmed = true;
      vmsg = workers[w].state == 3 ? "no answer in time, but terminates when run alone" : std::string(workers[w].msg) + " (status " + std::to_string(wst[w]) + ")";
      vdesc = describe(c);
    }
  }
  double wall = (now_ns() - t0) * 1e-9;
  FILE *f = out.empty() ? stdout : fopen(out.c_str(), "w");
  if (!f) { perror(out.c_str()); return 2; }
  fprintf(f, "{\"evaluations\": %ld, \"distinct_nontrivial\": %ld, \"enumerated\": %ld, \"exhaustive\": %s, \"capped\": %s, \"wall_s\": %.2f,\n",
          evals, (long)sh->ndistinct, (long)sh->total, (!capped && !violation && !unconfirmed) ? "true" : "false", capped ? "true" : "false", wall);
  fprintf(f, " \"rule\": \"%s\",\n \"samples\": [", esc(rule()).c_str());
  for (int i = 0; i < sh->nsamples && i < 4; i++) fprintf(f, "%s\"%s\"", i ? ", " : "", esc(sh->samples[i]).c_str());
  fprintf(f, "],\n \"counters\": {");
  int k = 0;
  for (auto &e : cnt) fprintf(f, "%s\"%s\": %lld", k++ ? ", " : "", esc(e.first).c_str(), e.second);
  fprintf(f, "}");
  std::string extra;
  if (extra_evidence) extra_evidence(extra);
  if (!extra.empty()) fprintf(f, ",\n %s", extra.c_str());
  if (violation) {
    fprintf(f, ",\n \"violation\": {\"message\": \"%s\", \"case\": \"%s\", \"cfgs\": [", esc(vmsg).c_str(), esc(vdesc).c_str());
    for (size_t i = 0; i < vcs.size(); i++) fprintf(f, "%s\"%s\"", i ? ", " : "", cfg_text(vcs[i]).c_str());
    fprintf(f, "]}");
  }
  if (unconfirmed && !violation) fprintf(f, ",\n \"unconfirmed\": {\"message\": \"%s\", \"case\": \"%s\"}", esc(vmsg).c_str(), esc(vdesc).c_str());
  fprintf(f, "}\n");
  if (f != stdout) fclose(f);
  return violation ? 1 : unconfirmed ? 2 : 0;
}
