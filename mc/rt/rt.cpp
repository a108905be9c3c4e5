#include "rt.h"
#include <pthread.h>
#include <errno.h>
#include <errno.h>
#include <fcntl.h>
#include <link.h>
#include <dlfcn.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <map>
#include <unordered_map>
#include <locale.h>
#include <time.h>
#ifdef MC_ASAN
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
#endif

extern "C" {
void *__libc_malloc(size_t);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void *__libc_memalign(size_t, size_t);
void __libc_free(void *);
}

namespace mc {

Policy pol;
Explorer ex;
Stats st;
int in_cake = 0;
int exit_mode = EXIT_FAIL;
void (*exit_hook)(int) = 0;

// ---------------------------------------------------------------------------------------------------------
// failures
static char fail_msg[2048];
static bool fail_set = false;

void fail(const char *fmt, ...) {
  if (fail_set) return;
  fail_set = true;
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(fail_msg, sizeof fail_msg, fmt, ap);
  va_end(ap);
}
bool failed() { return fail_set; }
const char *failure() { return fail_msg; }
void clear_failure() { fail_set = false; fail_msg[0] = 0; }

Cake::Cake() { save = in_cake; in_cake = 1; }
Cake::~Cake() { in_cake = save; }
struct Out {  // runtime code entered from library code
  int save;
  Out() { save = in_cake; in_cake = 0; }
  ~Out() { in_cake = save; }
};

// ---------------------------------------------------------------------------------------------------------
// arena
#ifdef MC_TSAN
static const size_t ARENA = 3ULL << 30, HEAP = 1ULL << 30, STK = 1 << 20;
#elif defined(MC_ASAN)
static const size_t ARENA = 8ULL << 30, HEAP = 1 << 20, STK = 256 << 10;
#else
static const size_t ARENA = 16ULL << 30, HEAP = 6ULL << 30, STK = 8 << 20;
#endif
char *arena_lo, *arena_hi;
static char *arena_next;
static const size_t PG = 4096;

static void arena_init() {
  if (arena_lo) return;
  void *p = mmap((void *)0x100000000000, ARENA, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { perror("arena"); _exit(99); }
  arena_lo = arena_next = (char *)p;
  arena_hi = arena_lo + ARENA;
}
char *reserve(size_t n) {
  arena_init();
  n = (n + PG - 1) / PG * PG;
  char *p = arena_next;
  arena_next += n;
  if (arena_next > arena_hi) { fprintf(stderr, "arena exhausted\n"); _exit(99); }
  return p;
}

// ---------------------------------------------------------------------------------------------------------
// checking allocator
int fill_byte = 0xFF;
long fail_at = 0, fail_upto = 0, alloc_no = 0;
bool foreign_free = false;
static bool free_protect = false;
void set_free_protect(bool on) { free_protect = on; }

struct Slot { char *base; size_t pages; char *p; size_t n; bool live, prot; };
static char *heap_lo, *heap_hi, *heap_next;
static Slot *slots;
static int nslots;
static const int MAXSLOT = 1 << 20;
static int *page_slot;                     // page of the heap -> slot + 1
static const int CLS = 64;
static int freelist[CLS + 1];              // by page count; CLS: everything bigger (searched)
static int *slot_next;
static size_t nlive, blive;

static void heap_init() {
  heap_lo = heap_next = reserve(HEAP);
  heap_hi = heap_lo + HEAP;
  auto big = [](size_t n) {
    void *p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("heap tables"); _exit(99); }
    return p;
  };
  slots = (Slot *)big(sizeof(Slot) * MAXSLOT);
  slot_next = (int *)big(sizeof(int) * MAXSLOT);
  page_slot = (int *)big(sizeof(int) * (HEAP / PG));
  for (int i = 0; i <= CLS; i++) freelist[i] = -1;
}
static inline bool in_heap(const void *p) { return (char *)p >= heap_lo && (char *)p < heap_next; }

static void shadow_clear(char *p, size_t n);
static const size_t CANARY = 64;

static void *heap_alloc(size_t n, size_t align, bool zero) {
  if (!heap_lo) heap_init();
  if (align < 16) align = 16;
  size_t need = n + align + CANARY;
  size_t pages = (need + PG - 1) / PG;
  int s = -1;
  if (pages < (size_t)CLS) {
    s = freelist[pages];
    if (s >= 0) freelist[pages] = slot_next[s];
  } else {
    int *q = &freelist[CLS];
    while (*q >= 0 && (slots[*q].pages < pages || slots[*q].pages > pages * 2)) q = &slot_next[*q];
    if (*q >= 0) { s = *q; *q = slot_next[s]; }
  }
  if (s < 0) {
    if (heap_next + (pages + 2) * PG > heap_hi || nslots >= MAXSLOT) { fprintf(stderr, "checking heap exhausted (%zu bytes)\n", n); _exit(99); }
    s = nslots++;
    slots[s].base = heap_next + PG;  // one guard page before, one after
    slots[s].pages = pages;
    slots[s].prot = true;
    for (size_t i = 0; i < pages + 1; i++) page_slot[(slots[s].base - heap_lo) / PG + i] = s + 1;
    heap_next += (pages + 1) * PG;
  }
  Slot &S = slots[s];
  if (S.prot) {
    if (mprotect(S.base, S.pages * PG, PROT_READ | PROT_WRITE)) { perror("mprotect"); _exit(99); }
    S.prot = false;
  }
  char *end = S.base + S.pages * PG;
  char *p = (char *)((uintptr_t)(end - n) & ~(uintptr_t)(align - 1));
  S.p = p;
  S.n = n;
  S.live = true;
  memset(p - CANARY, 0xA5, CANARY);
  memset(p + n, 0xA5, end - (p + n));
  memset(p, zero ? 0 : fill_byte, n);
  nlive++;
  blive += n;
  shadow_clear(p, n);
  return p;
}
static Slot *find_slot(void *p) {
  if (!in_heap(p)) return 0;
  int s = page_slot[((char *)p - heap_lo) / PG] - 1;
  return s < 0 ? 0 : &slots[s];
}
static void canary(Slot &S) {
  for (size_t i = 0; i < CANARY; i++)
    if ((unsigned char)S.p[-1 - (long)i] != 0xA5) { fail("write %ld bytes before a %zu-byte buffer of the library", (long)i + 1, S.n); return; }
  char *end = S.base + S.pages * PG;
  for (char *q = S.p + S.n; q < end; q++)
    if ((unsigned char)*q != 0xA5) { fail("write %ld bytes past a %zu-byte buffer of the library", (long)(q - S.p - S.n), S.n); return; }
}
void check_canaries() {
  for (int i = 0; i < nslots; i++) if (slots[i].live) canary(slots[i]);
}
static void heap_free(void *p) {
  Slot *S = find_slot(p);
  if (!S || S->p != p) { fail("free of %p which is not the start of an allocated block", p); return; }
  if (!S->live) { fail("double free of a %zu-byte block", S->n); return; }
  canary(*S);
  if (races_on) access((uintptr_t)p, S->n, true, __builtin_return_address(0));
  S->live = false;
  nlive--;
  blive -= S->n;
  if (free_protect) {
    mprotect(S->base, S->pages * PG, PROT_NONE);
    S->prot = true;
  } else {
    memset(S->p, 0xDD, S->n);
  }
  int s = S - slots, c = S->pages < (size_t)CLS ? S->pages : CLS;
  slot_next[s] = freelist[c];
  freelist[c] = s;
}
void live_blocks(std::vector<Live> &out) {
  out.clear();
  for (int i = 0; i < nslots; i++) if (slots[i].live) out.push_back({slots[i].p, slots[i].n});
}
size_t live_count() { return nlive; }
size_t live_bytes() { return blive; }

static bool inject() {
  alloc_no++;
  st.allocs++;
  return fail_at && alloc_no >= fail_at && alloc_no <= fail_upto;
}

// ---------------------------------------------------------------------------------------------------------
// harness matrices
static std::vector<std::pair<char *, char *>> guards;
void GuardBuf::init(size_t bytes) {
  cap = (bytes + PG - 1) / PG * PG;
  int fd = syscall(SYS_memfd_create, "mc", 0);
  if (fd < 0 || ftruncate(fd, cap)) { perror("memfd"); _exit(99); }
  char *a = reserve(cap + 2 * PG), *b = reserve(cap + 2 * PG);
  rwbase = (char *)mmap(a + PG, cap, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0);
  robase = (char *)mmap(b + PG, cap, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0);
  if (rwbase == MAP_FAILED || robase == MAP_FAILED) { perror("mmap"); _exit(99); }
  close(fd);
  guards.push_back({a, a + cap + 2 * PG});
  guards.push_back({b, b + cap + 2 * PG});
}
bool in_guard(const void *x) {
  for (auto &g : guards) if ((char *)x >= g.first && (char *)x < g.second) return true;
  return false;
}

// ---------------------------------------------------------------------------------------------------------
// fibers
enum { READY, BLOCKED, DONE };
struct Team;
struct WS { long next, end, incr, chunk; long lo; int sched; bool init; int sections; long ordered; bool single_taken; void *copy; int left; };
struct Fiber {
  void *sp;
  char *stk;
  int state, tid, user, id, order;
  Team *team;
  void (*fn)(void *);
  void *arg;
  int in_cake, icv, ws_seq;
  WS *ws;
  void *wait;
#ifdef MC_ASAN
  void *fake;
#endif
};
struct Team {
  int n, alive, level, active, arrived;
  long gen;
  Fiber *parent;
  Team *up;
  std::vector<WS *> ws;
  std::vector<Fiber *> mem;
  bool cancelled;
};

static Fiber *cur = 0;
static Fiber sched_fiber;
static std::vector<Fiber *> active;      // all fibers that are not done
static int user_icv[MAXU];
static int alive_users;
static int fiber_no;
static std::function<void()> const *user_fn[MAXU];
static const int NPROCS = 4;

int cur_id() { return cur ? cur->id : 0; }
void reset_icv() { for (int i = 0; i < MAXU; i++) user_icv[i] = 0; }
int icv_nthreads() { return user_icv[0]; }

extern "C" void mc_switch(void **save, void *to);
asm(R"(
.text
.globl mc_switch
.type mc_switch,@function
mc_switch:
  push %rbp
  push %rbx
  push %r12
  push %r13
  push %r14
  push %r15
  mov %rsp,(%rdi)
  mov %rsi,%rsp
  pop %r15
  pop %r14
  pop %r13
  pop %r12
  pop %rbx
  pop %rbp
  ret
)");

// the library's TLS block, kept per (user, thread)
static char *tls_p = 0;
static size_t tls_n = 0;
static std::map<int, std::vector<char>> tls_img;
static std::vector<char> tls_init;
static int tls_cur = 0;
static void tls_switch(int id) {
  if (!tls_n || id == tls_cur) return;
  auto &s = tls_img[tls_cur];
  s.assign(tls_p, tls_p + tls_n);
  auto it = tls_img.find(id);
  memcpy(tls_p, it == tls_img.end() ? tls_init.data() : it->second.data(), tls_n);
  tls_cur = id;
}

static std::map<int, std::vector<Fiber *>> pool;   // free fibers by id: stacks are never shared between threads
static Fiber *fiber_new(int id) {
  auto &v = pool[id];
  Fiber *f;
  if (v.empty()) {
    f = new Fiber();
    char *r = reserve(STK + PG);
    if (mmap(r + PG, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0) == MAP_FAILED) { perror("stack"); _exit(99); }
    f->stk = r + PG;
  } else {
    f = v.back();
    v.pop_back();
#ifdef MC_ASAN
    __asan_unpoison_memory_region(f->stk, STK);  // frames the last thread on this stack never returned from
#endif
  }
  f->id = id;
  f->state = READY;
  f->ws = 0;
  f->ws_seq = 0;
  f->wait = 0;
  f->order = fiber_no++;
#ifdef MC_ASAN
  f->fake = 0;
#endif
  return f;
}

static void dispatch(bool cur_ready);
static void fiber_body() {
#ifdef MC_ASAN
  __sanitizer_finish_switch_fiber(0, 0, 0);
#endif
  for (;;) {
    Fiber *f = cur;
    in_cake = f->in_cake;
    f->fn(f->arg);
    in_cake = 0;
    f->state = DONE;
    active.erase(std::find(active.begin(), active.end(), f));
    Team *t = f->team;
    if (t && t->parent && --t->alive == 0) t->parent->state = READY;
    dispatch(false);
  }
}
static void fiber_start(Fiber *f) {
  void **s = (void **)(f->stk + STK - 64);
  // entered by ret: (rsp % 16) == 8 on entry of fiber_body
  s = (void **)(((uintptr_t)s & ~15ULL) - 8);
  *--s = (void *)fiber_body;
  for (int i = 0; i < 6; i++) *--s = 0;
  f->sp = s;
  active.push_back(f);
}

static void switch_to(Fiber *f) {
  Fiber *from = cur;
  if (f == from) return;
  st.switches++;
  from->in_cake = in_cake;
  cur = f;
  if (f != &sched_fiber) tls_switch(f->user * 1000 + (f->tid < 0 ? 0 : f->tid));
#ifdef MC_ASAN
  if (f == &sched_fiber) __sanitizer_start_switch_fiber(from->state == DONE ? 0 : &from->fake, sched_fiber.stk, (size_t)sched_fiber.wait);
  else __sanitizer_start_switch_fiber(from->state == DONE ? 0 : &from->fake, f->stk, STK);
#endif
  mc_switch(&from->sp, f->sp);
#ifdef MC_ASAN
  __sanitizer_finish_switch_fiber(from->fake, 0, 0);
#endif
  in_cake = from->in_cake;
}

static int choose(int n, bool cur_ready) {
  if (!ex.on || n <= 1) return 0;
  if ((long)ex.pts.size() >= ex.max_points) { ex.horizon = true; return 0; }
  size_t i = ex.pts.size();
  int c = i < ex.prefix.size() ? ex.prefix[i] : 0;
  if (c >= n) { ex.diverged = true; c = 0; }
  ex.pts.push_back({n, c, cur_ready, ex.cost});
  if (c) ex.cost++;   // every departure from the default continuation counts
  return c;
}

static void dispatch(bool cur_ready) {
  static std::vector<Fiber *> r;
  r.clear();
  for (Fiber *f : active) if (f->state == READY) r.push_back(f);
  if (r.empty()) {
    if (alive_users) fail("deadlock: no thread can run, %d blocked", (int)active.size());
    switch_to(&sched_fiber);
    return;
  }
  int ord = pol.order;
  if (ex.on || ord == ASC) std::sort(r.begin(), r.end(), [](Fiber *a, Fiber *b) { return a->order < b->order; });
  else if (ord == DESC) std::sort(r.begin(), r.end(), [](Fiber *a, Fiber *b) { return a->order > b->order; });
  else std::sort(r.begin(), r.end(), [](Fiber *a, Fiber *b) {
    // ROT: odd threads first; RR: those after the current one first
    if (pol.order == RR) {
      int c = cur->order;
      bool x = a->order > c, y = b->order > c;
      if (x != y) return x;
      return a->order < b->order;
    }
    int x = a->tid & 1, y = b->tid & 1;
    return x != y ? x > y : a->order < b->order;
  });
  if (ex.on && cur_ready) {  // canonical: the running thread first
    auto it = std::find(r.begin(), r.end(), cur);
    std::rotate(r.begin(), it, it + 1);
  }
  int c = choose(r.size(), cur_ready);
  switch_to(r[c]);
}

void sched_point() {
  if (!cur || cur == &sched_fiber) return;
  if (ex.on || pol.order == RR) dispatch(true);
}
static void block(void *on) {
  cur->state = BLOCKED;
  cur->wait = on;
  dispatch(false);
}

static void user_entry(void *a) {
  long u = (long)a;
  (*user_fn[u])();
  alive_users--;
  user_icv[u] = cur->icv;
}

static Team root_team;  // used for "called from inside a parallel region"

bool run(const std::vector<std::function<void()>> &users) {
  static bool init = false;
  if (!init) {
    init = true;
    lib_segments();
  }
  memset(&st, 0, sizeof st);
  ex.pts.clear();
  ex.cost = 0;
  ex.diverged = ex.horizon = false;
  clk_log.clear();
  clk_first_region = -1;
  clk_last_region = 0;
  active.clear();
  fiber_no = 0;
  if (races_on) races_reset();
  Fiber *uf[MAXU];
  alive_users = users.size();
  for (size_t u = 0; u < users.size(); u++) {
    user_fn[u] = &users[u];
    Fiber *f = fiber_new(u * 8 + (pool.size() ? 0 : 0));
    f->user = u;
    f->tid = 0;
    f->team = 0;
    f->icv = user_icv[u];
    f->in_cake = 0;
    if (pol.in_region) {
      root_team.n = 2;
      root_team.level = root_team.active = 1;
      root_team.parent = 0;
      root_team.up = 0;
      f->team = &root_team;
    }
    f->fn = user_entry;
    f->arg = (void *)u;
    fiber_start(f);
    uf[u] = f;
    if (races_on && u) race_thread_start(u * 8, 0);
  }
  if (races_on) race_thread_start(0, 0);
  cur = &sched_fiber;
  sched_fiber.state = BLOCKED;
  sched_fiber.in_cake = 0;
#ifdef MC_ASAN
  if (!sched_fiber.stk) {
    // bounds of the main stack
    char here;
    sched_fiber.stk = (char *)(((uintptr_t)&here - (4 << 20)) & ~(PG - 1));
    sched_fiber.wait = (void *)(size_t)((4 << 20) + 65536);
  }
#endif
  int save = in_cake;
  in_cake = 0;
  cur->order = -1;
  cur->tid = 0;
  dispatch(false);
  in_cake = save;
  for (size_t u = 0; u < users.size(); u++) {
    if (uf[u]->state == DONE) pool[uf[u]->id].push_back(uf[u]);
    else { user_icv[u] = 0; }
  }
  cur = 0;
  return !failed();
}
bool run(const std::function<void()> &user) {
  std::vector<std::function<void()>> v{user};
  return run(v);
}

// ---------------------------------------------------------------------------------------------------------
// OpenMP
static inline int level_active() { return cur && cur->team ? cur->team->active : 0; }

struct LoopInit { bool on; long start, end, incr, chunk; int sched; int sections; };

static void parallel(void (*fn)(void *), void *data, unsigned nt, LoopInit li) {
  Out o;
  if (!cur) {  // library code called outside run(): one thread
    in_cake = o.save;
    fn(data);
    return;
  }
  st.regions++;
  long req = nt ? nt : (cur->icv ? cur->icv : NPROCS);
  st.max_req = std::max(st.max_req, req);
  st.user_req[cur->user] = std::max(st.user_req[cur->user], req);
  int T = req > MAXT ? MAXT : (int)req;
  if (T < 1) T = 1;
  if (pol.team_cap && T > pol.team_cap) T = pol.team_cap;
  if (level_active() >= 1 && !pol.nested) T = 1;
  st.max_team = std::max(st.max_team, (long)T);
  if (clk_first_region < 0) clk_first_region = clk_log.size();

  Team t{};
  t.n = t.alive = T;
  t.level = (cur->team ? cur->team->level : 0) + 1;
  t.active = level_active() + (T > 1);
  t.parent = cur;
  t.up = cur->team;
  if (li.on) {
    WS *w = new WS();
    w->next = w->lo = li.start;
    w->end = li.end;
    w->incr = li.incr;
    w->chunk = li.chunk;
    w->sched = li.sched;
    w->sections = li.sections;
    w->init = true;
    w->left = T;
    t.ws.push_back(w);
  }
  for (int i = 0; i < T; i++) {
    int id = T == 1 ? cur->id : cur->user * 8 + i;
    if (T > 1 && t.up && t.up->level >= 1 && t.up != &root_team) id = cur->user * 8 + i;
    Fiber *f = fiber_new(id + (i >= 8 ? 1000 : 0));
    f->id = id;
    f->user = cur->user;
    f->tid = i;
    f->team = &t;
    f->icv = cur->icv;
    f->in_cake = o.save;
    f->fn = fn;
    f->arg = data;
    if (li.on) { f->ws = t.ws[0]; f->ws_seq = 1; }
    fiber_start(f);
    t.mem.push_back(f);
    if (races_on) race_thread_start(f->id, cur->id);
  }
  block(&t);
  for (Fiber *f : t.mem) {
    if (races_on) race_thread_join(cur->id, f->id);
    pool[f->id + (f->tid >= 8 ? 1000 : 0)].push_back(f);
  }
  if (races_on) race_thread_start(cur->id, cur->id);
  for (WS *w : t.ws) delete w;
  clk_last_region = clk_log.size();
  sched_point();
}

static void barrier() {
  Out o;
  if (!cur || !cur->team || cur->team == &root_team) return;
  Team *t = cur->team;
  st.barriers++;
  if (++t->arrived == t->n) {
    t->arrived = 0;
    t->gen++;
    if (races_on) {
      for (Fiber *f : t->mem) race_thread_join(t->mem[0]->id, f->id);
      for (Fiber *f : t->mem) if (f != t->mem[0]) race_thread_start(f->id, t->mem[0]->id);
      race_thread_start(t->mem[0]->id, t->mem[0]->id);
    }
    for (Fiber *f : t->mem) if (f->state == BLOCKED && f->wait == (void *)&t->arrived) f->state = READY;
    sched_point();
  } else {
    block(&t->arrived);
  }
}

// locks (critical, atomic and omp locks): owner by address
struct Lock { Fiber *owner; int depth; };
static std::map<void *, Lock> locks;
static void lock(void *a, bool nest = false) {
  Out o;
  st.sync_ops++;
  if (!cur) return;
  sched_point();
  while (locks[a].owner && !(nest && locks[a].owner == cur)) {
    if (locks[a].owner == cur) { fail("deadlock: a thread waits for a lock it holds"); }
    block(a);
  }
  locks[a].owner = cur;
  locks[a].depth++;
  if (races_on) sync_acq((uintptr_t)a);
}
static void unlock(void *a) {
  Out o;
  if (!cur) return;
  if (races_on) sync_rel((uintptr_t)a);
  if (--locks[a].depth == 0) {
    locks[a].owner = 0;
    for (Fiber *f : active) if (f->state == BLOCKED && f->wait == a) f->state = READY;
  }
  sched_point();
}

static WS *ws_get() {
  Team *t = cur->team;
  if (!t || t == &root_team) { static WS solo; solo = WS(); return &solo; }
  while ((int)t->ws.size() <= cur->ws_seq) { WS *w = new WS(); w->left = t->n; t->ws.push_back(w); }
  WS *w = t->ws[cur->ws_seq++];
  cur->ws = w;
  return w;
}
static bool loop_next(long *is, long *ie) {
  Out o;
  st.sync_ops++;
  sched_point();
  WS *w = cur->ws;
  if (races_on) { sync_acq((uintptr_t)w); sync_rel((uintptr_t)w); }
  if (w->incr > 0 ? w->next >= w->end : w->next <= w->end) return false;
  long c = w->chunk > 0 ? w->chunk : 1;
  long e = w->next + c * w->incr;
  if (w->incr > 0 ? e > w->end : e < w->end) e = w->end;
  *is = w->next;
  *ie = e;
  w->next = e;
  return true;
}
static bool loop_start(long start, long end, long incr, long chunk, long *is, long *ie) {
  {
    Out o;
    WS *w = ws_get();
    cur->ws = w;
    if (!w->init) {
      w->init = true;
      w->next = w->lo = start;
      w->end = end;
      w->incr = incr;
      w->chunk = chunk;
    }
  }
  return loop_next(is, ie);
}
static unsigned sections_next() {
  Out o;
  st.sync_ops++;
  sched_point();
  WS *w = cur->ws;
  if (races_on) { sync_acq((uintptr_t)w); sync_rel((uintptr_t)w); }
  if (w->next >= w->end) return 0;
  return (unsigned)(++w->next);
}

// ---------------------------------------------------------------------------------------------------------
// clocks, rand
std::function<long long(long)> clk;
std::vector<long long> clk_log;
long clk_first_region = -1, clk_last_region = 0;
std::function<int()> rnd;

static long long clock_read() {
  Out o;
  long i = clk_log.size();
  long long v = clk ? clk(i) : 1000000000LL + i * 1000;
  clk_log.push_back(v);
  st.clock_reads++;
  return v;
}

// ---------------------------------------------------------------------------------------------------------
// the library image
uint64_t hash_bytes(const void *p, size_t n, uint64_t h) {
  const unsigned char *c = (const unsigned char *)p;
  while (n >= 8) { uint64_t v; memcpy(&v, c, 8); h = (h ^ v) * 0x9E3779B97F4A7C15ULL; h ^= h >> 29; c += 8; n -= 8; }
  while (n--) { h = (h ^ *c++) * 0x100000001B3ULL; }
  return h;
}
struct SegInfo { std::vector<Seg> v; };
static int phdr_cb(struct dl_phdr_info *info, size_t, void *data) {
  if (!info->dlpi_name || !strstr(info->dlpi_name, "libcake")) return 0;
  SegInfo *s = (SegInfo *)data;
  uintptr_t rlo = 0, rhi = 0;
  for (int i = 0; i < info->dlpi_phnum; i++)
    if (info->dlpi_phdr[i].p_type == PT_GNU_RELRO) {
      rlo = info->dlpi_addr + info->dlpi_phdr[i].p_vaddr;
      rhi = rlo + info->dlpi_phdr[i].p_memsz;
      rhi = (rhi + PG - 1) & ~(PG - 1);
    }
  for (int i = 0; i < info->dlpi_phnum; i++) {
    auto &ph = info->dlpi_phdr[i];
    if (ph.p_type == PT_LOAD && (ph.p_flags & PF_W)) {
      uintptr_t lo = info->dlpi_addr + ph.p_vaddr, hi = lo + ph.p_memsz;
      if (rhi > lo && rlo <= lo) lo = std::min(std::max(lo, rhi), hi);
      if (hi > lo) s->v.push_back({(char *)lo, hi - lo});
    }
    if (ph.p_type == PT_TLS && ph.p_memsz && info->dlpi_tls_data) {
      tls_p = (char *)info->dlpi_tls_data;
      tls_n = ph.p_memsz;
      if (tls_init.empty()) tls_init.assign(tls_p, tls_p + tls_n);
      s->v.push_back({tls_p, tls_n});
    }
  }
  return 0;
}
uint64_t other_tls_hash() {
  uint64_t h = tls_cur;
  for (auto &e : tls_img) if (e.first != tls_cur && e.second != tls_init) { h = hash_bytes(&e.first, sizeof e.first, h); h = hash_bytes(e.second.data(), e.second.size(), h); }
  return h;
}
std::vector<Seg> lib_segments() {
  SegInfo s;
  dl_iterate_phdr(phdr_cb, &s);
  return s.v;
}

// ---------------------------------------------------------------------------------------------------------
// races
bool races_on = false, race_is_failure = true;
std::vector<Conflict> conflicts_seen;
std::vector<uintptr_t> watch;

#ifdef MC_TSAN
struct Cell { uint32_t gen; uint16_t wclk; uint8_t wid, split; void *wpc; uint16_t rclk[VCN]; };
static uint16_t VC[VCN][VCN];
static uint32_t gen = 1;
static Cell *shadow;
static std::unordered_map<uintptr_t, Cell> far_cells;   // granules outside the arena
static std::unordered_map<uintptr_t, Cell> byte_cells;  // bytes of split granules
static std::unordered_map<uintptr_t, std::vector<uint16_t>> sync_vc;
static std::vector<Seg> image_segs;

void races_reset() {
  if (!shadow) {
    arena_init();
    size_t n = (arena_hi - arena_lo) / 4 * sizeof(Cell);
    shadow = (Cell *)mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (shadow == MAP_FAILED) { perror("shadow"); _exit(99); }
  }
  gen++;
  far_cells.clear();
  byte_cells.clear();
  sync_vc.clear();
  memset(VC, 0, sizeof VC);
  for (int i = 0; i < VCN; i++) VC[i][i] = 1;
  conflicts_seen.clear();
}
void race_thread_start(int c, int p) {
  if (c >= VCN || p >= VCN) { fprintf(stderr, "too many threads for race detection\n"); _exit(99); }
  for (int i = 0; i < VCN; i++) VC[c][i] = std::max(VC[c][i], VC[p][i]);
  VC[c][c]++;
}
void race_thread_join(int p, int c) {
  for (int i = 0; i < VCN; i++) VC[p][i] = std::max(VC[p][i], VC[c][i]);
}
void sync_acq(uintptr_t a) {
  if (!cur) return;
  auto it = sync_vc.find(a);
  if (it == sync_vc.end()) return;
  for (int i = 0; i < VCN; i++) VC[cur->id][i] = std::max(VC[cur->id][i], it->second[i]);
}
void sync_rel(uintptr_t a) {
  if (!cur) return;
  auto &v = sync_vc[a];
  v.resize(VCN);
  for (int i = 0; i < VCN; i++) v[i] = std::max(v[i], VC[cur->id][i]);
  VC[cur->id][cur->id]++;
}
static void conflict(uintptr_t a, int x, bool wx, int y, bool wy, void *pc) {
  st.conflicts++;
  if (conflicts_seen.size() < 4096) conflicts_seen.push_back({a, x, y, wx, wy, pc});
}
static inline void cell_access(Cell &c, uintptr_t a, bool w, int id, void *pc) {
  uint16_t *vc = VC[id];
  if (c.gen != gen) {
    c.wclk = 0; c.wid = 0; c.split = 0; c.wpc = 0;
    for (int i = 0; i < VCN; i++) c.rclk[i] = 0;
    c.gen = gen;
  }
  if (c.wclk && c.wid != id && c.wclk > vc[c.wid]) conflict(a, c.wid, true, id, w, pc);
  if (w) {
    for (int i = 0; i < VCN; i++)
      if (c.rclk[i] && i != id && c.rclk[i] > vc[i]) { conflict(a, i, false, id, true, pc); break; }
    c.wid = id;
    c.wclk = vc[id];
    c.wpc = pc;
  } else {
    c.rclk[id] = vc[id];
  }
}
void access(uintptr_t a, size_t n, bool w, void *pc) {
  if (!races_on || !cur || cur == &sched_fiber || !n) return;
  if (tls_n && a >= (uintptr_t)tls_p && a < (uintptr_t)tls_p + tls_n) return;
  st.accesses++;
  int id = cur->id;
  if (!watch.empty()) {
    uintptr_t lo = a & ~3ULL;
    auto it = std::lower_bound(watch.begin(), watch.end(), lo);
    if (it != watch.end() && *it < a + n) { Out o; sched_point(); }
  }
  uintptr_t e = a + n;
  for (uintptr_t g = a & ~3ULL; g < e; g += 4) {
    Cell *c;
    if (g >= (uintptr_t)arena_lo && g < (uintptr_t)arena_hi) c = &shadow[(g - (uintptr_t)arena_lo) / 4];
    else { Out o; c = &far_cells[g]; }
    bool whole = g >= a && g + 4 <= e;
    if (c->gen == gen && c->split) {
      Out o;
      for (uintptr_t b = g; b < g + 4; b++) if (b >= a && b < e) cell_access(byte_cells[b], b, w, id, pc);
    } else if (whole) {
      cell_access(*c, g, w, id, pc);
    } else {
      Out o;
      if (c->gen != gen) { memset(c, 0, sizeof *c); c->gen = gen; }
      for (uintptr_t b = g; b < g + 4; b++) byte_cells[b] = *c;
      c->split = 1;
      for (uintptr_t b = g; b < g + 4; b++) if (b >= a && b < e) cell_access(byte_cells[b], b, w, id, pc);
    }
  }
}
static void shadow_clear(char *p, size_t n) {
  if (!races_on || !shadow) return;
  for (uintptr_t g = (uintptr_t)p & ~3ULL; g < (uintptr_t)p + n; g += 4) shadow[(g - (uintptr_t)arena_lo) / 4].gen = 0;
}
#else
void races_reset() {}
void race_thread_start(int, int) {}
void race_thread_join(int, int) {}
void sync_acq(uintptr_t) {}
void sync_rel(uintptr_t) {}
void access(uintptr_t, size_t, bool, void *) {}
static void shadow_clear(char *, size_t) {}
#endif
}  // namespace mc

using namespace mc;

// -----------------------------------------------------------------------------------------------------------
extern "C" {

#ifndef MC_ASAN
void *malloc(size_t n) {
  if (!in_cake) return __libc_malloc(n);
  Out o;
  if (inject()) { errno = ENOMEM; return 0; }
  return heap_alloc(n, 16, false);
}
void *calloc(size_t a, size_t b) {
  if (!in_cake) return __libc_calloc(a, b);
  Out o;
  if (inject()) { errno = ENOMEM; return 0; }
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return 0; }
  return heap_alloc(n, 16, true);
}
void *memalign(size_t al, size_t n) {
  if (!in_cake) return __libc_memalign(al, n);
  Out o;
  if (inject()) { errno = ENOMEM; return 0; }
  return heap_alloc(n, al, false);
}
void *aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void **r, size_t al, size_t n) {
  if (al % sizeof(void *) || (al & (al - 1)) || !al) return EINVAL;
  void *p = memalign(al, n);
  if (!p) return ENOMEM;
  *r = p;
  return 0;
}
void free(void *p) {
  if (!p) return;
  if (heap_lo && in_heap(p)) { Out o; heap_free(p); return; }
  if (in_cake) {
    // memory the library did not allocate: harness memory (never to be freed) or libc's own
    if (in_guard(p)) { Out o; foreign_free = true; fail("the library freed a caller's buffer"); return; }
  }
  __libc_free(p);
}
void *realloc(void *p, size_t n) {
  if (p && heap_lo && in_heap(p)) {
    Out o;
    Slot *S = find_slot(p);
    if (!S || !S->live || S->p != p) { fail("realloc of a pointer that is not an allocated block"); return 0; }
    if (!n) { heap_free(p); return 0; }
    if (o.save && inject()) { errno = ENOMEM; return 0; }
    char *q = (char *)heap_alloc(n, 16, false);
    memcpy(q, p, S->n < n ? S->n : n);
    heap_free(p);
    return q;
  }
  if (!p) return malloc(n);
  return __libc_realloc(p, n);
}
#endif

void exit(int status) {
  static void (*real)(int) = (void (*)(int))dlsym(RTLD_NEXT, "exit");
  if (in_cake) {
    in_cake = 0;
    if (exit_hook) exit_hook(status);
    if (exit_mode == EXIT_RECORD) _exit(100 + (status != 0));
    fail("the library called exit(%d)", status);
    raise(SIGUSR1);  // the harness reports the failure and ends the process
  }
  real(status);
  _exit(status);
}

int clock_gettime(clockid_t id, struct timespec *t) {
  if (in_cake) {
    // the wall clocks follow one script, those that count from the start of the machine with another origin; CPU time is unrelated
    static long long cpu = 1000003;
    bool wall = id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE || id == CLOCK_TAI;
    long long v = id == CLOCK_PROCESS_CPUTIME_ID || id == CLOCK_THREAD_CPUTIME_ID ? (cpu += 10007 + cpu % 1009) : clock_read() + (wall ? 0 : 7777777777777LL);
    t->tv_sec = v / 1000000000LL;
    t->tv_nsec = v % 1000000000LL;
    return 0;
  }
  return syscall(SYS_clock_gettime, id, t);
}
int gettimeofday(struct timeval *t, void *) {
  if (in_cake) {
    long long v = clock_read();
    t->tv_sec = v / 1000000000LL;
    t->tv_usec = v % 1000000000LL / 1000;
    return 0;
  }
  return syscall(SYS_gettimeofday, t, 0);
}
double omp_get_wtime(void) { long long v = clock_read(); return (v - clk_log[0]) * 1e-9; }   // counts from a recent moment, as the real one does
double omp_get_wtick(void) { return 1e-9; }

int rand(void) {
  static int (*real)() = (int (*)())dlsym(RTLD_NEXT, "rand");
  if (in_cake && rnd) { Out o; return rnd(); }
  return real();
}
long random(void) {
  static long (*real)() = (long (*)())dlsym(RTLD_NEXT, "random");
  if (in_cake && rnd) { Out o; return rnd(); }
  return real();
}

// /proc/cpuinfo is that of the enumerated machine, however it is opened
static const char *stand_in(const char *path) {
  const char *f = in_cake && path && !strcmp(path, "/proc/cpuinfo") ? getenv("MC_CPUINFO") : 0;
  return f ? f : path;
}
#define REALP(name, ret, sig) static ret (*real) sig = 0; if (!real) real = (ret (*) sig)dlsym(RTLD_NEXT, name)
FILE *fopen(const char *path, const char *mode) { REALP("fopen", FILE *, (const char *, const char *)); return real(stand_in(path), mode); }
FILE *fopen64(const char *path, const char *mode) { REALP("fopen64", FILE *, (const char *, const char *)); return real(stand_in(path), mode); }
int open(const char *path, int flags, ...) {
  va_list l; va_start(l, flags); int mode = va_arg(l, int); va_end(l);
  return syscall(SYS_openat, AT_FDCWD, stand_in(path), flags, mode);
}
int open64(const char *path, int flags, ...) {
  va_list l; va_start(l, flags); int mode = va_arg(l, int); va_end(l);
  return syscall(SYS_openat, AT_FDCWD, stand_in(path), flags, mode);
}

// locks of the C and C++ libraries: fibers must not block the process
#define REALFN(name, sig) static int (*real) sig = 0; if (!real) real = (int (*) sig)dlsym(RTLD_NEXT, name)
int pthread_mutex_lock(pthread_mutex_t *m) {
  if (in_cake && cur) { lock(m); return 0; }
  REALFN("pthread_mutex_lock", (pthread_mutex_t *)); return real(m);
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
  if (in_cake && cur) { if (locks[m].owner) return EBUSY; lock(m); return 0; }
  REALFN("pthread_mutex_trylock", (pthread_mutex_t *)); return real(m);
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
  if (in_cake && cur) { unlock(m); return 0; }
  REALFN("pthread_mutex_unlock", (pthread_mutex_t *)); return real(m);
}
int __cxa_guard_acquire(long long *g) {
  char *b = (char *)g;
  if (*b) { if (in_cake && cur && races_on) sync_acq((uintptr_t)g); return 0; }
  if (!in_cake || !cur) return 1;
  lock(g);
  if (*b) { unlock(g); return 0; }
  return 1;
}
void __cxa_guard_release(long long *g) { *(char *)g = 1; if (in_cake && cur) unlock(g); }
void __cxa_guard_abort(long long *g) { if (in_cake && cur) unlock(g); }

// OpenMP API
void omp_set_num_threads(int n) { if (cur) cur->icv = n > 0 ? n : 1; }
int omp_get_max_threads(void) { return cur && cur->icv ? cur->icv : NPROCS; }
int omp_get_num_threads(void) { return cur && cur->team ? cur->team->n : 1; }
int omp_get_thread_num(void) { return cur ? cur->tid : 0; }
int omp_get_num_procs(void) { return NPROCS; }
int omp_in_parallel(void) { return level_active() > 0; }
static int omp_dyn, omp_nest, omp_mal = 1;
void omp_set_dynamic(int d) { omp_dyn = d; }
int omp_get_dynamic(void) { return omp_dyn; }
void omp_set_nested(int n) { omp_nest = n; }
int omp_get_nested(void) { return omp_nest; }
int omp_get_thread_limit(void) { return 1 << 20; }
void omp_set_max_active_levels(int n) { omp_mal = n; }
int omp_get_max_active_levels(void) { return omp_mal; }
int omp_get_level(void) { return cur && cur->team ? cur->team->level : 0; }
int omp_get_active_level(void) { return level_active(); }
int omp_get_team_size(int l) {
  Team *t = cur ? cur->team : 0;
  while (t && t->level > l) t = t->up;
  return t && t->level == l ? t->n : (l == 0 ? 1 : -1);
}
int omp_get_ancestor_thread_num(int l) { return l == omp_get_level() ? omp_get_thread_num() : 0; }
void omp_init_lock(void **) {}
void omp_destroy_lock(void **) {}
void omp_set_lock(void **l) { lock(l); }
void omp_unset_lock(void **l) { unlock(l); }
int omp_test_lock(void **l) { if (locks[l].owner) return 0; lock(l); return 1; }
void omp_init_nest_lock(void *) {}
void omp_destroy_nest_lock(void *) {}
void omp_set_nest_lock(void *l) { lock(l, true); }
void omp_unset_nest_lock(void *l) { unlock(l); }
int omp_get_cancellation(void) { return 0; }
int omp_get_proc_bind(void) { return 0; }
int omp_get_num_teams(void) { return 1; }
int omp_get_team_num(void) { return 0; }
int omp_is_initial_device(void) { return 1; }
int omp_get_num_devices(void) { return 0; }
int omp_get_default_device(void) { return 0; }
void omp_set_schedule(int, int) {}
void omp_get_schedule(int *k, int *c) { *k = 2; *c = 1; }

// libgomp ABI
void GOMP_parallel(void (*fn)(void *), void *data, unsigned nt, unsigned) { parallel(fn, data, nt, LoopInit{}); }
void GOMP_barrier(void) { barrier(); }
bool GOMP_barrier_cancel(void) { barrier(); return false; }
static int crit_default, atom_default;
void GOMP_critical_start(void) { lock(&crit_default); }
void GOMP_critical_end(void) { unlock(&crit_default); }
void GOMP_critical_name_start(void **p) { lock(p); }
void GOMP_critical_name_end(void **p) { unlock(p); }
void GOMP_atomic_start(void) { lock(&atom_default); }
void GOMP_atomic_end(void) { unlock(&atom_default); }
bool GOMP_single_start(void) {
  Out o;
  if (!cur || !cur->team || cur->team == &root_team) return true;
  st.sync_ops++;
  sched_point();
  WS *w = ws_get();
  if (races_on) { sync_acq((uintptr_t)w); sync_rel((uintptr_t)w); }
  if (w->single_taken) return false;
  return w->single_taken = true;
}
void *GOMP_single_copy_start(void) {
  if (GOMP_single_start()) return 0;
  barrier();
  return cur->ws->copy;
}
void GOMP_single_copy_end(void *d) {
  if (cur && cur->ws) cur->ws->copy = d;
  barrier();
}

#define LOOP(name, SCHED)                                                                                      \
  bool GOMP_loop_##name##_start(long s, long e, long i, long c, long *is, long *ie) { return loop_start(s, e, i, c, is, ie); } \
  bool GOMP_loop_##name##_next(long *is, long *ie) { return loop_next(is, ie); }                                 \
  void GOMP_parallel_loop_##name(void (*fn)(void *), void *d, unsigned nt, long s, long e, long i, long c, unsigned) { \
    parallel(fn, d, nt, LoopInit{true, s, e, i, c, SCHED, 0});                                                   \
  }
LOOP(static, 1)
LOOP(dynamic, 2)
LOOP(guided, 3)
LOOP(nonmonotonic_dynamic, 2)
LOOP(nonmonotonic_guided, 3)
#define LOOPRT(name)                                                                                           \
  bool GOMP_loop_##name##_start(long s, long e, long i, long *is, long *ie) { return loop_start(s, e, i, 1, is, ie); } \
  bool GOMP_loop_##name##_next(long *is, long *ie) { return loop_next(is, ie); }                                 \
  void GOMP_parallel_loop_##name(void (*fn)(void *), void *d, unsigned nt, long s, long e, long i, unsigned) {   \
    parallel(fn, d, nt, LoopInit{true, s, e, i, 1, 2, 0});                                                       \
  }
LOOPRT(runtime)
LOOPRT(nonmonotonic_runtime)
LOOPRT(maybe_nonmonotonic_runtime)
#define LOOPU(name)                                                                                            \
  bool GOMP_loop_ull_##name##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, \
                                    unsigned long long *is, unsigned long long *ie) {                            \
    (void)up; return loop_start((long)s, (long)e, (long)i, (long)c, (long *)is, (long *)ie);                       \
  }                                                                                                            \
  bool GOMP_loop_ull_##name##_next(unsigned long long *is, unsigned long long *ie) { return loop_next((long *)is, (long *)ie); }
LOOPU(static)
LOOPU(dynamic)
LOOPU(guided)
LOOPU(nonmonotonic_dynamic)
LOOPU(nonmonotonic_guided)
void GOMP_loop_end(void) { barrier(); }
void GOMP_loop_end_nowait(void) {}
bool GOMP_loop_end_cancel(void) { barrier(); return false; }
unsigned GOMP_sections_start(unsigned n) {
  {
    Out o;
    WS *w = ws_get();
    if (!w->init) { w->init = true; w->next = 0; w->end = n; }
    cur->ws = w;
  }
  return sections_next();
}
unsigned GOMP_sections_next(void) { return sections_next(); }
void GOMP_sections_end(void) { barrier(); }
void GOMP_sections_end_nowait(void) {}
void GOMP_parallel_sections(void (*fn)(void *), void *d, unsigned nt, unsigned n, unsigned) {
  parallel(fn, d, nt, LoopInit{true, 0, (long)n, 1, 1, 0, (int)n});
}
void GOMP_ordered_start(void) {}
void GOMP_ordered_end(void) {}
void GOMP_task(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long size, long align, bool, unsigned, void **, int, void *) {
  if (cpy || size > 0) {
    char *buf = (char *)alloca(size + align);
    char *arg = (char *)(((uintptr_t)buf + align - 1) & ~(uintptr_t)(align - 1));
    if (cpy) cpy(arg, data); else memcpy(arg, data, size);
    fn(arg);
  } else fn(data);
}
// tasks run where they are created; a taskloop runs its chunks in order
#define TASKLOOP(name, T)                                                                                                        \
  void name(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long size, long align, unsigned flags, unsigned long num, \
            int, T start, T end, T step) {                                                                                        \
    bool up = flags & 256;                                                                                                        \
    if (sizeof(T) == 8 && (T)-1 < 0) up = step > 0;                                                                               \
    unsigned long n = up ? (start < end ? (unsigned long)((end - start + step - 1) / step) : 0)                                    \
                         : (start > end ? (unsigned long)((start - end + (T)(-step) - 1) / (T)(-step)) : 0);                       \
    if (!n) return;                                                                                                               \
    unsigned long tasks = num ? (flags & 512 ? std::max(n / num, 1ul) : std::min(num, n)) : std::min<unsigned long>(n, omp_get_num_threads()); \
    char *buf = (char *)alloca(size + align + 1);                                                                                 \
    unsigned long done = 0;                                                                                                       \
    for (unsigned long t = 0; t < tasks; t++) {                                                                                   \
      unsigned long take = n / tasks + (t < n % tasks);                                                                           \
      char *arg = (char *)(((uintptr_t)buf + align - 1) & ~(uintptr_t)(align - 1));                                               \
      if (cpy) cpy(arg, data); else memcpy(arg, data, size);                                                                      \
      ((T *)arg)[0] = start + (T)done * step;                                                                                     \
      ((T *)arg)[1] = t + 1 == tasks ? end : start + (T)(done + take) * step;                                                     \
      done += take;                                                                                                               \
      fn(arg);                                                                                                                    \
    }                                                                                                                             \
  }
TASKLOOP(GOMP_taskloop, long)
TASKLOOP(GOMP_taskloop_ull, unsigned long long)
void GOMP_taskwait(void) {}
void GOMP_taskwait_depend(void **) {}
void GOMP_taskyield(void) {}
void GOMP_taskgroup_start(void) {}
void GOMP_taskgroup_end(void) {}
bool GOMP_cancel(int, bool) { return false; }
bool GOMP_cancellation_point(int) { return false; }

#ifdef MC_TSAN
#define RA __builtin_return_address(0)
void __tsan_init(void) {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit(void) {}
#define RW(n)                                                                                 \
  void __tsan_read##n(void *p) { access((uintptr_t)p, n, false, RA); }                          \
  void __tsan_write##n(void *p) { access((uintptr_t)p, n, true, RA); }                          \
  void __tsan_unaligned_read##n(void *p) { access((uintptr_t)p, n, false, RA); }                \
  void __tsan_unaligned_write##n(void *p) { access((uintptr_t)p, n, true, RA); }                \
  void __tsan_volatile_read##n(void *p) { access((uintptr_t)p, n, false, RA); }                 \
  void __tsan_volatile_write##n(void *p) { access((uintptr_t)p, n, true, RA); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, long n) { access((uintptr_t)p, n, false, RA); }
void __tsan_write_range(void *p, long n) { access((uintptr_t)p, n, true, RA); }
void __tsan_vptr_update(void **, void *) {}
void __tsan_vptr_read(void **) {}

void *memset(void *d, int c, size_t n) {
  if (in_cake && races_on) { Out o; access((uintptr_t)d, n, true, RA); }
  void *r = d;
  asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory");
  return r;
}
void *memcpy(void *d, const void *s, size_t n) {
  if (in_cake && races_on) { Out o; access((uintptr_t)s, n, false, RA); access((uintptr_t)d, n, true, RA); }
  void *r = d;
  asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
  return r;
}
void *memmove(void *d, const void *s, size_t n) {
  if (in_cake && races_on) { Out o; access((uintptr_t)s, n, false, RA); access((uintptr_t)d, n, true, RA); }
  void *r = d;
  if ((char *)d <= (const char *)s || (char *)d >= (const char *)s + n) {
    asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
  } else {
    char *dd = (char *)d + n - 1;
    const char *ss = (const char *)s + n - 1;
    asm volatile("std; rep movsb; cld" : "+D"(dd), "+S"(ss), "+c"(n) : : "memory");
  }
  return r;
}
// the C library's writes into memory of the library, and functions with state of their own
static void touch(const void *a, size_t n, bool w, void *pc) { if (in_cake && races_on && n) { Out o; access((uintptr_t)a, n, w, pc); } }
static int printed(char *b, size_t n, const char *f, va_list l, void *pc) {
  int r;
  { Out o; r = vsnprintf(b, n, f, l); }
  if (r >= 0 && n) touch(b, (size_t)r + 1 < n ? r + 1 : n, true, pc);
  return r;
}
#define PRINTED(n, f) va_list l; va_start(l, f); int r = printed(b, n, f, l, RA); va_end(l); return r
int sprintf(char *b, const char *f, ...) { PRINTED(1 << 20, f); }
int snprintf(char *b, size_t n, const char *f, ...) { PRINTED(n, f); }
int __sprintf_chk(char *b, int, size_t n, const char *f, ...) { PRINTED(n < (1 << 20) ? n : 1 << 20, f); }
int __snprintf_chk(char *b, size_t n, int, size_t, const char *f, ...) { PRINTED(n, f); }
char *fgets(char *b, int n, FILE *f) {
  REALP("fgets", char *, (char *, int, FILE *));
  char *r = real(b, n, f);
  if (r) touch(r, strlen(r) + 1, true, RA);
  return r;
}
FILE *popen(const char *c, const char *m) {
  REALP("popen", FILE *, (const char *, const char *));
  touch(c, strlen(c) + 1, false, RA);
  return real(c, m);
}
#define COPIES(name, sig, args, n)                                       \
  char *name sig {                                                       \
    static char *(*real) sig = 0;                                        \
    if (!real) real = (char *(*) sig)dlsym(RTLD_NEXT, #name);            \
    char *r = real args;                                                 \
    touch(d, n, true, RA);                                               \
    return r;                                                            \
  }
COPIES(strcpy, (char *d, const char *q), (d, q), strlen(d) + 1)
COPIES(strcat, (char *d, const char *q), (d, q), strlen(d) + 1)
COPIES(strncpy, (char *d, const char *q, size_t n), (d, q, n), n)
static int c_state[8];
#define STATE(i, ret, name, sig, args, w)                                \
  ret name sig {                                                         \
    static ret (*real) sig = 0;                                          \
    if (!real) real = (ret (*) sig)dlsym(RTLD_NEXT, #name);              \
    touch(&c_state[i], 4, w, RA);                                        \
    return real args;                                                    \
  }
STATE(0, char *, strtok, (char *a, const char *d), (a, d), true)
STATE(1, struct tm *, localtime, (const time_t *t), (t), true)
STATE(1, struct tm *, gmtime, (const time_t *t), (t), true)
STATE(2, char *, ctime, (const time_t *t), (t), true)
STATE(3, int, setenv, (const char *n, const char *v, int o), (n, v, o), true)
STATE(3, int, unsetenv, (const char *n), (n), true)
STATE(3, int, putenv, (char *v), (v), true)
STATE(3, char *, getenv, (const char *n), (n), false)
STATE(4, char *, setlocale, (int c, const char *l), (c, l), true)
static inline void atom(volatile void *a) {
  if (in_cake && races_on) { Out o; st.sync_ops++; sched_point(); sync_acq((uintptr_t)a); sync_rel((uintptr_t)a); }
}
#define ATOM(bits, T)                                                                                          \
  T __tsan_atomic##bits##_load(const volatile T *a, int) { atom((volatile void *)a); return *a; }                \
  void __tsan_atomic##bits##_store(volatile T *a, T v, int) { atom(a); *a = v; }                                 \
  T __tsan_atomic##bits##_exchange(volatile T *a, T v, int) { atom(a); T o = *a; *a = v; return o; }             \
  T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int) { atom(a); T o = *a; *a = o + v; return o; }        \
  T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int) { atom(a); T o = *a; *a = o - v; return o; }        \
  T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int) { atom(a); T o = *a; *a = o & v; return o; }        \
  T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int) { atom(a); T o = *a; *a = o | v; return o; }         \
  T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int) { atom(a); T o = *a; *a = o ^ v; return o; }        \
  T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int) { atom(a); T o = *a; *a = ~(o & v); return o; }    \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) {                        \
    atom(a); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; }                                            \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) {                          \
    atom(a); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; }                                            \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int, int) {                              \
    atom(a); T o = *a; if (o == c) *a = v; return o; }
ATOM(8, unsigned char)
ATOM(16, unsigned short)
ATOM(32, unsigned int)
ATOM(64, unsigned long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
#endif
}
