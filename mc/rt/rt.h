// Controlled runtime for model checking CAKE: a replacement OpenMP runtime on fibers whose team sizes and
// thread schedules are chosen by the checker, a checking allocator, and wrappers for exit, clocks and rand.
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <functional>
#include <vector>
#include <string>

namespace mc {

const int MAXT = 256;     // threads in one team
const int MAXU = 3;       // user threads
const int VCN = 24;       // vector-clock width: user u, worker t  ->  u*8+t

enum Order { ASC = 0, DESC = 1, ROT = 2, RR = 3, ORDERS = 4 };

struct Policy {
  int team_cap = 0;        // at most this many threads per region (0: as many as requested)
  int order = ASC;         // which ready thread runs first (RR: yield at every synchronisation operation)
  bool nested = false;     // give nested regions more than one thread
  bool in_region = false;  // make the call from inside an active parallel region
};
extern Policy pol;

// ---- explorer: choice sequences with a preemption bound -------------------------------------------------
struct ChoicePoint { int n, taken; bool cur_ready; int cost_before; };
struct Explorer {
  bool on = false;
  int bound = 2;
  long max_points = 20000;
  std::vector<int> prefix;
  std::vector<ChoicePoint> pts;
  int cost = 0;
  bool diverged = false, horizon = false;
};
extern Explorer ex;

// ---- what one run did ------------------------------------------------------------------------------------
struct Stats {
  long regions, switches, max_req, max_team, clock_reads, first_region_clock, last_region_clock;
  long barriers, sync_ops, accesses, conflicts, allocs;
  long user_req[MAXU];     // largest team each user thread asked for
};
extern Stats st;

// ---- failures: the first one of a run is kept ---------------------------------------------------------------
void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
bool failed();
const char *failure();
void clear_failure();

// ---- running library code ------------------------------------------------------------------------------------
// runs the given user threads (each on its own fiber) to completion under pol / ex; returns false on a failure
bool run(const std::vector<std::function<void()>> &users);
bool run(const std::function<void()> &user);
struct Cake {            // marks library code: allocations are served from the checking allocator
  Cake(); ~Cake(); int save;
};
extern int in_cake;
void reset_icv();                       // nthreads ICV of every user thread back to "unset"
int icv_nthreads();
extern long mem_before_exit;

// exit behaviour inside library code
enum ExitMode { EXIT_FAIL, EXIT_RECORD };  // violation, or end the process with _exit(100 + (status != 0))
extern int exit_mode;
extern void (*exit_hook)(int);

// ---- checking allocator ------------------------------------------------------------------------------------
extern int fill_byte;                   // pattern of fresh memory (default 0xFF: every float is NaN)
extern long fail_at, fail_upto;         // fail allocation number k, fail_at <= k <= fail_upto (1-based; 0: none)
extern long alloc_no;                   // allocations made by library code since reset
extern bool foreign_free;               // library freed memory that is not its own
struct Live { char *p; size_t n; };
void live_blocks(std::vector<Live> &out);
size_t live_count();
size_t live_bytes();
void check_canaries();                  // fail() on writes around live blocks
void set_free_protect(bool on);         // make freed blocks inaccessible (use after free faults)

// ---- harness memory -----------------------------------------------------------------------------------------
// A matrix between inaccessible pages. rw() is the harness' view; ro() the same memory mapped read-only.
struct GuardBuf {
  char *rwbase = 0, *robase = 0; size_t cap = 0;
  void init(size_t bytes);
  // n bytes ending at the end guard page (right) or starting after the front guard page (left)
  char *rw(size_t n, bool right) { return right ? rwbase + cap - n : rwbase; }
  char *ro(size_t n, bool right) { return right ? robase + cap - n : robase; }
};
bool in_guard(const void *a);

// ---- clocks -------------------------------------------------------------------------------------------------
// scripted clock: reading number i returns clk(i) in nanoseconds
extern std::function<long long(long)> clk;
extern std::vector<long long> clk_log;      // value of each reading of the run
extern long clk_first_region, clk_last_region;  // readings made before the first region began / before the last ended
// ---- rand ---------------------------------------------------------------------------------------------------
extern std::function<int()> rnd;

// ---- writable state of the library image ------------------------------------------------------------------
struct Seg { char *p; size_t n; };
std::vector<Seg> lib_segments();        // .data/.bss of libcake (without RELRO), and its TLS block
uint64_t other_tls_hash();              // the library's thread-local memory of the threads not running now
uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 1469598103934665603ULL);

// ---- race detection (only with the instrumented build) --------------------------------------------------------
extern bool races_on;                    // record accesses and report conflicts
extern bool race_is_failure;
struct Conflict { uintptr_t addr; int a, b; bool wa, wb; void *pc; };
extern std::vector<Conflict> conflicts_seen;
extern std::vector<uintptr_t> watch;     // granules whose accesses are scheduling points (sorted)
void races_reset();
void access(uintptr_t a, size_t n, bool w, void *pc);
void sync_acq(uintptr_t a);
void sync_rel(uintptr_t a);
void sched_point();                      // a preemption is possible here
void race_thread_start(int child, int parent);
void race_thread_join(int parent, int child);
int cur_id();
extern char *arena_lo, *arena_hi;        // heap, matrices and fiber stacks
char *reserve(size_t n);                 // page-aligned piece of the arena
}
