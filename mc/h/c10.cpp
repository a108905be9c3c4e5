// C10: explicit-state exploration of call histories to a fixpoint.
// A state is everything of the process that the library can carry from one call to the next: its writable image, its
// thread-local memory, its live heap blocks, the context and the OpenMP thread count. Every operation is applied in
// every reachable state and its output compared, bit for bit, with the same call in a fresh process.
#include "common.h"
#include <deque>
#include <set>
const char *PROP = MC_PROP("C10");
// cfg: machine
void worker_init() { hang_limit(thorough ? 20000 : 380); chunk_size(1); }
void enumerate(const std::function<bool(const Cfg &)> &emit) {
  for (int m = 0; m < (thorough ? (int)MACHINES : 8); m++) if (!emit(Cfg{m})) return;
}

enum Kind { O_MUL, O_PACKED_A, O_PACKED_B, O_PACKED_AB, O_NULLCTX, O_OTHERCTX, O_TILE, O_PACKC, O_TRANSPOSE, O_CHECK, O_MATEQ, O_DIMS, O_SIZES, O_PACKA, O_PACKB };
struct Op { int kind, route, M, N, K, p, u, data; };
static const int utile[3][3] = {{0, 0, 0}, {24, 5, 32}, {48, 11, 64}};
static std::vector<Op> ops;
static mc::GuardBuf a, b, c, pa, pb;
static const size_t OUT = 1 << 16;   // bytes of output kept per operation

static void make_ops(int machine) {
  ops.clear();
  for (int t = 0; t < 4; t++) ops.push_back({O_TILE, t});
  static const int small[][3] = {{1, 1, 1}, {13, 33, 7}, {25, 17, 13}, {49, 65, 25}, {7, 97, 31}, {61, 5, 40}};
  static const int large[][3] = {{1, 1, 1}, {13, 33, 7}, {100, 64, 50}, {301, 33, 40}, {40, 130, 200}, {97, 97, 97}};
  bool big = machines[machine].L2 > 30000;
  int shapes = thorough ? 6 : 4;
  // first, so that the states they lead to are explored first
  for (int s = 0; s < shapes; s++) {
    const int *x = (big ? large : small)[s];
    for (int r = 0; r < ROUTES; r++) if (thorough || s == 1 || s == 3 || (s == 2 && r % 2)) ops.push_back({O_OTHERCTX, r, x[0], x[1], x[2], s == 2 ? 1 : s == 3 && r % 2 ? 4 : 3, 0, s == 1});
  }
  for (int s = 0; s < shapes; s++) {
    const int *x = (big ? large : small)[s];
    for (int p : thorough ? std::vector<int>{1, 2, 3, 4, 7} : std::vector<int>{1, 3, 4}) for (int r = 0; r < ROUTES; r++) for (int u = 0; u < (thorough ? 3 : 2); u++) {
      if (!thorough && u && (s + r + p) % 2) continue;
      ops.push_back({O_MUL, r, x[0], x[1], x[2], p, u, 0});
    }
    for (int r = 0; r < ROUTES; r++) ops.push_back({O_MUL, r, x[0], x[1], x[2], 3, 0, 1});   // other matrices at the same place
    for (int r = 0; r < ROUTES; r++) if (thorough || s == 1) ops.push_back({O_MUL, r, x[0], x[1], x[2], 3, 0, 2});   // with scalars
    for (int r = 0; r < 4; r++) for (int k = O_PACKED_A; k <= O_PACKED_AB; k++) if (thorough || (s + r + k) % 3 == 0) ops.push_back({k, r, x[0], x[1], x[2], 2 + s % 2, (s + r) % 2, 0});
    for (int r = 0; r < 3; r++) for (int k = O_DIMS; k <= O_PACKB; k++) if (thorough || (s + r + k) % 4 == 0) ops.push_back({k, r, x[0], x[1], x[2], 1 + (s + k) % 4, (r + s) % 2, 0});
    for (int r = 0; r < 3; r++) if (thorough || (s + r) % 2) ops.push_back({O_PACKC, r, x[0], x[1], x[2], 3, r % 2, 0});
    ops.push_back({O_TRANSPOSE, 0, x[0], x[1], x[2], 3, 0, 0});
    ops.push_back({O_CHECK, 0, x[0], x[1], x[2], 3, 0, 0});
    ops.push_back({O_MATEQ, 0, x[0], x[1], x[2], 3, 0, 0});
  }
  const int *x = (big ? large : small)[1];
  for (int r : {R_NKM, R_2D}) ops.push_back({O_NULLCTX, r, x[0], x[1], x[2], 3, 0, 0});
}
static const char *kind_name[] = {"", " A packed", " B packed", " A and B packed", " without a context", " with another context", "", "pack_C and unpack_C", "transpose_mat", "cake_sgemm_checker", "mat_equals", "init_block_dims", "packed sizes", "pack_A", "pack_B"};
static std::string op_text(int i) {
  const Op &o = ops[i];
  char s[300];
  if (o.kind == O_TILE) { snprintf(s, sizeof s, "update_mr_nr %dx%d", tiles[o.route][0], tiles[o.route][1]); return s; }
  snprintf(s, sizeof s, "%s%s M=%d N=%d K=%d p=%d%s%s", o.kind <= O_OTHERCTX ? route_name[o.route] : "", kind_name[o.kind], o.M, o.N, o.K, o.p,
           o.u ? o.u == 1 ? " tiles 24x5x32" : " tiles 48x11x64" : "", o.kind == O_OTHERCTX ? o.data ? " tile 8x32" : " same tile" : o.data == 2 ? " alpha=2.5 beta=-0.75" : o.data ? " other data" : "");
  return s;
}

static float fl(uint32_t h) { return ((int)(h >> 8) - (1 << 23)) / 8388608.0f * (1 + (h & 7)); }
static cake_cntx_t ctx;
static int cur_tile;
struct Buf { std::vector<char> d; void put(const void *p, size_t n) { d.insert(d.end(), (const char *)p, (const char *)p + n); } template <class T> void val(T x) { put(&x, sizeof x); } };
// one operation; its output (everything the caller sees)
static void perform(const Op &o, Buf &out) {
  if (o.kind == O_TILE) { mc::Cake in; update_mr_nr(&ctx, tiles[o.route][0], tiles[o.route][1]); cur_tile = o.route; return; }
  int M = o.M, N = o.N, K = o.K, p = o.p, mcu = utile[o.u][0], kcu = utile[o.u][1], ncu = utile[o.u][2], data = o.kind == O_OTHERCTX ? 0 : o.data;
  float *A = (float *)a.rwbase, *B = (float *)b.rwbase, *C = (float *)c.rwbase, *PA = (float *)pa.rwbase, *PB = (float *)pb.rwbase;
  for (int i = 0; i < M * K; i++) A[i] = fl(mix(i, M, seed + data));
  for (int i = 0; i < N * K; i++) B[i] = fl(mix(i, N, seed + 7 + data));
  memset(C, 0xFF, (size_t)M * N * 4);
  float al = o.data == 2 ? 2.5f : 1, be = o.data == 2 ? -0.75f : 0;
  if (be != 0) for (int i = 0; i < M * N; i++) C[i] = fl(mix(i, 11, seed));
  auto C_out = [&] { out.put(C, (size_t)M * N * 4); };
  cake_cntx_t other;
  if (o.kind == O_OTHERCTX) make_cntx(&other, o.p % 2 ? M_SKEW : M_SRV, o.data ? 3 : cur_tile);
  blk_dims_t x;
  memset(&x, 0, sizeof x);
  switch (o.kind) {
    case O_MUL: mc::run([&] { multiply(o.route, A, B, C, M, N, K, p, &ctx, 0, 0, al, be, mcu, kcu, ncu); }); C_out(); break;
    case O_OTHERCTX: mc::run([&] { multiply(o.route, A, B, C, M, N, K, p, &other, 0, 0, 1, 0, mcu, kcu, ncu); }); C_out(); break;
    case O_NULLCTX: mc::run([&] { multiply(o.route, A, B, C, M, N, K, p, NULL, 0, 0, 1, 0, mcu, kcu, ncu); }); C_out(); break;
    case O_PACKED_A: case O_PACKED_B: case O_PACKED_AB: case O_PACKA: case O_PACKB: case O_PACKC: case O_DIMS: case O_SIZES: {
      enum sched s = o.route == R_AUTO ? NA : (enum sched)o.route;
      size_t sa, sb, sc;
      mc::run([&] {
        mc::Cake in;
        init_block_dims(M, N, K, p, &x, &ctx, s, NULL, 4, mcu, kcu, ncu);
        s = x.sch;
        sa = cake_sgemm_packed_A_size(M, K, p, &x, &ctx, s); sb = cake_sgemm_packed_B_size(K, N, p, &x, &ctx); sc = cake_sgemm_packed_C_size(M, N, p, &x, &ctx, s);
      });
      if (mc::failed()) return;
      out.val(s);
      if (o.kind == O_SIZES || o.kind == O_DIMS) { out.val(sa); out.val(sb); out.val(sc); out.val(x.m_c); out.val(x.k_c); out.val(x.n_c); out.val(x.Mb); out.val(x.Nb); out.val(x.Kb); break; }
      if (sa > pa.cap || sb > pb.cap || sc > pa.cap) break;
      memset(PA, 0xFF, std::max(sa, o.kind == O_PACKC ? sc : 0));
      memset(PB, 0xFF, sb);
      if (o.kind == O_PACKC) {
        for (int i = 0; i < M * N; i++) C[i] = fl(mix(i, 3, seed));
        mc::run([&] { mc::Cake in; omp_set_num_threads(p); pack_C(C, PA, M, N, p, &x, &ctx, s); memset(C, 0xFF, (size_t)M * N * 4); unpack_C(C, PA, M, N, p, &x, &ctx, s, 1, 0); });
        C_out();
        break;
      }
      bool wa = o.kind == O_PACKED_A || o.kind == O_PACKED_AB || o.kind == O_PACKA, wb = o.kind == O_PACKED_B || o.kind == O_PACKED_AB || o.kind == O_PACKB;
      mc::run([&] { mc::Cake in; omp_set_num_threads(p); if (wa) pack_A(A, PA, M, K, p, &x, &ctx, s); if (wb) pack_B(B, PB, K, N, p, &x, &ctx, s); });
      if (o.kind == O_PACKA) out.put(PA, sa);
      else if (o.kind == O_PACKB) out.put(PB, sb);
      else if (!mc::failed()) { mc::run([&] { multiply(o.route, wa ? PA : A, wb ? PB : B, C, M, N, K, p, &ctx, wa, wb, 1, 0, mcu, kcu, ncu); }); C_out(); }
      break;
    }
    case O_TRANSPOSE: mc::run([&] { mc::Cake in; transpose_mat(B, PB, K, N, 8, 8); }); out.put(PB, (size_t)K * N * 4); break;
    case O_CHECK: case O_MATEQ: {
      std::vector<float> want((size_t)M * N, 0);
      for (int i = 0; i < M; i++) for (int k = 0; k < K; k++) for (int j = 0; j < N; j++) want[(size_t)i * N + j] += A[(size_t)i * K + k] * B[(size_t)k * N + j];
      memcpy(C, want.data(), want.size() * 4);
      int good = -1, bad = -1;
      mc::run([&] {
        mc::Cake in;
        good = o.kind == O_CHECK ? cake_sgemm_checker(A, B, C, N, M, K) : mat_equals(C, want.data(), M, N);
        C[(size_t)M * N - 1] += 10;
        bad = o.kind == O_CHECK ? cake_sgemm_checker(A, B, C, N, M, K) : mat_equals(C, want.data(), M, N);
      });
      out.val(good);
      out.val(bad);
      break;
    }
  }
}
// without the image: what is left when a library counts its calls, say, which makes the image differ for ever
static uint64_t state_hash(bool image = true) {
  uint64_t h = 77;
  if (image) for (auto &s : mc::lib_segments()) h = mc::hash_bytes(s.p, s.n, h);
  h = mc::hash_bytes(&ctx, sizeof ctx, h);
  long icv = mc::icv_nthreads();
  h = mc::hash_bytes(&icv, sizeof icv, h);
  uint64_t t = mc::other_tls_hash();
  h = mc::hash_bytes(&t, sizeof t, h);
  std::vector<mc::Live> live;
  mc::live_blocks(live);
  for (auto &l : live) { h = mc::hash_bytes(&l.n, sizeof l.n, h); h = mc::hash_bytes(l.p, l.n, h); }
  return h;
}
struct Result { volatile int done, failed; uint64_t state, core; long n; char msg[400]; };
static Result *res;       // one per operation
static char *refs;        // [tile][operation][OUT]
static long *refn;
struct State { uint64_t hash; std::vector<int> hist; };   // of one state, the shortest history (first found) is kept

static double wall() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
// run f in a child; f's result lands in *res
static bool child(const std::function<void()> &f, Result *r, std::string *why) {
  r->done = r->failed = 0;
  r->msg[0] = 0;
  fflush(stdout);
  int pid = fork();
  if (!pid) {
    mainimpl::me = -1;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGABRT, SIGILL, SIGUSR1}) signal(s, SIG_DFL);
    alarm(600);
    mc::exit_mode = mc::EXIT_RECORD;
    f();
    if (mc::failed()) { r->failed = 1; snprintf(r->msg, sizeof r->msg, "%s", mc::failure()); }
    r->done = 1;
    _exit(0);
  }
  int st;
  waitpid(pid, &st, 0);
  if (!r->done) { r->failed = 1; snprintf(r->msg, sizeof r->msg, WIFSIGNALED(st) ? "crash (signal %d)" : "ended the process (status %d)", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st)); }
  if (r->failed && why) *why = r->msg;
  return !r->failed;
}
static std::string hist_text(const std::vector<int> &h) {
  std::string s;
  for (int i : h) s += (s.empty() ? "" : "; ") + op_text(i);
  return s.empty() ? "nothing" : s;
}
void run_config(const Cfg &k) {
  int machine = k[0];
  mc::pol = mc::Policy();
  mc::reset_icv();
  make_ops(machine);
  set_machine(machines[machine]);
  machine_cntx(machine); set_machine(machines[machine]);
  machine_cntx(M_SKEW); machine_cntx(M_SRV); set_machine(machines[machine]);
  if (!a.cap) for (mc::GuardBuf *g : {&a, &b, &c, &pa, &pb}) g->init(2 << 20);
  size_t n = ops.size();
  res = (Result *)mainimpl::shared(sizeof(Result) * (n + 1));
  refs = (char *)mainimpl::shared(4 * n * OUT);
  refn = (long *)mainimpl::shared(4 * n * sizeof(long));
  std::vector<int> tile_op(4);
  for (size_t i = 0; i < n; i++) if (ops[i].kind == O_TILE) tile_op[ops[i].route] = i;
  // every call in a fresh process
  for (int t = 0; t < 4; t++) for (size_t i = 0; i < n; i++) {
    std::string why;
    auto one = [&] {
      mc::fill_byte = 0xFF;
      make_cntx(&ctx, machine, t);
      cur_tile = t;
      Buf out;
      perform(ops[i], out);
      refn[t * n + i] = out.d.size();
      if (out.d.size() > OUT) { fprintf(stderr, "C10: output too large\n"); _exit(98); }
      memcpy(refs + (t * n + i) * OUT, out.d.data(), out.d.size());
    };
    if (!child(one, &res[n], &why)) { mc::fail("in a fresh process, tile %dx%d, %s: %s", tiles[t][0], tiles[t][1], op_text(i).c_str(), why.c_str()); return; }
  }
  std::map<uint64_t, int> seen;
  make_cntx(&ctx, machine, 0);
  cur_tile = 0;
  seen[state_hash()] = 1;
  std::set<uint64_t> cores{state_hash(false)};
  // two queues: states that differ from all others in more than the image come first; the images alone are bounded
  std::deque<State> next{{state_hash(), {}}}, later;
  size_t cap = thorough ? 4000 : 150;
  bool cut = false;
  Result *all = (Result *)mainimpl::shared(sizeof(Result));
  size_t longest = 0;
  double t0 = wall();
  for (size_t si = 0; !(next.empty() && later.empty()) && !mc::failed(); si++) {
    double spent = wall() - t0;
    if (next.empty() && (si >= cap || spent > (thorough ? 3000 : 60))) { cut = true; break; }
    if (si >= 3 * cap || spent > (thorough ? 6000 : 240)) { cut = true; break; }
    std::deque<State> &q = next.empty() ? later : next;
    State s = q.front();
    q.pop_front();
    longest = std::max(longest, s.hist.size());
    for (size_t i = 0; i < n; i++) res[i].done = res[i].failed = 0;
    // a process in the state, and from it one process per operation
    std::string why;
    bool ok = child([&] {
      Buf skip;
      mc::fill_byte = si % 2 ? 0x3F : 0x00;
      for (int h : s.hist) { skip.d.clear(); perform(ops[h], skip); if (mc::failed()) return; }
      for (size_t i = 0; i < n; i++) {
        child([&] {
          Buf out;
          mc::fill_byte = (si + i) % 2 ? 0x3F : 0x00;
          int t = cur_tile;
          perform(ops[i], out);
          res[i].state = state_hash();
          res[i].core = state_hash(false);
          res[i].n = out.d.size();
          const char *ref = refs + (t * n + i) * OUT;
          if (mc::failed()) return;
          if ((long)out.d.size() != refn[t * n + i]) { mc::fail("returns %ld bytes of output, in a fresh process %ld", (long)out.d.size(), refn[t * n + i]); return; }
          for (size_t q = 0; q < out.d.size(); q++)
            if (out.d[q] != ref[q]) {
              size_t w = q / 4 * 4;
              float x, y;
              memcpy(&x, &out.d[w], 4);
              memcpy(&y, ref + w, 4);
              mc::fail("output word %ld is %.9g, in a fresh process %.9g", (long)(w / 4), x, y);
              return;
            }
        }, &res[i], 0);
      }
    }, all, &why);
    if (!ok) { mc::fail("after [%s]: %s", hist_text(s.hist).c_str(), why.c_str()); break; }
    count("states");
    for (size_t i = 0; i < n; i++) {
      count("transitions");
      count("traces");
      if (res[i].failed || !res[i].done) { mc::fail("after [%s]: %s: %s", hist_text(s.hist).c_str(), op_text(i).c_str(), res[i].msg); break; }
      uint64_t sg[] = {s.hash, i};
      nontrivial(mc::hash_bytes(sg, sizeof sg));
      if (seen.count(res[i].state)) continue;
      seen[res[i].state] = 1;
      State ns{res[i].state, s.hist};
      ns.hist.push_back(i);
      (cores.insert(res[i].core).second ? next : later).push_back(ns);
    }
  }
  count("longest history over the machines, summed", longest);
  if (cut) count("machines whose state space was cut off");
  else count("machines explored to the fixpoint");
  munmap(res, sizeof(Result) * (n + 1));
  munmap(refs, 4 * n * OUT);
  munmap(refn, 4 * n * sizeof(long));
  munmap(all, sizeof(Result));
  unset_machine();
}
std::string describe(const Cfg &c) { return std::string("all call histories on machine ") + machines[c[0]].name; }
std::string rule() {
  return "explicit-state breadth-first exploration per machine: from a fresh process and context, every operation (multiplications over entry points, shapes, p, user tiles, packed operands, data; tile selections, packings, transposes, checkers, calls with other contexts) "
         "is applied in every reachable state (library image, thread-local memory, live heap, context, thread count) until no new state appears, fresh memory holding other patterns than in the reference; outputs compared bit for bit with a fresh process; "
         "distinct_nontrivial counts distinct (state, operation)";
}
