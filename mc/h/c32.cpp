// C32: the PyTorch extension (src/linear.cpp), compiled against the stand-in of mc/torch and called through the names it binds
#include <torch/extension.h>
#include "common.h"
const char *PROP = MC_PROP("C32");
// cfg: machine order, then up to three operations of: kind batch in out layouts bias
//   kind 0 forward, 1 backward; layouts: two bits per operand (dense, transposed storage, rows of a wider matrix); bias 0 none, 1 dense, 2 strided
std::map<std::string, pybind11::Bound> &pybind11::bound() { static std::map<std::string, Bound> m; return m; }
typedef at::Tensor T;
static const int OPS = 3, BUFS = 4;
static mc::GuardBuf buf[OPS][BUFS];
void worker_init() { for (auto &o : buf) for (auto &g : o) g.init(1 << 20); hang_limit(120); chunk_size(8); int fd = open("/dev/null", O_WRONLY); dup2(fd, 2); }
void enumerate(const std::function<bool(const Cfg &)> &emit) {
  std::vector<int> ds = thorough ? std::vector<int>{1, 2, 3, 5, 6, 7, 8, 13, 15, 16, 17, 19, 31, 33, 49} : std::vector<int>{1, 2, 5, 6, 7, 13, 16, 17, 33};
  for (int kind = 0; kind < 2; kind++) for (int m : thorough ? std::vector<int>{M_T1, M_T2, M_T4, M_DESK, M_REV} : std::vector<int>{M_T1, M_DESK}) for (int B : ds) for (int in : ds) for (int out : ds)
    for (int bias = 0; bias < 3; bias++) {
      int lay = (B + 3 * in + 5 * out + bias) % 27;
      if (!emit(Cfg{m, (B + in + out) % mc::ORDERS, kind, B, in, out, lay, bias})) return;
    }
  // every combination of layouts
  for (int kind = 0; kind < 2; kind++) for (int lay = 0; lay < 27; lay++) for (int bias = 0; bias < 3; bias++) for (int s = 0; s < 6; s++) {
    static const int sh[][3] = {{1, 1, 1}, {7, 13, 5}, {1, 17, 33}, {33, 1, 6}, {6, 16, 1}, {25, 19, 40}};
    if (!emit(Cfg{M_T1, s, kind, sh[s][0], sh[s][1], sh[s][2], lay, bias})) return;
  }
  // the caches handed over by the caller
  for (int m = 0; m < MACHINES; m++) for (int kind = 0; kind < 2; kind++) for (int x = 0; x < 8; x++) if (!emit(Cfg{m, x % mc::ORDERS, kind, 1 + x * 13, 1 + (x * 29) % 61, 1 + (x * 7) % 50, x, x % 3})) return;
  // histories: the results of earlier calls stay what they were
  for (int h = 0; h < 8; h++) for (int s = 0; s < 27; s++) {
    static const int sh[][3] = {{3, 7, 5}, {13, 6, 17}, {6, 16, 16}};
    Cfg c{s % 2 ? M_T1 : M_T3, s % mc::ORDERS};
    for (int o = 0, d = s; o < OPS; o++, d /= 3) for (long v : {(long)(h >> o & 1), (long)sh[d % 3][0], (long)sh[d % 3][1], (long)sh[d % 3][2], (long)((s + o * 5) % 27), (long)((s + o) % 3)}) c.v[c.n++] = v;
    if (!emit(c)) return;
  }
}
static const uint32_t POISON = 0xFFC0FFEEu;
// a rows x cols view of its own storage holding val(i, j), surrounded by poison
static T operand(mc::GuardBuf &g, int rows, int cols, int layout, const std::function<float(int, int)> &val) {
  long rs, cs, off = 0, n;
  if (layout == 0) { rs = cols; cs = 1; n = (long)rows * cols; }
  else if (layout == 1) { rs = 1; cs = rows; n = (long)rows * cols; }
  else { rs = cols + 3; cs = 1; off = 2; n = off + (long)(rows - 1) * rs + cols; }
  float *d = (float *)g.rw(n * 4, true);
  for (long i = 0; i < n; i++) memcpy(d + i, &POISON, 4);
  for (int i = 0; i < rows; i++) for (int j = 0; j < cols; j++) d[off + i * rs + j * cs] = val(i, j);
  T t = at::from_blob(d, {n});
  if (layout == 0) return t.view({rows, cols});
  if (layout == 1) return t.view({cols, rows}).t();
  return at::from_blob(d + off, {rows, cols}, at::IntArrayRef({rs, cs}), at::kFloat);
}
struct Held { std::vector<T> res; std::vector<std::vector<float>> want; const char *what; };
static bool same(const char *what, const char *which, const T &t, std::vector<int64_t> sz, const std::vector<float> &want) {
  if (!t.defined()) { mc::fail("%s: %s is not returned", what, which); return false; }
  if (t.sizes().v != sz) { mc::fail("%s: %s has the wrong shape", what, which); return false; }
  if (t.scalar_type() != at::kFloat) { mc::fail("%s: %s has the wrong type", what, which); return false; }
  for (size_t i = 0; i < want.size(); i++) {
    double v = sz.size() == 2 ? t.value({(int64_t)i / sz[1], (int64_t)i % sz[1]}) : t.value({(int64_t)i});
    if (v != want[i]) { mc::fail("%s: %s element %zu is %g, exactly %g", what, which, i, v, want[i]); return false; }
  }
  return true;
}
static bool judge(const Held &h, const long *k) {
  int B = k[1], in = k[2], out = k[3];
  if (k[0] == 0) return h.res.size() == 1 ? same(h.what, "output", h.res[0], {B, out}, h.want[0]) : (mc::fail("%s: %zu results", h.what, h.res.size()), false);
  if (h.res.size() != 3) { mc::fail("%s: %zu results", h.what, h.res.size()); return false; }
  if (!same(h.what, "gradient of the input", h.res[0], {B, in}, h.want[0]) || !same(h.what, "gradient of the weight", h.res[1], {out, in}, h.want[1])) return false;
  if (!k[5]) { if (h.res[2].defined()) { mc::fail("%s: a gradient of the bias without a bias", h.what); return false; } return true; }
  return same(h.what, "gradient of the bias", h.res[2], {out}, h.want[2]);
}
void run_config(const Cfg &c) {
  const Machine &m = machines[c[0]];
  set_machine(m);
  mc::pol = mc::Policy();
  mc::pol.order = c[1];
  mc::reset_icv();
  std::vector<long> sg{c[0]};
  {
    size_t blocks = mc::live_count(), bytes = mc::live_bytes();
    {
      std::vector<Held> held;
      held.reserve(OPS);
      for (int o = 0; 2 + o * 6 + 5 < c.n; o++) {
        const long *k = c.v + 2 + o * 6;
        int B = k[1], in = k[2], out = k[3], lay = k[4];
        auto xv = [&](int i, int j) { return (float)((int)(mix(i, j, seed + o) % 13) - 6); };
        auto wv = [&](int i, int j) { return (float)((int)(mix(i + 100, j, seed + o) % 11) - 5); };
        auto gv = [&](int i, int j) { return (float)((int)(mix(i + 200, j, seed + o) % 9) - 4); };
        auto bv = [&](int j) { return (float)((int)(mix(j, 300, seed + o) % 201) - 100); };
        T x = operand(buf[o][0], B, in, lay % 3, xv), w = operand(buf[o][1], out, in, lay / 3 % 3, wv), b, g;
        if (k[0]) g = operand(buf[o][2], B, out, lay / 9, gv);
        if (k[5]) {
          T two = operand(buf[o][3], k[5] == 2 ? out : 1, k[5] == 2 ? 2 : out, 0, [&](int i, int j) { return k[5] == 2 ? (j ? 999.0f : bv(i)) : bv(j); });
          b = k[5] == 2 ? two.transpose(0, 1)[0] : two[0];
        }
        T cache = at::empty({2}, (lay + o) % 2 ? at::kInt : at::kLong);
        cache[0].fill_(m.L2); cache[1].fill_(m.L3);
        uint64_t hx[BUFS];
        for (int q = 0; q < BUFS; q++) hx[q] = mc::hash_bytes(buf[o][q].rwbase, buf[o][q].cap);
        std::vector<T> args{cache, x, w, b};
        if (k[0]) args.insert(args.begin() + 1, g);
        const char *name = k[0] ? "backward" : "forward";
        auto f = pybind11::bound().find(name);
        if (f == pybind11::bound().end()) { mc::fail("the extension binds no function '%s'", name); break; }
        Held h;
        h.what = name;
        std::string err;
        mc::run([&] {
          mc::Cake inside;
          try { h.res = f->second(args); } catch (const std::exception &e) { err = e.what(); }
        });
        if (mc::failed()) break;
        if (err.size()) { mc::fail("%s throws: %s", name, err.c_str()); break; }
        if (!k[0]) {
          h.want.resize(1);
          for (int i = 0; i < B; i++) for (int j = 0; j < out; j++) { float s = 0; for (int l = 0; l < in; l++) s += xv(i, l) * wv(j, l); h.want[0].push_back(k[5] ? s + bv(j) : s); }
        } else {
          h.want.resize(3);
          for (int i = 0; i < B; i++) for (int j = 0; j < in; j++) { float s = 0; for (int l = 0; l < out; l++) s += gv(i, l) * wv(l, j); h.want[0].push_back(s); }
          for (int i = 0; i < out; i++) for (int j = 0; j < in; j++) { float s = 0; for (int l = 0; l < B; l++) s += gv(l, i) * xv(l, j); h.want[1].push_back(s); }
          for (int j = 0; j < out; j++) { float s = 0; for (int l = 0; l < B; l++) s += gv(l, j); h.want[2].push_back(s); }
        }
        for (int q = 0; q < BUFS; q++) if (mc::hash_bytes(buf[o][q].rwbase, buf[o][q].cap) != hx[q]) mc::fail("%s changes its %s", name, q == 0 ? "input" : q == 1 ? "weight" : q == 2 ? "gradient" : "bias");
        if (cache[0].item<int>() != m.L2 || cache[1].item<int>() != m.L3) mc::fail("%s changes the cache sizes", name);
        for (const T &r : h.res) for (const T &a : args) if (r.defined() && a.defined() && r.is_alias_of(a)) mc::fail("%s returns memory of an argument", name);
        if (mc::failed()) break;
        held.push_back(std::move(h));
        for (size_t q = 0; q < held.size(); q++) if (!judge(held[q], c.v + 2 + q * 6)) break;
        count(k[0] ? "backward calls" : "forward calls");
        if (mc::failed()) break;
        cake_cntx_t x2 = machine_cntx(c[0]);
        sg.push_back(k[0] * 100 + k[5] * 30 + lay);
        sg.push_back(structure(R_AUTO, B, k[0] ? in : out, k[0] ? out : in, 10, &x2));
        set_machine(m);
      }
    }
    mc::check_canaries();
    if (!mc::failed() && (mc::live_count() != blocks || mc::live_bytes() != bytes))
      mc::fail("after the results are dropped %ld blocks and %ld bytes are left", (long)(mc::live_count() - blocks), (long)(mc::live_bytes() - bytes));
  }
  unset_machine();
  nontrivial(mc::hash_bytes(sg.data(), sg.size() * sizeof(long)));
}
std::string describe(const Cfg &c) {
  char s[400];
  std::string r = std::string("machine=") + machines[c[0]].name;
  for (int o = 2; o + 5 < c.n; o += 6) {
    snprintf(s, sizeof s, "%s %s batch=%ld in=%ld out=%ld layouts=%ld,%ld,%ld bias=%ld", o > 2 ? ", then" : "", c[o] ? "backward" : "forward", c[o + 1], c[o + 2], c[o + 3], c[o + 4] % 3, c[o + 4] / 3 % 3, c[o + 4] / 9, c[o + 5]);
    r += s;
  }
  return r;
}
std::string rule() {
  return "src/linear.cpp is compiled against stand-ins of the PyTorch headers (strided views on reference-counted storage); the functions it binds as forward and backward are called for every enumerated batch size, layer size, operand layout, bias and cache size, and in every sequence "
         "of up to three calls; results are compared element by element with the integer products, must be fresh memory and stay as they are during later calls, arguments must keep every byte, and the allocator's ledger must return to its state once the results are dropped; "
         "distinct_nontrivial counts distinct (operation, layouts, bias, control structure of the multiplication)";
}
