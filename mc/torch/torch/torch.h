// Stand-in for the part of the PyTorch C++ interface a CPU extension uses: strided views on shared, reference-counted
// storage, as ATen documents them. Element access is generic and slow; nothing here knows what the extension computes.
#ifndef MC_TORCH_H
#define MC_TORCH_H
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <functional>
#include <initializer_list>
#include <map>
#include <memory>
#include <optional>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <vector>

namespace c10 {
struct Error : std::runtime_error { using std::runtime_error::runtime_error; };
enum class ScalarType { Float, Double, Int, Long, Byte, Bool };
enum class DeviceType { CPU };
struct Device { DeviceType t = DeviceType::CPU; Device() {} Device(DeviceType x) : t(x) {} bool is_cpu() const { return true; } };
struct IntArrayRef {
  std::vector<int64_t> v;
  IntArrayRef() {}
  template <class T> IntArrayRef(std::initializer_list<T> l) : v(l.begin(), l.end()) {}
  template <class T> IntArrayRef(const std::vector<T> &l) : v(l.begin(), l.end()) {}
  IntArrayRef(int64_t x) : v(1, x) {}
  size_t size() const { return v.size(); }
  int64_t operator[](size_t i) const { return v[i]; }
  const int64_t *begin() const { return v.data(); }
  const int64_t *end() const { return v.data() + v.size(); }
  std::vector<int64_t> vec() const { return v; }
  bool operator==(const IntArrayRef &o) const { return v == o.v; }
  bool operator!=(const IntArrayRef &o) const { return v != o.v; }
};
inline size_t size_of(ScalarType t) {
  switch (t) { case ScalarType::Float: case ScalarType::Int: return 4; case ScalarType::Double: case ScalarType::Long: return 8; default: return 1; }
}
template <class T> struct type_of;
template <> struct type_of<float> { static constexpr ScalarType v = ScalarType::Float; };
template <> struct type_of<double> { static constexpr ScalarType v = ScalarType::Double; };
template <> struct type_of<int> { static constexpr ScalarType v = ScalarType::Int; };
template <> struct type_of<long> { static constexpr ScalarType v = ScalarType::Long; };
template <> struct type_of<long long> { static constexpr ScalarType v = ScalarType::Long; };
template <> struct type_of<unsigned char> { static constexpr ScalarType v = ScalarType::Byte; };
template <> struct type_of<bool> { static constexpr ScalarType v = ScalarType::Bool; };
enum class Layout { Strided };
struct TensorOptions {
  ScalarType type = ScalarType::Float;
  TensorOptions() {}
  TensorOptions(ScalarType t) : type(t) {}
  TensorOptions(Device) {}
  TensorOptions(DeviceType) {}
  TensorOptions dtype(ScalarType t) const { TensorOptions o = *this; o.type = t; return o; }
  TensorOptions device(Device) const { return *this; }
  TensorOptions device(DeviceType) const { return *this; }
  TensorOptions layout(Layout) const { return *this; }
  TensorOptions requires_grad(bool) const { return *this; }
  TensorOptions pinned_memory(bool) const { return *this; }
};
}  // namespace c10

namespace at {
using c10::Device; using c10::DeviceType; using c10::IntArrayRef; using c10::ScalarType; using c10::TensorOptions; using c10::Error;
static constexpr ScalarType kFloat = ScalarType::Float, kFloat32 = ScalarType::Float, kDouble = ScalarType::Double, kFloat64 = ScalarType::Double, kInt = ScalarType::Int,
                            kInt32 = ScalarType::Int, kLong = ScalarType::Long, kInt64 = ScalarType::Long, kByte = ScalarType::Byte, kUInt8 = ScalarType::Byte, kBool = ScalarType::Bool;
static constexpr DeviceType kCPU = DeviceType::CPU;
static constexpr c10::Layout kStrided = c10::Layout::Strided;

struct Storage {
  char *data = 0;
  std::function<void(void *)> release;
  ~Storage() { if (release) release(data); }
};
[[noreturn]] inline void err(const std::string &m) { throw c10::Error(m); }

class Tensor {
  struct Impl {
    std::shared_ptr<Storage> st;
    std::vector<int64_t> sz, str;
    int64_t off = 0;   // in elements
    ScalarType type = ScalarType::Float;
  };
  std::shared_ptr<Impl> p;
  const Impl &I() const { if (!p) err("undefined tensor"); return *p; }
  static std::vector<int64_t> dense(const std::vector<int64_t> &sz) {
    std::vector<int64_t> s(sz.size());
    int64_t n = 1;
    for (size_t i = sz.size(); i--;) { s[i] = n; n *= sz[i] > 1 ? sz[i] : 1; }
    return s;
  }
  int64_t wrap(int64_t d) const { int64_t n = dim(); if (d < -n || d >= (n ? n : 1)) err("dimension out of range"); return d < 0 ? d + n : d; }
  char *at_(const std::vector<int64_t> &ix) const {
    int64_t o = I().off;
    for (size_t i = 0; i < ix.size(); i++) o += ix[i] * p->str[i];
    return p->st->data + o * c10::size_of(p->type);
  }
  template <class F> void each(F f) const {
    std::vector<int64_t> ix(I().sz.size(), 0);
    if (!numel()) return;
    for (;;) {
      f(ix);
      int d = (int)ix.size() - 1;
      for (; d >= 0; d--) { if (++ix[d] < p->sz[d]) break; ix[d] = 0; }
      if (d < 0) return;
    }
  }
  static double get(const char *c, ScalarType t) {
    switch (t) {
      case ScalarType::Float: { float x; memcpy(&x, c, 4); return x; }
      case ScalarType::Double: { double x; memcpy(&x, c, 8); return x; }
      case ScalarType::Int: { int x; memcpy(&x, c, 4); return x; }
      case ScalarType::Long: { int64_t x; memcpy(&x, c, 8); return (double)x; }
      default: return *(const unsigned char *)c;
    }
  }
  static void put(char *c, ScalarType t, double v) {
    switch (t) {
      case ScalarType::Float: { float x = (float)v; memcpy(c, &x, 4); return; }
      case ScalarType::Double: memcpy(c, &v, 8); return;
      case ScalarType::Int: { int x = (int)v; memcpy(c, &x, 4); return; }
      case ScalarType::Long: { int64_t x = (int64_t)v; memcpy(c, &x, 8); return; }
      default: *(unsigned char *)c = (unsigned char)v;
    }
  }
  Tensor view_of(std::vector<int64_t> sz, std::vector<int64_t> str, int64_t off) const {
    Tensor t;
    t.p = std::make_shared<Impl>(*p);
    t.p->sz = sz; t.p->str = str; t.p->off = off;
    return t;
  }
  std::vector<int64_t> infer(const IntArrayRef &s) const {
    std::vector<int64_t> z = s.v;
    int64_t n = 1, hole = -1;
    for (size_t i = 0; i < z.size(); i++) { if (z[i] == -1) { if (hole >= 0) err("only one dimension can be inferred"); hole = i; } else if (z[i] < 0) err("invalid shape dimension"); else n *= z[i]; }
    if (hole >= 0) { if (!n || numel() % n) err("shape is invalid for input"); z[hole] = numel() / n; n *= z[hole]; }
    if (n != numel()) err("shape is invalid for input of size " + std::to_string(numel()));
    return z;
  }
  bool view_strides(const std::vector<int64_t> &nz, std::vector<int64_t> &ns) const {   // as ATen's computeStride
    ns.assign(nz.size(), 1);
    if (!numel()) { ns = dense(nz); return true; }
    int vd = (int)nz.size() - 1;
    int64_t base = p->sz.empty() ? 1 : p->str.back(), tn = 1, vn = 1;
    for (int d = (int)p->sz.size() - 1; d >= 0; d--) {
      tn *= p->sz[d];
      if (d == 0 || (p->sz[d - 1] != 1 && p->str[d - 1] != tn * base)) {
        while (vd >= 0 && (vn < tn || nz[vd] == 1)) { ns[vd] = vn * base; vn *= nz[vd]; vd--; }
        if (vn != tn) return false;
        if (d > 0) { base = p->str[d - 1]; tn = vn = 1; }
      }
    }
    if (p->sz.empty()) { while (vd >= 0) ns[vd--] = 1; }
    return vd == -1;
  }

 public:
  Tensor() {}
  static Tensor make(IntArrayRef s, ScalarType t, bool zero) {
    Tensor r;
    r.p = std::make_shared<Impl>();
    r.p->sz = s.v; r.p->str = dense(s.v); r.p->type = t;
    r.p->st = std::make_shared<Storage>();
    size_t n = c10::size_of(t);
    for (int64_t x : s.v) { if (x < 0) err("negative dimension"); n *= x; }
    r.p->st->data = (char *)malloc(n ? n : 1);
    if (!r.p->st->data) throw std::bad_alloc();
    memset(r.p->st->data, zero ? 0 : 0xFF, n);
    r.p->st->release = [](void *d) { free(d); };
    return r;
  }
  static Tensor blob(void *d, IntArrayRef s, std::vector<int64_t> str, std::function<void(void *)> del, ScalarType t) {
    Tensor r;
    r.p = std::make_shared<Impl>();
    r.p->sz = s.v; r.p->str = str.empty() ? dense(s.v) : str; r.p->type = t;
    r.p->st = std::make_shared<Storage>();
    r.p->st->data = (char *)d;
    r.p->st->release = del;
    return r;
  }
  bool defined() const { return (bool)p; }
  explicit operator bool() const { return defined(); }
  void reset() { p.reset(); }
  int64_t dim() const { return I().sz.size(); }
  int64_t ndimension() const { return dim(); }
  int64_t size(int64_t d) const { return I().sz[wrap(d)]; }
  IntArrayRef sizes() const { return IntArrayRef(I().sz); }
  int64_t stride(int64_t d) const { return I().str[wrap(d)]; }
  IntArrayRef strides() const { return IntArrayRef(I().str); }
  int64_t numel() const { int64_t n = 1; for (int64_t x : I().sz) n *= x; return n; }
  int64_t storage_offset() const { return I().off; }
  ScalarType scalar_type() const { return I().type; }
  ScalarType dtype() const { return I().type; }
  TensorOptions options() const { return TensorOptions(I().type); }
  Device device() const { return Device(); }
  bool is_cuda() const { return false; }
  bool is_cpu() const { return true; }
  bool requires_grad() const { return false; }
  Tensor set_requires_grad(bool) const { return *this; }
  int64_t element_size() const { return c10::size_of(I().type); }
  int64_t nbytes() const { return element_size() * numel(); }
  bool is_same(const Tensor &o) const { return p == o.p; }
  bool is_alias_of(const Tensor &o) const { return p && o.p && p->st == o.p->st; }
  bool is_contiguous() const {
    if (!numel()) return true;
    int64_t n = 1;
    for (size_t i = I().sz.size(); i--;) if (p->sz[i] != 1) { if (p->str[i] != n) return false; n *= p->sz[i]; }
    return true;
  }
  template <class T> T *data_ptr() const {
    if (c10::type_of<T>::v != I().type) err("expected another scalar type");
    return (T *)(p->st->data + p->off * sizeof(T));
  }
  void *data_ptr() const { return p->st->data + I().off * c10::size_of(p->type); }
  template <class T> const T *const_data_ptr() const { return data_ptr<T>(); }
  template <class T> T *mutable_data_ptr() const { return data_ptr<T>(); }
  template <class T> T *data() const { return data_ptr<T>(); }
  template <class T> T item() const {
    if (numel() != 1) err("a tensor with more than one element cannot be converted to a scalar");
    return (T)get(at_(std::vector<int64_t>(I().sz.size(), 0)), p->type);
  }
  double value(std::vector<int64_t> ix) const { return get(at_(ix), p->type); }
  Tensor operator[](int64_t i) const { return select(0, i); }
  Tensor select(int64_t d, int64_t i) const {
    if (!dim()) err("invalid index of a 0-dim tensor");
    d = wrap(d);
    if (i < 0) i += p->sz[d];
    if (i < 0 || i >= p->sz[d]) err("index out of range");
    auto z = p->sz, s = p->str;
    z.erase(z.begin() + d); s.erase(s.begin() + d);
    return view_of(z, s, p->off + i * p->str[d]);
  }
  Tensor narrow(int64_t d, int64_t a, int64_t n) const {
    d = wrap(d);
    if (a < 0 || n < 0 || a + n > p->sz[d]) err("narrow out of range");
    auto z = p->sz;
    z[d] = n;
    return view_of(z, p->str, p->off + a * p->str[d]);
  }
  Tensor slice(int64_t d, int64_t a, int64_t b) const { return narrow(d, a, b - a); }
  Tensor transpose(int64_t a, int64_t b) const {
    auto z = I().sz, s = p->str;
    std::swap(z[wrap(a)], z[wrap(b)]); std::swap(s[wrap(a)], s[wrap(b)]);
    return view_of(z, s, p->off);
  }
  Tensor t() const { if (dim() > 2) err("t() expects a tensor with <= 2 dimensions"); return dim() < 2 ? *this : transpose(0, 1); }
  Tensor unsqueeze(int64_t d) const {
    if (d < 0) d += dim() + 1;
    auto z = I().sz, s = p->str;
    int64_t ns = d < dim() ? z[d] * s[d] : 1;
    z.insert(z.begin() + d, 1); s.insert(s.begin() + d, ns);
    return view_of(z, s, p->off);
  }
  Tensor squeeze() const {
    std::vector<int64_t> z, s;
    for (size_t i = 0; i < I().sz.size(); i++) if (p->sz[i] != 1) { z.push_back(p->sz[i]); s.push_back(p->str[i]); }
    return view_of(z, s, p->off);
  }
  Tensor expand(IntArrayRef n) const {
    std::vector<int64_t> z(n.v), s(n.size(), 0);
    int64_t lead = (int64_t)n.size() - dim();
    if (lead < 0) err("expand: too few dimensions");
    for (int64_t i = 0; i < dim(); i++) {
      if (z[lead + i] == -1) z[lead + i] = p->sz[i];
      if (p->sz[i] == z[lead + i]) s[lead + i] = p->str[i];
      else if (p->sz[i] != 1) err("the expanded size must match the existing size");
    }
    return view_of(z, s, p->off);
  }
  Tensor expand_as(const Tensor &o) const { return expand(o.sizes()); }
  Tensor clone() const {
    Tensor r = make(IntArrayRef(I().sz), p->type, false);
    each([&](const std::vector<int64_t> &ix) { memcpy(r.at_(ix), at_(ix), c10::size_of(p->type)); });
    return r;
  }
  Tensor contiguous() const { return is_contiguous() ? *this : clone(); }
  Tensor detach() const { return view_of(I().sz, p->str, p->off); }
  Tensor cpu() const { return *this; }
  Tensor view(IntArrayRef s) const {
    std::vector<int64_t> z = infer(s), ns;
    if (!view_strides(z, ns)) err("view size is not compatible with input tensor's size and stride");
    return view_of(z, ns, p->off);
  }
  Tensor reshape(IntArrayRef s) const {
    std::vector<int64_t> z = infer(s), ns;
    if (view_strides(z, ns)) return view_of(z, ns, p->off);
    Tensor c = clone();
    c.p->sz = z; c.p->str = dense(z);
    return c;
  }
  Tensor flatten() const { return reshape({-1}); }
  Tensor view_as(const Tensor &o) const { return view(o.sizes()); }
  Tensor reshape_as(const Tensor &o) const { return reshape(o.sizes()); }
  Tensor to(ScalarType t) const {
    if (t == I().type) return *this;
    Tensor r = make(IntArrayRef(p->sz), t, false);
    each([&](const std::vector<int64_t> &ix) { put(r.at_(ix), t, get(at_(ix), p->type)); });
    return r;
  }
  Tensor to(const TensorOptions &o) const { return to(o.type); }
  Tensor &fill_(double v) { each([&](const std::vector<int64_t> &ix) { put(at_(ix), p->type, v); }); return *this; }
  Tensor &zero_() { return fill_(0); }
  template <class F> Tensor &zip_(const Tensor &o, F f) {
    Tensor b = o.expand(sizes());
    each([&](const std::vector<int64_t> &ix) { char *c = at_(ix); put(c, p->type, f(get(c, p->type), get(b.at_(ix), b.p->type))); });
    return *this;
  }
  Tensor &copy_(const Tensor &o) { return zip_(o, [](double, double y) { return y; }); }
  Tensor &add_(const Tensor &o, double al = 1) { return zip_(o, [al](double x, double y) { return x + al * y; }); }
  Tensor &sub_(const Tensor &o) { return add_(o, -1); }
  Tensor &mul_(double v) { each([&](const std::vector<int64_t> &ix) { char *c = at_(ix); put(c, p->type, get(c, p->type) * v); }); return *this; }
  Tensor add(const Tensor &o, double al = 1) const {
    std::vector<int64_t> z(std::max(dim(), o.dim()), 1);
    for (size_t i = 0; i < z.size(); i++) {
      int64_t a = dim() - (int64_t)z.size() + (int64_t)i, b = o.dim() - (int64_t)z.size() + (int64_t)i, x = a >= 0 ? p->sz[a] : 1, y = b >= 0 ? o.p->sz[b] : 1;
      if (x != y && x != 1 && y != 1) err("the sizes of the tensors must match");
      z[i] = x == 1 ? y : x;
    }
    Tensor r = expand(IntArrayRef(z)).clone();
    r.add_(o, al);
    return r;
  }
  Tensor operator+(const Tensor &o) const { return add(o); }
  Tensor &operator+=(const Tensor &o) { return add_(o); }
  Tensor sum(int64_t d, bool keep = false) const {
    d = wrap(d);
    auto z = I().sz;
    z[d] = 1;
    Tensor r = make(IntArrayRef(z), p->type, true);
    each([&](std::vector<int64_t> ix) { char *s = at_(ix); ix[d] = 0; char *c = r.at_(ix); put(c, p->type, get(c, p->type) + get(s, p->type)); });
    return keep ? r : r.select(d, 0);
  }
  Tensor sum(IntArrayRef ds, bool keep = false) const { if (ds.size() != 1) err("one dimension only"); return sum(ds[0], keep); }
  // several ints in braces: sum(0) and sum({0}) both exist
  Tensor sum() const {
    Tensor r = make(IntArrayRef(std::vector<int64_t>{}), I().type, true);
    each([&](const std::vector<int64_t> &ix) { char *c = r.p->st->data; put(c, p->type, get(c, p->type) + get(at_(ix), p->type)); });
    return r;
  }
  Tensor permute(IntArrayRef o) const {
    if ((int64_t)o.size() != dim()) err("number of dimensions in the tensor and in the permutation differ");
    std::vector<int64_t> z, s;
    for (int64_t d : o) { z.push_back(p->sz[wrap(d)]); s.push_back(p->str[wrap(d)]); }
    return view_of(z, s, p->off);
  }
  Tensor flatten(int64_t a, int64_t b = -1) const {
    a = wrap(a); b = wrap(b);
    std::vector<int64_t> z(p->sz.begin(), p->sz.begin() + a);
    int64_t n = 1;
    for (int64_t d = a; d <= b; d++) n *= p->sz[d];
    z.push_back(n);
    z.insert(z.end(), p->sz.begin() + b + 1, p->sz.end());
    return reshape(IntArrayRef(z));
  }
  Tensor squeeze(int64_t d) const {
    d = wrap(d);
    if (p->sz[d] != 1) return *this;
    auto z = p->sz, s = p->str;
    z.erase(z.begin() + d); s.erase(s.begin() + d);
    return view_of(z, s, p->off);
  }
  Tensor mul(double v) const { Tensor r = clone(); r.mul_(v); return r; }
  Tensor operator*(double v) const { return mul(v); }
  Tensor sub(const Tensor &o) const { return add(o, -1); }
  Tensor operator-(const Tensor &o) const { return sub(o); }
  Tensor &operator-=(const Tensor &o) { return sub_(o); }
  Tensor mm(const Tensor &o) const {   // sums in single precision, in order of the inner index
    if (dim() != 2 || o.dim() != 2 || size(1) != o.size(0)) err("mm: shapes cannot be multiplied");
    Tensor r = make(IntArrayRef(std::vector<int64_t>{size(0), o.size(1)}), p->type, true);
    for (int64_t i = 0; i < size(0); i++) for (int64_t j = 0; j < o.size(1); j++) {
      double v = 0;
      for (int64_t q = 0; q < size(1); q++) v = p->type == ScalarType::Float ? (float)(v + value({i, q}) * o.value({q, j})) : v + value({i, q}) * o.value({q, j});
      put(r.at_({i, j}), p->type, v);
    }
    return r;
  }
  Tensor matmul(const Tensor &o) const { return mm(o); }
  bool is_floating_point() const { return I().type == ScalarType::Float || I().type == ScalarType::Double; }
  Tensor alias() const { return detach(); }
  Tensor to(Device) const { return *this; }
  Tensor to(DeviceType) const { return *this; }
  c10::Layout layout() const { return c10::Layout::Strided; }
  template <class T, size_t N> struct Accessor {
    T *d; const int64_t *z, *s;
    auto operator[](int64_t i) const -> std::conditional_t<N == 1, T &, Accessor<T, N == 1 ? 1 : N - 1>> {
      if constexpr (N == 1) return d[i * *s]; else return {d + i * *s, z + 1, s + 1};
    }
    int64_t size(int64_t i) const { return z[i]; }
    int64_t stride(int64_t i) const { return s[i]; }
    T *data() const { return d; }
  };
  template <class T, size_t N> Accessor<T, N> accessor() const {
    if ((int64_t)N != dim()) err("accessor: expected another number of dimensions");
    return {data_ptr<T>(), p->sz.data(), p->str.data()};
  }
};
inline Tensor zeros(IntArrayRef s, TensorOptions o = {}) { return Tensor::make(s, o.type, true); }
inline Tensor empty(IntArrayRef s, TensorOptions o = {}) { return Tensor::make(s, o.type, false); }
inline Tensor ones(IntArrayRef s, TensorOptions o = {}) { Tensor t = Tensor::make(s, o.type, true); t.fill_(1); return t; }
inline Tensor full(IntArrayRef s, double v, TensorOptions o = {}) { Tensor t = Tensor::make(s, o.type, true); t.fill_(v); return t; }
inline Tensor zeros_like(const Tensor &t) { return zeros(t.sizes(), t.options()); }
inline Tensor sum(const Tensor &t, int64_t d, bool keep = false) { return t.sum(d, keep); }
inline Tensor sum(const Tensor &t, IntArrayRef d, bool keep = false) { return t.sum(d, keep); }
inline Tensor add(const Tensor &a, const Tensor &b, double al = 1) { return a.add(b, al); }
inline Tensor matmul(const Tensor &a, const Tensor &b) { return a.mm(b); }
inline Tensor mm(const Tensor &a, const Tensor &b) { return a.mm(b); }
inline Tensor transpose(const Tensor &t, int64_t a, int64_t b) { return t.transpose(a, b); }
inline Tensor t(const Tensor &x) { return x.t(); }
inline Tensor reshape(const Tensor &x, IntArrayRef s) { return x.reshape(s); }
inline Tensor clone(const Tensor &x) { return x.clone(); }
inline TensorOptions dtype(ScalarType t) { return TensorOptions(t); }
inline TensorOptions device(DeviceType) { return TensorOptions(); }
struct NoGradGuard {};
struct AutoGradMode { AutoGradMode(bool) {} };
inline Tensor empty_like(const Tensor &t) { return empty(t.sizes(), t.options()); }
// the caller keeps the memory, unless he hands over a deleter
inline Tensor from_blob(void *d, IntArrayRef s, TensorOptions o = {}) { return Tensor::blob(d, s, {}, nullptr, o.type); }
inline Tensor from_blob(void *d, IntArrayRef s, const std::function<void(void *)> &del, TensorOptions o = {}) { return Tensor::blob(d, s, {}, del, o.type); }
inline Tensor from_blob(void *d, IntArrayRef s, IntArrayRef str, TensorOptions o = {}) { return Tensor::blob(d, s, str.v, nullptr, o.type); }
inline Tensor from_blob(void *d, IntArrayRef s, IntArrayRef str, const std::function<void(void *)> &del, TensorOptions o = {}) { return Tensor::blob(d, s, str.v, del, o.type); }
}  // namespace at

namespace torch {
using namespace at;
using at::Tensor;
}
#endif
