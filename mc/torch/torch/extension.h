// Stand-in for <torch/extension.h>: functions bound to Python are collected by name. Calling one converts the arguments
// as pybind11 does: every parameter is a fresh handle of the tensor passed (None: an undefined one).
#ifndef MC_TORCH_EXTENSION_H
#define MC_TORCH_EXTENSION_H
#include "torch.h"
#ifndef TORCH_EXTENSION_NAME
#define TORCH_EXTENSION_NAME linear_cpp
#endif
namespace pybind11 {
typedef std::function<std::vector<at::Tensor>(const std::vector<at::Tensor> &)> Bound;
std::map<std::string, Bound> &bound();   // defined by the check program
struct arg { const char *n; explicit arg(const char *x) : n(x) {} template <class T> arg operator=(T &&) const { return *this; } };
struct none {};
template <class T> struct call_guard {};
struct gil_scoped_release {};
inline std::vector<at::Tensor> results(at::Tensor t) { return {t}; }
inline std::vector<at::Tensor> results(std::vector<at::Tensor> t) { return t; }
template <class... T> std::vector<at::Tensor> results(std::tuple<T...> t) { return std::apply([](auto... x) { return std::vector<at::Tensor>{x...}; }, t); }
template <class T> struct handle_of { typedef at::Tensor type; static at::Tensor from(const at::Tensor &t) { return t; } };
template <class T> struct handle_of<std::optional<T>> { typedef std::optional<T> type; static type from(const at::Tensor &t) { return t.defined() ? type(t) : type(); } };
struct module_ {
  template <class R, class... A, size_t... N> static std::vector<at::Tensor> call(R (*f)(A...), const std::vector<at::Tensor> &a, std::index_sequence<N...>) {
    std::tuple<typename handle_of<std::decay_t<A>>::type...> h{handle_of<std::decay_t<A>>::from(a[N])...};
    return results(f(static_cast<A>(std::get<N>(h))...));
  }
  template <class R, class... A, class... X> module_ &def(const char *name, R (*f)(A...), X &&...) {
    bound()[name] = [f](const std::vector<at::Tensor> &a) {
      if (a.size() != sizeof...(A)) throw c10::Error("incompatible function arguments");
      return call(f, a, std::index_sequence_for<A...>());
    };
    return *this;
  }
};
typedef module_ module;
}  // namespace pybind11
namespace py = pybind11;
#define PYBIND11_MODULE(name, m)                                   \
  static void mc_bind(::pybind11::module_ &m);                     \
  namespace { struct McBinder { McBinder() { ::pybind11::module_ x; mc_bind(x); } } mc_binder; } \
  static void mc_bind(::pybind11::module_ &m)
#define TORCH_CHECK(c, ...) do { if (!(c)) throw c10::Error("check failed: " #c); } while (0)
#define AT_ASSERTM(c, ...) TORCH_CHECK(c)
#define AT_ASSERT(c, ...) TORCH_CHECK(c)
#define TORCH_INTERNAL_ASSERT(c, ...) TORCH_CHECK(c)
#endif
