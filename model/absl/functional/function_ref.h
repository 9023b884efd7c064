#ifndef VF_FUNCTION_REF_H_
#define VF_FUNCTION_REF_H_
#include <functional>
#include <memory>
#include <type_traits>
#include <utility>
namespace absl {
template <class S> class FunctionRef;
template <class R, class... A>
class FunctionRef<R(A...)> {
 public:
  template <class F, class = std::enable_if_t<!std::is_same_v<std::decay_t<F>, FunctionRef> && std::is_invocable_r_v<R, F&, A...>>>
  FunctionRef(const F& f) : p_((void*)std::addressof(f)), call_([](void* p, A... a) -> R { return std::invoke(*(F*)p, std::forward<A>(a)...); }) {}
  R operator()(A... a) const { return call_(p_, std::forward<A>(a)...); }
 private:
  void* p_;
  R (*call_)(void*, A...);
};
}
#endif
