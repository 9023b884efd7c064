// Verification model of absl::AnyInvocable: heap-allocated type erasure.
#ifndef VF_ANY_INVOCABLE_H_
#define VF_ANY_INVOCABLE_H_
#include <cstddef>
#include <functional>
#include <type_traits>
#include <utility>
#include "vf_check.h"
namespace absl {
namespace vf_ai {
template <class R, class... A>
class Base {
 public:
  Base() = default;
  Base(std::nullptr_t) {}
  Base(Base&& o) noexcept : p_(o.p_), call_(o.call_), del_(o.del_) { o.p_ = nullptr; o.call_ = nullptr; o.del_ = nullptr; }
  Base& operator=(Base&& o) noexcept {
    if (this != &o) { Reset(); p_ = o.p_; call_ = o.call_; del_ = o.del_; o.p_ = nullptr; o.call_ = nullptr; o.del_ = nullptr; }
    return *this;
  }
  ~Base() { Reset(); }
  explicit operator bool() const { return call_ != nullptr; }
  friend bool operator==(const Base& b, std::nullptr_t) { return b.call_ == nullptr; }
  friend bool operator!=(const Base& b, std::nullptr_t) { return b.call_ != nullptr; }

 protected:
  template <class F> void Set(F&& f) {
    using D = std::decay_t<F>;
    p_ = new D(std::forward<F>(f));
    call_ = [](void* p, A... a) -> R { if constexpr (std::is_void_v<R>) std::invoke(*(D*)p, std::forward<A>(a)...); else return std::invoke(*(D*)p, std::forward<A>(a)...); };
    del_ = [](void* p) { delete (D*)p; };
  }
  R Call(A... a) const { VF_LIBCHECK(call_ != nullptr, "empty AnyInvocable called"); return call_(p_, std::forward<A>(a)...); }
  void Reset() { if (del_) del_(p_); p_ = nullptr; call_ = nullptr; del_ = nullptr; }
  void* p_ = nullptr;
  R (*call_)(void*, A...) = nullptr;
  void (*del_)(void*) = nullptr;
};
}
template <class S> class AnyInvocable;
#define VF_AI(CV)                                                                                          \
  template <class R, class... A>                                                                           \
  class AnyInvocable<R(A...) CV> : public vf_ai::Base<R, A...> {                                           \
   public:                                                                                                 \
    AnyInvocable() = default;                                                                              \
    AnyInvocable(std::nullptr_t) {}                                                                        \
    AnyInvocable(AnyInvocable&&) = default;                                                                \
    AnyInvocable& operator=(AnyInvocable&&) = default;                                                     \
    template <class F, class = std::enable_if_t<!std::is_same_v<std::decay_t<F>, AnyInvocable> &&          \
                                                std::is_invocable_r_v<R, std::decay_t<F>&, A...>>>         \
    AnyInvocable(F&& f) {                                                                                  \
      if constexpr (std::is_pointer_v<std::decay_t<F>>) { if (f != nullptr) this->Set(std::forward<F>(f)); } \
      else this->Set(std::forward<F>(f));                                                                  \
    }                                                                                                      \
    R operator()(A... a) CV { return this->Call(std::forward<A>(a)...); }                                  \
  };
VF_AI() VF_AI(const)
#undef VF_AI
}
#endif
