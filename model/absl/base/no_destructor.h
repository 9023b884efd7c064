#ifndef VF_NO_DESTRUCTOR_H_
#define VF_NO_DESTRUCTOR_H_
#include <new>
#include <utility>
namespace absl {
template <class T>
class NoDestructor {
 public:
  template <class... A, class = std::enable_if_t<!(sizeof...(A) == 1 && (std::is_same_v<std::decay_t<A>, NoDestructor> || ...))>>
  explicit constexpr NoDestructor(A&&... a) { new (&buf_) T(std::forward<A>(a)...); }
  explicit constexpr NoDestructor(const T& x) { new (&buf_) T(x); }
  explicit constexpr NoDestructor(T&& x) { new (&buf_) T(std::move(x)); }
  NoDestructor(const NoDestructor&) = delete;
  T& operator*() { return *get(); }
  const T& operator*() const { return *get(); }
  T* operator->() { return get(); }
  const T* operator->() const { return get(); }
  T* get() { return reinterpret_cast<T*>(&buf_); }
  const T* get() const { return reinterpret_cast<const T*>(&buf_); }
 private:
  alignas(T) unsigned char buf_[sizeof(T)];
};
template <class T> NoDestructor(T) -> NoDestructor<T>;
}
#endif
