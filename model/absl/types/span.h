// Verification model of absl::Span (pointer + length, same observable behaviour).
#ifndef VF_ABSL_SPAN_H_
#define VF_ABSL_SPAN_H_
#include <cstddef>
#include <initializer_list>
#include <iterator>
#include <type_traits>
#include <utility>
#include "vf_check.h"
namespace absl {
template <class T>
class Span {
  template <class C>
  using DataT = decltype(std::declval<C&>().data());
  template <class C>
  static constexpr bool kOk = std::is_convertible_v<
      std::remove_pointer_t<DataT<C>> (*)[], T (*)[]>;

 public:
  using element_type = T; using value_type = std::remove_cv_t<T>; using pointer = T*; using const_pointer = const T*;
  using reference = T&; using const_reference = const T&; using iterator = T*; using const_iterator = const T*;
  using reverse_iterator = std::reverse_iterator<iterator>; using const_reverse_iterator = std::reverse_iterator<const_iterator>;
  using size_type = size_t; using difference_type = ptrdiff_t;
  static constexpr size_t npos = ~size_t(0);
  constexpr Span() noexcept : p_(nullptr), n_(0) {}
  constexpr Span(T* p, size_t n) noexcept : p_(p), n_(n) {}
  template <size_t N> constexpr Span(T (&a)[N]) noexcept : p_(a), n_(N) {}
  template <class C, class = std::enable_if_t<!std::is_same_v<std::decay_t<C>, Span> && kOk<std::remove_reference_t<C>>>>
  constexpr Span(C&& c) noexcept : p_(c.data()), n_(c.size()) {}
  template <class L = T, class = std::enable_if_t<std::is_const_v<L>>>
  constexpr Span(std::initializer_list<value_type> v) noexcept : p_(v.begin()), n_(v.size()) {}
  constexpr T* data() const { return p_; }
  constexpr size_t size() const { return n_; }
  constexpr size_t length() const { return n_; }
  constexpr bool empty() const { return n_ == 0; }
  constexpr T& operator[](size_t i) const { VF_LIBCHECK(i < n_, "Span index out of bounds"); return p_[i]; }
  constexpr T& at(size_t i) const { VF_LIBCHECK(i < n_, "Span::at out of range"); return p_[i]; }
  constexpr T& front() const { VF_LIBCHECK(n_ > 0, "Span::front on empty"); return p_[0]; }
  constexpr T& back() const { VF_LIBCHECK(n_ > 0, "Span::back on empty"); return p_[n_ - 1]; }
  constexpr iterator begin() const { return p_; }
  constexpr iterator end() const { return p_ + n_; }
  constexpr const_iterator cbegin() const { return p_; }
  constexpr const_iterator cend() const { return p_ + n_; }
  constexpr reverse_iterator rbegin() const { return reverse_iterator(end()); }
  constexpr reverse_iterator rend() const { return reverse_iterator(begin()); }
  void remove_prefix(size_t n) { VF_LIBCHECK(n <= n_, "Span::remove_prefix"); p_ += n; n_ -= n; }
  void remove_suffix(size_t n) { VF_LIBCHECK(n <= n_, "Span::remove_suffix"); n_ -= n; }
  constexpr Span subspan(size_t pos = 0, size_t len = npos) const {
    VF_LIBCHECK(pos <= n_, "Span::subspan position out of range");
    return Span(p_ + pos, len < n_ - pos ? len : n_ - pos);
  }
  constexpr Span first(size_t l) const { VF_LIBCHECK(l <= n_, "Span::first"); return Span(p_, l); }
  constexpr Span last(size_t l) const { VF_LIBCHECK(l <= n_, "Span::last"); return Span(p_ + n_ - l, l); }

 private:
  T* p_;
  size_t n_;
};
template <class T> constexpr Span<T> MakeSpan(T* p, size_t n) { return Span<T>(p, n); }
template <class T> constexpr Span<T> MakeSpan(T* b, T* e) { return Span<T>(b, e - b); }
template <class T, size_t N> constexpr Span<T> MakeSpan(T (&a)[N]) { return Span<T>(a, N); }
template <class C> constexpr auto MakeSpan(C& c) -> Span<std::remove_pointer_t<decltype(c.data())>> {
  return Span<std::remove_pointer_t<decltype(c.data())>>(c.data(), c.size());
}
template <class T> constexpr Span<const T> MakeConstSpan(T* p, size_t n) { return Span<const T>(p, n); }
template <class T> constexpr Span<const T> MakeConstSpan(T* b, T* e) { return Span<const T>(b, e - b); }
template <class T, size_t N> constexpr Span<const T> MakeConstSpan(const T (&a)[N]) { return Span<const T>(a, N); }
template <class C> constexpr auto MakeConstSpan(const C& c) -> Span<const std::remove_pointer_t<decltype(c.data())>> {
  return Span<const std::remove_pointer_t<decltype(c.data())>>(c.data(), c.size());
}
template <class T> constexpr bool VfSpanEq(Span<const T> a, Span<const T> b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i) if (!(a[i] == b[i])) return false;
  return true;
}
template <class T> bool operator==(Span<T> a, Span<T> b) { return VfSpanEq<std::remove_const_t<T>>(a, b); }
template <class T, class = std::enable_if_t<!std::is_const_v<T>>> bool operator==(Span<T> a, Span<const T> b) { return VfSpanEq<T>(a, b); }
template <class T, class = std::enable_if_t<!std::is_const_v<T>>> bool operator==(Span<const T> a, Span<T> b) { return VfSpanEq<T>(a, b); }
template <class T, class C, class = std::enable_if_t<!std::is_same_v<std::decay_t<C>, Span<T>> && std::is_convertible_v<const C&, Span<const std::remove_const_t<T>>> && !std::is_convertible_v<C, Span<const std::remove_const_t<T>>> >, class = void>
bool operator==(Span<T> a, const C& b) { return VfSpanEq<std::remove_const_t<T>>(a, b); }
}  // namespace absl
#endif
