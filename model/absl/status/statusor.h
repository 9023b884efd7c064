// Verification model of absl::StatusOr.
#ifndef VF_ABSL_STATUSOR_H_
#define VF_ABSL_STATUSOR_H_
#include <optional>
#include <type_traits>
#include <utility>
#include "absl/status/status.h"
#include "vf_check.h"
namespace absl {
template <class T>
class [[nodiscard]] StatusOr {
 public:
  using value_type = T;
  StatusOr() : status_(StatusCode::kUnknown, "") {}
  StatusOr(const StatusOr&) = default;
  StatusOr(StatusOr&&) = default;
  StatusOr& operator=(const StatusOr&) = default;
  StatusOr& operator=(StatusOr&&) = default;
  template <class U, class = std::enable_if_t<std::is_constructible_v<Status, U&&> &&
                                              std::is_same_v<std::decay_t<U>, Status>>, class = void>
  StatusOr(U&& s) : status_(std::forward<U>(s)) { VF_LIBCHECK(!status_.ok(), "StatusOr built from OkStatus"); }
  template <class U = T, class = std::enable_if_t<std::is_constructible_v<T, U&&> &&
                                                  !std::is_same_v<std::decay_t<U>, Status> &&
                                                  !std::is_same_v<std::decay_t<U>, StatusOr>>>
  StatusOr(U&& v) : value_(std::forward<U>(v)) {}
  template <class U, class = std::enable_if_t<!std::is_same_v<U, T> && std::is_constructible_v<T, const U&>>, class = void, class = void>
  StatusOr(const StatusOr<U>& o) : status_(o.status()) { if (o.ok()) value_.emplace(*o); }
  template <class U, class = std::enable_if_t<!std::is_same_v<U, T> && std::is_constructible_v<T, U&&>>, class = void, class = void>
  StatusOr(StatusOr<U>&& o) : status_(o.status()) { if (o.ok()) value_.emplace(*std::move(o)); }
  template <class... A>
  explicit StatusOr(std::in_place_t, A&&... a) : value_(std::in_place, std::forward<A>(a)...) {}
  bool ok() const { return status_.ok(); }
  const Status& status() const& { return status_; }
  Status status() && { return status_; }
  T& value() & { Need(); return *value_; }
  const T& value() const& { Need(); return *value_; }
  T&& value() && { Need(); return *std::move(value_); }
  T& operator*() & { Need(); return *value_; }
  const T& operator*() const& { Need(); return *value_; }
  T&& operator*() && { Need(); return *std::move(value_); }
  T* operator->() { Need(); return &*value_; }
  const T* operator->() const { Need(); return &*value_; }
  template <class U> T value_or(U&& u) const& { return ok() ? *value_ : static_cast<T>(std::forward<U>(u)); }
  template <class U> T value_or(U&& u) && { return ok() ? *std::move(value_) : static_cast<T>(std::forward<U>(u)); }
  template <class... A> T& emplace(A&&... a) { status_ = Status(); return value_.emplace(std::forward<A>(a)...); }
  void IgnoreError() const {}

 private:
  void Need() const { VF_LIBCHECK(status_.ok(), "StatusOr value read while holding an error"); }
  Status status_;
  std::optional<T> value_;
};
}  // namespace absl
#endif
