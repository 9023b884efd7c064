// Verification model of absl::Status: the code is kept, the message text is
// dropped (messages are outside every property checked here).
#ifndef VF_ABSL_STATUS_H_
#define VF_ABSL_STATUS_H_
#include <ostream>
#include <string>
#include <string_view>
#include "absl/strings/string_view.h"
#include "absl/strings/str_cat.h"
#include "vf_check.h"
namespace absl {
enum class StatusCode : int {
  kOk = 0, kCancelled = 1, kUnknown = 2, kInvalidArgument = 3, kDeadlineExceeded = 4,
  kNotFound = 5, kAlreadyExists = 6, kPermissionDenied = 7, kResourceExhausted = 8,
  kFailedPrecondition = 9, kAborted = 10, kOutOfRange = 11, kUnimplemented = 12,
  kInternal = 13, kUnavailable = 14, kDataLoss = 15, kUnauthenticated = 16,
};
enum class StatusToStringMode : int { kDefault = 0, kWithEverything = 1 };
class [[nodiscard]] Status final {
 public:
  Status() : code_(0) {}
  Status(StatusCode c, std::string_view) : code_(static_cast<int>(c)) {
    if (vf_must_succeed && c != StatusCode::kOk) vf_unexpected_error();
  }
  bool ok() const { return code_ == 0; }
  StatusCode code() const { return static_cast<StatusCode>(code_); }
  int raw_code() const { return code_; }
  std::string_view message() const { return std::string_view("", 0); }
  std::string ToString(StatusToStringMode = StatusToStringMode::kDefault) const { return std::string(); }
  void Update(const Status& o) { if (ok()) *this = o; }
  void IgnoreError() const {}
  friend bool operator==(const Status& a, const Status& b) { return a.code_ == b.code_; }
  friend bool operator!=(const Status& a, const Status& b) { return a.code_ != b.code_; }
  friend void swap(Status& a, Status& b) { int t = a.code_; a.code_ = b.code_; b.code_ = t; }

 private:
  int code_;
};
inline std::ostream& operator<<(std::ostream& o, const Status&) { return o; }
inline std::ostream& operator<<(std::ostream& o, StatusCode) { return o; }
inline Status OkStatus() { return Status(); }
#define VF_ERR(N)                                                                          \
  inline Status N##Error(std::string_view m) { return Status(StatusCode::k##N, m); }       \
  inline bool Is##N(const Status& s) { return s.code() == StatusCode::k##N; }
VF_ERR(Cancelled) VF_ERR(Unknown) VF_ERR(InvalidArgument) VF_ERR(DeadlineExceeded)
VF_ERR(NotFound) VF_ERR(AlreadyExists) VF_ERR(PermissionDenied) VF_ERR(ResourceExhausted)
VF_ERR(FailedPrecondition) VF_ERR(Aborted) VF_ERR(OutOfRange) VF_ERR(Unimplemented)
VF_ERR(Internal) VF_ERR(Unavailable) VF_ERR(DataLoss) VF_ERR(Unauthenticated)
#undef VF_ERR
inline Status ErrnoToStatus(int, std::string_view m) { return Status(StatusCode::kUnknown, m); }
inline std::string StatusCodeToString(StatusCode) { return std::string(); }
}  // namespace absl
#endif
