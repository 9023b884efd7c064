// Logging has no effect on any property: operands are not evaluated for text.
#ifndef VF_ABSL_LOG_H_
#define VF_ABSL_LOG_H_
#include "vf_check.h"
namespace absl { struct VfNullLog { template <class T> VfNullLog& operator<<(const T&) { return *this; }
  VfNullLog& operator<<(std::ostream& (*)(std::ostream&)) { return *this; } };
struct VfFatalLog { template <class T> VfFatalLog& operator<<(const T&) { return *this; }
  [[noreturn]] ~VfFatalLog() { VF_LIBFAIL("ABSL_LOG(FATAL)"); } };
struct VfVoid { template <class T> void operator&(T&&) {} }; }
#define VF_LOG_INFO while (false) ::absl::VfNullLog()
#define VF_LOG_WARNING while (false) ::absl::VfNullLog()
#define VF_LOG_ERROR while (false) ::absl::VfNullLog()
#define VF_LOG_FATAL ::absl::VfFatalLog()
#define VF_LOG_QFATAL ::absl::VfFatalLog()
#define VF_LOG_DFATAL while (false) ::absl::VfNullLog()
#define ABSL_LOG(s) VF_LOG_##s
#define ABSL_LOG_IF(s, c) while (false && (c)) ::absl::VfNullLog()
#define ABSL_LOG_FIRST_N(s, n) while (false) ::absl::VfNullLog()
#define ABSL_LOG_EVERY_N(s, n) while (false) ::absl::VfNullLog()
#define ABSL_LOG_EVERY_POW_2(s) while (false) ::absl::VfNullLog()
#define ABSL_DLOG(s) while (false) ::absl::VfNullLog()
#define ABSL_VLOG(n) while (false) ::absl::VfNullLog()
#define LOG(s) VF_LOG_##s
#define VLOG(n) while (false) ::absl::VfNullLog()
#endif
