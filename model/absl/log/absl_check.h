#ifndef VF_ABSL_CHECK_H_
#define VF_ABSL_CHECK_H_
#include "vf_check.h"
#include "absl/log/absl_log.h"
#define VF_CHECK(c, txt) if (c) {} else ::absl::VfCheckFail(txt)
namespace absl { struct VfCheckFail { const char* t; explicit VfCheckFail(const char* x) : t(x) {}
  template <class T> VfCheckFail& operator<<(const T&) { return *this; }
  [[noreturn]] ~VfCheckFail() { VF_LIBFAIL("ABSL_CHECK failed"); } }; }
#define ABSL_CHECK(c) VF_CHECK((c), #c)
#define ABSL_CHECK_EQ(a, b) VF_CHECK((a) == (b), #a "==" #b)
#define ABSL_CHECK_NE(a, b) VF_CHECK((a) != (b), #a "!=" #b)
#define ABSL_CHECK_LT(a, b) VF_CHECK((a) < (b), #a "<" #b)
#define ABSL_CHECK_LE(a, b) VF_CHECK((a) <= (b), #a "<=" #b)
#define ABSL_CHECK_GT(a, b) VF_CHECK((a) > (b), #a ">" #b)
#define ABSL_CHECK_GE(a, b) VF_CHECK((a) >= (b), #a ">=" #b)
#define ABSL_CHECK_OK(e) VF_CHECK((e).ok(), #e)
#define ABSL_QCHECK(c) ABSL_CHECK(c)
#define ABSL_QCHECK_OK(e) ABSL_CHECK_OK(e)
#define ABSL_DCHECK(c) ABSL_CHECK(c)
#define ABSL_DCHECK_EQ(a, b) ABSL_CHECK_EQ(a, b)
#define ABSL_DCHECK_NE(a, b) ABSL_CHECK_NE(a, b)
#define ABSL_DCHECK_LT(a, b) ABSL_CHECK_LT(a, b)
#define ABSL_DCHECK_LE(a, b) ABSL_CHECK_LE(a, b)
#define ABSL_DCHECK_GT(a, b) ABSL_CHECK_GT(a, b)
#define ABSL_DCHECK_GE(a, b) ABSL_CHECK_GE(a, b)
#define CHECK(c) ABSL_CHECK(c)
#define CHECK_OK(e) ABSL_CHECK_OK(e)
#define CHECK_EQ(a, b) ABSL_CHECK_EQ(a, b)
#define CHECK_NE(a, b) ABSL_CHECK_NE(a, b)
#define CHECK_LT(a, b) ABSL_CHECK_LT(a, b)
#define CHECK_LE(a, b) ABSL_CHECK_LE(a, b)
#define CHECK_GT(a, b) ABSL_CHECK_GT(a, b)
#define CHECK_GE(a, b) ABSL_CHECK_GE(a, b)
#define DCHECK(c) ABSL_CHECK(c)
#endif
