// Library-contract checks used by the model headers (precondition of the
// modelled library call = obligation on the caller in /repo).
#ifndef VF_CHECK_H_
#define VF_CHECK_H_
#include <ostream>
#ifdef VF_NATIVE
extern "C" [[noreturn]] void vf_native_fail(const char* msg);
#define VF_LIBFAIL(m) vf_native_fail("SAFETY: " m)
#else
extern "C" [[noreturn]] void vf_lib_fail(const char* msg);
#define VF_LIBFAIL(m) vf_lib_fail(m)
#endif
#define VF_LIBCHECK(c, m) do { if (!(c)) VF_LIBFAIL(m); } while (0)
// While set, constructing an error Status is a violation ("legal input is
// accepted") and ends the path.
inline bool vf_must_succeed = false;
extern "C" [[noreturn]] void vf_unexpected_error();
#endif
