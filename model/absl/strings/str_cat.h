// Verification model: StrCat is only used for diagnostics; the text is dropped.
#ifndef VF_ABSL_STR_CAT_H_
#define VF_ABSL_STR_CAT_H_
#include <string>
#include "absl/strings/string_view.h"
namespace absl {
enum PadSpec { kNoPad = 1, kZeroPad2, kZeroPad3, kZeroPad4, kZeroPad8, kZeroPad16 };
struct Hex { template <class T> explicit Hex(T, PadSpec = kNoPad) {} };
struct AlphaNum {};
template <class... A> inline std::string StrCat(const A&...) { return std::string(); }
template <class... A> inline void StrAppend(std::string*, const A&...) {}
}  // namespace absl
#endif
