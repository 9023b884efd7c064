#ifndef VF_STR_JOIN_H_
#define VF_STR_JOIN_H_
#include <string>
#include "absl/strings/string_view.h"
namespace absl { template <class C, class... A> std::string StrJoin(const C&, std::string_view, A&&...) { return std::string(); } }
#endif
