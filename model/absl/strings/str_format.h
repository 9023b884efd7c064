#ifndef VF_STR_FORMAT_H_
#define VF_STR_FORMAT_H_
#include <string>
#include "absl/strings/string_view.h"
namespace absl {
template <class... A> std::string StrFormat(std::string_view, const A&...) { return std::string(); }
template <class... A> void StrAppendFormat(std::string*, std::string_view, const A&...) {}
template <class S, class... A> bool Format(S&&, std::string_view, const A&...) { return true; }
template <char... C> using ParsedFormat = std::string_view;
}
#endif
