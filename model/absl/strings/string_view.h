#ifndef VF_ABSL_STRING_VIEW_H_
#define VF_ABSL_STRING_VIEW_H_
#include <string_view>
namespace absl { using string_view = std::string_view; }
#endif
