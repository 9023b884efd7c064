#include "absl/strings/str_cat.h"
#include "absl/strings/str_join.h"
