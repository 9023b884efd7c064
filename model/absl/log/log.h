#include "absl/log/absl_log.h"
