#ifndef VF_MACROS_H_
#define VF_MACROS_H_
#define ABSL_MUST_USE_RESULT
#define ABSL_ATTRIBUTE_LIFETIME_BOUND
#define ABSL_ATTRIBUTE_UNUSED __attribute__((unused))
#endif
