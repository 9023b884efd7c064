#ifndef VF_VLOG_H_
#define VF_VLOG_H_
#define ABSL_VLOG_IS_ON(n) false
#define VLOG_IS_ON(n) false
#endif
