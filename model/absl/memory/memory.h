#ifndef VF_MEMORY_H_
#define VF_MEMORY_H_
#include <memory>
namespace absl { template <class T> std::unique_ptr<T> WrapUnique(T* p) { return std::unique_ptr<T>(p); }
template <class T, class... A> std::unique_ptr<T> make_unique(A&&... a) { return std::make_unique<T>(std::forward<A>(a)...); } }
#endif
