#ifndef VF_OVERLOAD_H_
#define VF_OVERLOAD_H_
namespace absl { template <class... T> struct Overload : T... { using T::operator()...; };
template <class... T> Overload(T...) -> Overload<T...>; }
#endif
