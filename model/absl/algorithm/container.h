#ifndef VF_ALGO_CONTAINER_H_
#define VF_ALGO_CONTAINER_H_
#include <algorithm>
#include <iterator>
#include <numeric>
#include <utility>
namespace absl {
#define VF_C1(N) template <class C, class... A> auto c_##N(C&& c, A&&... a) { return std::N(std::begin(c), std::end(c), std::forward<A>(a)...); }
VF_C1(all_of) VF_C1(any_of) VF_C1(none_of) VF_C1(for_each) VF_C1(find) VF_C1(find_if) VF_C1(find_if_not) VF_C1(count) VF_C1(count_if)
VF_C1(sort) VF_C1(stable_sort) VF_C1(fill) VF_C1(copy) VF_C1(transform) VF_C1(reverse) VF_C1(min_element) VF_C1(max_element) VF_C1(accumulate) VF_C1(is_sorted) VF_C1(copy_if)
VF_C1(binary_search) VF_C1(lower_bound) VF_C1(upper_bound)
#undef VF_C1
template <class C, class T> bool c_linear_search(const C& c, T&& v) { return std::find(std::begin(c), std::end(c), v) != std::end(c); }
template <class C, class D> bool c_equal(const C& c, const D& d) { return std::equal(std::begin(c), std::end(c), std::begin(d), std::end(d)); }
}
#endif
