// Stand-in for the external parallel sorting library (not in this sandbox): same interface, ordinary sort.
#pragma once
#include <algorithm>
namespace ips4o {
template <class It, class C> void sort(It a, It b, C c) { std::sort(a, b, c); }
namespace parallel {
template <class It, class C> void sort(It a, It b, C c) { std::sort(a, b, c); }
}  // namespace parallel
}  // namespace ips4o
