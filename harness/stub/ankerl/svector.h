// Stand-in for ankerl::svector (not installed here) so that flex_array's sbo_dynamic_size mode can be built and driven.
#pragma once
#include <vector>
namespace ankerl {
template<typename T, std::size_t N>
struct svector : std::vector<T> {
    using std::vector<T>::vector;
};
} // namespace ankerl
