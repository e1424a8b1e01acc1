// stand-in with the interface of ankerl::svector, which is not installed here
#pragma once
#include <cstddef>
#include <vector>
namespace ankerl {
template<typename T, std::size_t N>
struct svector : std::vector<T> {
	using std::vector<T>::vector;
};
} // namespace ankerl
