// Stand-in for the header of xitren's crc library (a dependency that is not in this repository).
#pragma once
#include <algorithm>
#include <array>
#include <cstddef>
#include <cstdint>
#include <iterator>
#include <tuple>

namespace xitren::crc {
template <class T>
concept crc_iterator = std::input_iterator<T>;
}
