// Stand-in for the header of xitren's crc library: CRC-16/MODBUS.
#pragma once
#include <xitren/crc_concept.hpp>

namespace xitren::crc {
struct crc16 {
    template <crc_iterator It>
    static constexpr std::uint16_t calculate(It begin, It end) noexcept
    {
        std::uint16_t crc = 0xFFFF;
        for (; begin != end; ++begin) {
            crc = std::uint16_t(crc ^ *begin);
            for (int i = 0; i < 8; i++) crc = std::uint16_t(crc & 1 ? (crc >> 1) ^ 0xA001 : crc >> 1);
        }
        return crc;
    }
    template <std::size_t Size>
    static constexpr std::uint16_t calculate(std::array<std::uint8_t, Size> const& data) noexcept
    {
        return calculate(data.begin(), data.end());
    }
};
}
