#pragma once
#include "reader.h"
#include "zserio/BitStreamWriter.h"

// all bits of the buffer outside [p, p + n) are as they were (n > 0): the two border bytes, and an arbitrary other byte
inline bool untouchedOutside(const AnyBuffer& b, const char* name, size_t p, size_t n)
{
    const size_t first = p >> 3U;
    const size_t last = (p + n - 1) >> 3U;
    const uint8_t before = static_cast<uint8_t>(~(0xFFU >> (p & 7U)));
    const uint8_t after = static_cast<uint8_t>(0x7FU >> ((p + n - 1) & 7U));
    if (first < b.size && ((b.data[first] ^ vp_byte(name, first)) & before) != 0) return false;
    if (last < b.size && ((b.data[last] ^ vp_byte(name, last)) & after) != 0) return false;
    const size_t j = vp_size("anyByte", 42);
    if (vp_pick("anyByteAfter", 0, 1) != 0) vp_assume(j > last && j < b.size);
    else vp_assume(j < first);
    return b.data[j] == vp_byte(name, j);
}
inline bool untouched(const AnyBuffer& b, const char* name)
{
    const size_t j = vp_size("anyByte", 42);
    return j >= b.size || b.data[j] == vp_byte(name, j);
}
