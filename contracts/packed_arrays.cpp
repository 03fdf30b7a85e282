// Packed arrays, part 2: whole arrays through the public array functions.
#include <array>
#include <cstring>
#include <vector>
#include "writer.h"
#include "zserio/ArrayView.h"
#include "zserio/Vector.h"
#include "packed_types.h"
using zserio::detail::ArrayType;
namespace
{
template <typename T, ArrayType MODE>
void roundTrip(size_t n, size_t off)
{
    Vector<T> data;
    data.reserve(n);
    size_t unpacked = 0;
    for (size_t i = 0; i < n; i++)
    {
        if (i == 0) data.push_back(any<T>("element"));
        else data.push_back(near<T>("element", data[i - 1], static_cast<uint8_t>(Unsigned<T>::BITS)));
        unpacked += zserio::detail::bitSizeOf(data[i]);
    }
    const ArrayView<const T> view((Span<const T>(data)));
    const size_t size = zserio::detail::bitSizeOfPacked<MODE>(view, static_cast<BitSize>(off));
    const size_t size2 = zserio::detail::initializeOffsetsPacked<MODE>(view, static_cast<BitSize>(off));
    vp_assert(size == size2, "offset initialisation adds the announced size");
    std::array<uint8_t, 64> mem{};
    BitStreamWriter w(Span<uint8_t>(mem.data(), mem.size()));
    w.setBitPosition(off);
    zserio::detail::writePacked<MODE>(w, view);
    vp_assert(w.getBitPosition() == off + size, "announced size is written");
    BitStreamReader r(mem.data(), mem.size());
    r.setBitPosition(off);
    Vector<T> back;
    zserio::detail::readPacked<MODE>(r, back, n);
    vp_assert(r.getBitPosition() == off + size, "announced size is read");
    vp_assert(back.size() == n, "same length");
    for (size_t i = 0; i < n; i++) vp_assert(same(back[i], data[i]), "same element");
    if (MODE == ArrayType::NORMAL && n > 0) vp_assert(size <= unpacked + 1, "never bigger than unpacked and the marker");
    if (MODE == ArrayType::NORMAL && n == 0) vp_assert(size == 0, "an empty array needs nothing");
    vp_cover("round trip");
}
template <typename T>
void anyMode(size_t n, uint64_t mode)
{
    switch (mode)
    {
    case 0: roundTrip<T, ArrayType::NORMAL>(n, 0); break;
    case 1: roundTrip<T, ArrayType::AUTO>(n, 5); break;
    case 2: roundTrip<T, ArrayType::ALIGNED>(n, 3); break;
    default: roundTrip<T, ArrayType::ALIGNED_AUTO>(n, 6); break;
    }
}
using SmallTypes = Types<zserio::Bool, zserio::UInt1, zserio::Int5, zserio::Int8, zserio::UInt8, VpColor>;
constexpr unsigned SMALL = countTypes(SmallTypes());
using WideTypes = Types<VpMask, zserio::Int16, zserio::VarUInt16, zserio::UInt32, zserio::Int32, zserio::Int64, zserio::UInt64, zserio::VarUInt, zserio::VarSize>;
constexpr unsigned WIDE = countTypes(WideTypes());
using SlowTypes = Types<zserio::VarInt32, zserio::VarInt64, zserio::VarInt>; // signed, the size depends on the value
} // namespace

CONTRACT(packed_small)
{
    vp_bound("arrays of up to 3 elements (any length: delta_* contracts)");
    const uint64_t k = vp_deal("type and length", 0, SMALL * 4 - 1);
    onTypeOf(SmallTypes(), k / 4, [k](auto t) { anyMode<typename decltype(t)::Type>(k % 4, vp_pick("mode", 0, 3)); });
    vp_cover("array");
}
CONTRACT(packed_wide)
{
    vp_bound("arrays of up to 2 elements (any length: delta_* contracts)");
    const uint64_t k = vp_deal("type and length", 0, WIDE * 3 - 1);
    onTypeOf(WideTypes(), k / 3, [k](auto t) {
#ifdef VP_THOROUGH
        const uint64_t mode = vp_pick("mode", 0, 3);
#else
        const uint64_t mode = k / 3 % 4; // the modes differ in the alignment of elements only (P12 and packed_small)
#endif
        anyMode<typename decltype(t)::Type>(k % 3, mode);
    });
    vp_cover("array");
}
CONTRACT(packed_wide3)
{
    vp_bound("arrays of 3 elements (any length: delta_* contracts)");
    const uint64_t k = vp_deal("type", 0, WIDE - 1);
    onTypeOf(WideTypes(), k, [](auto t) { roundTrip<typename decltype(t)::Type, ArrayType::AUTO>(3, 5); });
    vp_cover("array");
}
CONTRACT(packed_signed_varint)
{
    vp_bound("arrays of up to 2 elements (any length: delta_* contracts)");
    const uint64_t k = vp_deal("type and length", 0, countTypes(SlowTypes()) * 3 - 1);
    onTypeOf(SlowTypes(), k / 3, [k](auto t) { anyMode<typename decltype(t)::Type>(k % 3, 1); });
    vp_cover("array");
}
