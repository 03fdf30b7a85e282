// Announced sizes: for every value of every serialisable type, bitSizeOf == bits the writer advances by from the same
// position == what offset initialisation adds.
#include <array>
#include <utility>
#include <cstring>
#include "writer.h"
#include "zserio/BitBuffer.h"
#include "zserio/Bitmasks.h"
#include "zserio/Bytes.h"
#include "zserio/Enums.h"
#include "zserio/String.h"
#include "zserio/View.h"

enum class VpColor : uint16_t { NONE = 0, RED = 2, BLACK = 700 };
struct VpMask
{
    using ZserioType = zserio::UInt11;
    explicit VpMask(ZserioType v) : m_value(v) {}
    ZserioType getValue() const { return m_value; }
    ZserioType m_value;
};
namespace zserio
{
template <>
struct EnumTraits<VpColor>
{
    using ZserioType = VarUInt16;
};
template <>
inline VarUInt16 enumToValue(VpColor v)
{
    return VarUInt16(static_cast<uint16_t>(v));
}
template <>
struct is_bitmask<VpMask> : std::true_type
{};
} // namespace zserio

namespace
{
constexpr size_t POS = 43; // room for any position
struct Room
{
    uint8_t mem[80];
    BitStreamWriter w;
    size_t p;
    Room() : w(Span<uint8_t>(mem, sizeof(mem))), p(vp_pick("bit offset", 0, 7)) { w.setBitPosition(p); }
    template <typename T>
    size_t written(const T& v)
    {
        zserio::detail::write(w, v);
        return w.getBitPosition() - p;
    }
};
template <typename T, bool OFFSETS = true>
void announced(const T& v, size_t size, size_t p)
{
    vp_assert(zserio::detail::bitSizeOf(v, static_cast<BitSize>(p)) == size, "announced size");
    if constexpr (OFFSETS)
        vp_assert(zserio::detail::initializeOffsets(v, static_cast<BitSize>(p)) == size, "size added by offset initialisation");
}
template <typename T, bool OFFSETS = true>
void agrees(const T& v)
{
    const size_t p = vp_uint("position", POS);
    BitStreamWriter w(Span<uint8_t>(nullptr, static_cast<size_t>(0)));
    w.setBitPosition(p);
    zserio::detail::write(w, v);
    const size_t size = w.getBitPosition() - p;
    announced<T, OFFSETS>(v, size, p);
    Room room;
    vp_assert(room.written(v) == size, "a buffer receives the announced number of bits");
}
template <unsigned N, bool SIGNED>
void fixed(uint64_t x)
{
    using T = zserio::detail::FixedIntWrapper<N, SIGNED>;
    using V = typename T::ValueType;
    const uint64_t low = N == 64 ? x : x & ((UINT64_C(1) << (N % 64)) - 1);
    const T v(static_cast<V>(SIGNED ? static_cast<uint64_t>(vp_sext(low, N)) : low));
    agrees(v);
    vp_assert(zserio::detail::bitSizeOf(v) == N, "fixed integers take their width");
}
template <bool SIGNED, size_t... I>
void fixedAny(unsigned n, uint64_t x, std::index_sequence<I...>)
{
    (void)((n == I + 1 && (fixed<I + 1, SIGNED>(x), true)) || ...);
}
template <typename T>
void var()
{
    using V = typename T::ValueType;
    const T v(static_cast<V>(vp_uint("value", 8 * sizeof(V))));
    const size_t p = vp_uint("position", POS);
    BitStreamWriter w(Span<uint8_t>(nullptr, static_cast<size_t>(0)));
    w.setBitPosition(p);
    size_t size = 0;
    try
    {
        zserio::detail::write(w, v);
        size = w.getBitPosition() - p;
    }
    catch (const CppRuntimeException&)
    {}
    size_t told = 0;
    size_t offsets = 0;
    try
    {
        told = zserio::detail::bitSizeOf(v, static_cast<BitSize>(p));
    }
    catch (const CppRuntimeException&)
    {}
    try
    {
        offsets = zserio::detail::initializeOffsets(v, static_cast<BitSize>(p));
    }
    catch (const CppRuntimeException&)
    {}
    vp_assert(told == size, "announced size (0: value is rejected)");
    vp_assert(offsets == size, "size added by offset initialisation (0: value is rejected)");
    if (size != 0)
    {
        Room room;
        vp_assert(room.written(v) == size, "a buffer receives the announced number of bits");
        vp_cover("writable value");
    }
}
} // namespace

CONTRACT(size_fixed)
{
    const unsigned k = static_cast<unsigned>(vp_deal("width and sign", 0, 127));
    const uint64_t x = vp_u64("value");
    if (k % 2 == 0) fixedAny<false>(k / 2 + 1, x, std::make_index_sequence<64>());
    else fixedAny<true>(k / 2 + 1, x, std::make_index_sequence<64>());
    vp_cover("width");
}

CONTRACT(size_var)
{
    switch (vp_deal("kind", 0, 8))
    {
    case 0: var<VarInt16>(); break;
    case 1: var<VarInt32>(); break;
    case 2: var<VarInt64>(); break;
    case 3: var<VarInt>(); break;
    case 4: var<VarUInt16>(); break;
    case 5: var<VarUInt32>(); break;
    case 6: var<VarUInt64>(); break;
    case 7: var<VarUInt>(); break;
    default: var<VarSize>(); break;
    }
    vp_cover("kind");
}

CONTRACT(size_others)
{
    switch (vp_deal("kind", 0, 6))
    {
    case 0: agrees(Bool(vp_pick("value", 0, 1) != 0)); break;
    case 1:
    {
        float f = 0;
        const uint32_t bits = vp_u32("float");
        memcpy(&f, &bits, 4);
        if (vp_pick("16 bits", 0, 1) != 0) agrees(Float16(f));
        else agrees(Float32(f));
        break;
    }
    case 2:
    {
        double d = 0;
        const uint64_t bits = vp_u64("double");
        memcpy(&d, &bits, 8);
        agrees(Float64(d));
        break;
    }
    case 3:
    {
        const uint16_t v = static_cast<uint16_t>(vp_uint("value", 15));
        agrees<VpColor, false>(static_cast<VpColor>(v));
        break;
    }
    case 4: agrees<VpMask, false>(VpMask(UInt11(static_cast<uint16_t>(vp_uint("value", 11))))); break;
    case 5:
    {
        const unsigned n = static_cast<unsigned>(vp_pick("width", 1, 64));
        const uint64_t x = vp_uint("value", n);
        if (n <= 32) agrees<View<DynUInt32>, false>(View<DynUInt32>(DynUInt32(static_cast<uint32_t>(x)), static_cast<uint8_t>(n)));
        agrees<View<DynUInt64>, false>(View<DynUInt64>(DynUInt64(x), static_cast<uint8_t>(n)));
        break;
    }
    default:
    {
        const unsigned n = static_cast<unsigned>(vp_pick("width", 1, 64));
        const int64_t x = vp_sext(vp_uint("value", n), n);
        if (n <= 16) agrees<View<DynInt16>, false>(View<DynInt16>(DynInt16(static_cast<int16_t>(x)), static_cast<uint8_t>(n)));
        agrees<View<DynInt64>, false>(View<DynInt64>(DynInt64(x), static_cast<uint8_t>(n)));
        break;
    }
    }
    vp_cover("kind");
}

constexpr size_t FITTING = 536870907; // lengths from here on need 2^32 bits or more together with their 5-byte size
// bytes, strings and bit buffers of any length whose bit count fits BitSize, at any aligned position
CONTRACT(size_bytes)
{
    const unsigned kind = static_cast<unsigned>(vp_pick("kind", 0, 2));
    const unsigned rest = kind == 2 ? static_cast<unsigned>(vp_pick("rest", 0, 7)) : 0;
    const size_t n = vp_size("length", kind == 2 ? 28 : 29);
    vp_assume(n < FITTING);
    const size_t size = n + (rest != 0 ? 1 : 0);
    uint8_t* data = vp_buffer("data", size);
    const size_t q = vp_size("qByte", 40) * 8;
    BitStreamWriter w(Span<uint8_t>(nullptr, static_cast<size_t>(0)));
    w.setBitPosition(q);
    const BitSize p = static_cast<BitSize>(q);
    size_t told = 0;
    size_t offsets = 0;
    if (kind == 0)
    {
        const BytesView v(data, n);
        told = zserio::detail::bitSizeOf(v, p);
        offsets = zserio::detail::initializeOffsets(v, p);
        zserio::detail::write(w, v);
    }
    else if (kind == 1)
    {
        const std::string_view v(reinterpret_cast<const char*>(data), n);
        told = zserio::detail::bitSizeOf(v, p);
        offsets = zserio::detail::initializeOffsets(v, p);
        zserio::detail::write(w, v);
    }
    else
    {
        const BitBuffer b(Span<const uint8_t>(data, size), n * 8 + rest);
        const BitBufferView v(b);
        told = zserio::detail::bitSizeOf(v, p);
        offsets = zserio::detail::initializeOffsets(v, p);
        zserio::detail::write(w, v);
    }
    const size_t written = w.getBitPosition() - q;
    vp_assert(told == written, "announced size");
    vp_assert(offsets == written, "size added by offset initialisation");
    vp_cover("announced");
}

// the same at positions that are not aligned, short lengths
CONTRACT(size_bytes_unaligned)
{
    vp_bound("lengths up to 40 bytes at unaligned positions");
    const unsigned kn = static_cast<unsigned>(vp_deal("kind and offset", 0, 20));
    const unsigned kind = kn / 7;
    const unsigned off = kn % 7 + 1;
    const unsigned rest = kind == 2 ? static_cast<unsigned>(vp_pick("rest", 0, 7)) : 0;
    const size_t n = vp_pick("length", 0, 40);
    const size_t size = n + (rest != 0 ? 1 : 0);
    uint8_t* data = vp_buffer("data", size);
    const size_t q = vp_size("qByte", 40) * 8 + off;
    BitStreamWriter w(Span<uint8_t>(nullptr, static_cast<size_t>(0)));
    w.setBitPosition(q);
    const BitSize p = static_cast<BitSize>(q);
    size_t told = 0;
    size_t offsets = 0;
    if (kind == 0)
    {
        const BytesView v(data, n);
        told = zserio::detail::bitSizeOf(v, p);
        offsets = zserio::detail::initializeOffsets(v, p);
        zserio::detail::write(w, v);
    }
    else if (kind == 1)
    {
        const std::string_view v(reinterpret_cast<const char*>(data), n);
        told = zserio::detail::bitSizeOf(v, p);
        offsets = zserio::detail::initializeOffsets(v, p);
        zserio::detail::write(w, v);
    }
    else
    {
        const BitBuffer b(Span<const uint8_t>(data, size), n * 8 + rest);
        const BitBufferView v(b);
        told = zserio::detail::bitSizeOf(v, p);
        offsets = zserio::detail::initializeOffsets(v, p);
        zserio::detail::write(w, v);
    }
    const size_t written = w.getBitPosition() - q;
    vp_assert(told == written, "announced size");
    vp_assert(offsets == written, "size added by offset initialisation");
    vp_cover("announced");
}

// lengths whose bit count does not fit the 32-bit announced size
CONTRACT(size_huge_bytes)
{
    const size_t n = FITTING + vp_size("more", 30);
    vp_cover("huge");
    uint8_t* data = vp_buffer("data", n);
    BitStreamWriter w(Span<uint8_t>(nullptr, static_cast<size_t>(0)));
    if (vp_pick("string", 0, 1) == 0)
    {
        const BytesView v(data, n);
        zserio::detail::write(w, v);
        vp_assert(zserio::detail::bitSizeOf(v, 0) == w.getBitPosition(), "announced size of bytes");
    }
    else
    {
        const std::string_view v(reinterpret_cast<const char*>(data), n);
        zserio::detail::write(w, v);
        vp_assert(zserio::detail::bitSizeOf(v, 0) == w.getBitPosition(), "announced size of a string");
    }
}
