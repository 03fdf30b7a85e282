// element types of arrays, arbitrary elements
#pragma once
#include <array>
#include <cstring>
#include <vector>
#include "writer.h"
#include "zserio/ArrayView.h"
#include "zserio/BitBuffer.h"
#include "zserio/Bytes.h"
#include "zserio/String.h"
#include "zserio/Vector.h"
#include "packed_types.h"
using zserio::detail::ArrayType;
using zserio::detail::DummyArrayOwner;
// ---- an object as the generator makes it: its size depends on its value and on its position
struct VpObject
{
    UInt5 a;
    VarUInt16 b;
};
namespace zserio
{
template <>
class View<VpObject>
{
public:
    explicit View(const VpObject& data) : m_data(data) {}
    UInt5 a() const { return m_data.a; }
    VarUInt16 b() const { return m_data.b; }
    bool operator==(const View& o) const { return a() == o.a() && b() == o.b(); }
    bool operator!=(const View& o) const { return !(*this == o); }
    bool operator<(const View& o) const { return a() < o.a() || (a() == o.a() && b() < o.b()); }

private:
    const VpObject& m_data;
};
namespace detail
{
template <>
struct ObjectTraits<VpObject>
{
    static void validate(const View<VpObject>& view, std::string_view)
    {
        detail::validate(view.a(), "a");
        detail::validate(view.b(), "b");
    }
    static BitSize bitSizeOf(const View<VpObject>& view, BitSize bitPosition)
    {
        BitSize end = bitPosition;
        end += detail::bitSizeOf(view.a(), end);
        end = alignTo(4, end);
        end += detail::bitSizeOf(view.b(), end);
        return end - bitPosition;
    }
    static BitSize initializeOffsets(const View<VpObject>& view, BitSize bitPosition) { return bitSizeOf(view, bitPosition); }
    static void write(BitStreamWriter& writer, const View<VpObject>& view)
    {
        detail::write(writer, view.a());
        writer.alignTo(4);
        detail::write(writer, view.b());
    }
    static View<VpObject> read(BitStreamReader& reader, VpObject& data)
    {
        View<VpObject> view(data);
        detail::read(reader, data.a);
        reader.alignTo(4);
        detail::read(reader, data.b);
        return view;
    }
};
} // namespace detail
} // namespace zserio
namespace
{
// ---- dynamic bit fields take their width from the owner
struct Owner
{
    uint8_t numBits = 11;
};
struct DynTraits
{
    using OwnerType = Owner;
    static View<DynInt16> at(const Owner& owner, const DynInt16& element, size_t) { return View<DynInt16>(element, owner.numBits); }
    static void read(BitStreamReader& reader, const Owner& owner, DynInt16& element, size_t) { zserio::detail::read(reader, element, owner.numBits); }
    static void read(zserio::detail::DeltaContext& context, BitStreamReader& reader, const Owner& owner, DynInt16& element, size_t)
    {
        zserio::detail::read(context, reader, element, owner.numBits);
    }
};
template <>
struct AnyOf<DynInt16>
{
    static DynInt16 get(const char* name) { return DynInt16(static_cast<int16_t>(vp_sext(vp_uint(name, 11), 11))); }
};
template <>
struct AnyOf<Float16>
{
    static Float16 get(const char* name)
    {
        constexpr float VALUES[] = {0.0F, -0.0F, 1.5F, -65504.0F, 6.103515625e-05F};
        return Float16(VALUES[vp_pick(name, 0, 4)]);
    }
};
template <>
struct AnyOf<Float32>
{
    static Float32 get(const char* name) { return Float32(convertUInt32ToFloat(vp_u32(name))); }
};
template <>
struct AnyOf<Float64>
{
    static Float64 get(const char* name) { return Float64(convertUInt64ToDouble(vp_u64(name))); }
};
template <>
struct AnyOf<Bytes>
{
    static Bytes get(const char* name)
    {
        Bytes b;
        const uint64_t n = vp_pick("bytes", 0, 2);
        for (uint64_t i = 0; i < n; i++) b.push_back(vp_u8(name));
        return b;
    }
};
template <>
struct AnyOf<String>
{
    static String get(const char* name)
    {
        String s;
        const uint64_t n = vp_pick("characters", 0, 2);
        for (uint64_t i = 0; i < n; i++) s.push_back(static_cast<char>(vp_u8(name)));
        return s;
    }
};
template <>
struct AnyOf<BitBuffer>
{
    static BitBuffer get(const char* name)
    {
        const size_t bits = vp_pick("bits", 0, 1) != 0 ? 13 : 0;
        std::vector<uint8_t> b(2);
        b[0] = vp_u8(name);
        b[1] = vp_u8(name);
        return BitBuffer(b, bits);
    }
};
template <>
struct AnyOf<VpObject>
{
    static VpObject get(const char* name) { return VpObject{any<UInt5>(name), any<VarUInt16>(name)}; }
};
template <typename T>
bool equal(const T& a, const T& b)
{
    if constexpr (std::is_same_v<T, Float16> || std::is_same_v<T, Float32>)
        return convertFloatToUInt32(static_cast<float>(a)) == convertFloatToUInt32(static_cast<float>(b));
    else if constexpr (std::is_same_v<T, Float64>)
        return convertDoubleToUInt64(static_cast<double>(a)) == convertDoubleToUInt64(static_cast<double>(b));
    else if constexpr (std::is_same_v<T, VpObject>)
        return a.a == b.a && a.b == b.b;
    else
        return a == b;
}
template <typename T>
struct Setup
{
    using Traits = ArrayTraits<T>;
    static constexpr uint64_t LONGEST = 3;
    static constexpr bool FIXED = false; // a fixed size of the elements, as implicit arrays have
};
template <zserio::BitSize N, bool S>
struct Setup<zserio::detail::FixedIntWrapper<N, S>>
{
    using Traits = ArrayTraits<zserio::detail::FixedIntWrapper<N, S>>;
    static constexpr uint64_t LONGEST = 3;
    static constexpr bool FIXED = true;
};
template <typename V, zserio::detail::FloatType F>
struct Setup<zserio::detail::FloatWrapper<V, F>>
{
    using Traits = ArrayTraits<zserio::detail::FloatWrapper<V, F>>;
    static constexpr uint64_t LONGEST = 2;
    static constexpr bool FIXED = true;
};
template <>
struct Setup<DynInt16>
{
    using Traits = DynTraits;
    static constexpr uint64_t LONGEST = 3;
    static constexpr bool FIXED = false;
};
template <typename T>
struct SlowSetup
{
    using Traits = ArrayTraits<T>;
    static constexpr uint64_t LONGEST = 2;
    static constexpr bool FIXED = false;
};
template <> struct Setup<String> : SlowSetup<String> {};
template <> struct Setup<Bytes> : SlowSetup<Bytes> {};
template <> struct Setup<BitBuffer> : SlowSetup<BitBuffer> {};
template <typename V, zserio::detail::VarIntType K>
struct Setup<zserio::detail::VarIntWrapper<V, K>> : SlowSetup<zserio::detail::VarIntWrapper<V, K>> {};
template <> struct Setup<VpObject> : SlowSetup<VpObject> {};
} // namespace
