// element types of packed arrays
#pragma once
enum class VpColor : int16_t { DARK = -300, NONE = 0, RED = 2, BLACK = 700 };
struct VpMask
{
    using ZserioType = zserio::UInt11;
    VpMask() : m_value(0) {}
    explicit VpMask(ZserioType v) : m_value(v) {}
    ZserioType getValue() const { return m_value; }
    bool operator==(const VpMask& o) const { return m_value == o.m_value; }
    bool operator!=(const VpMask& o) const { return m_value != o.m_value; }
    bool operator<(const VpMask& o) const { return m_value < o.m_value; }
    ZserioType m_value;
};
namespace zserio
{
template <>
struct EnumTraits<VpColor>
{
    using ZserioType = VarInt16;
};
template <>
inline VarInt16 enumToValue(VpColor v)
{
    return VarInt16(static_cast<int16_t>(v));
}
template <>
inline VpColor valueToEnum<VpColor>(VarInt16 v)
{
    const int16_t x = v;
    if (x != -300 && x != 0 && x != 2 && x != 700) throw CppRuntimeException("Unknown value!");
    return static_cast<VpColor>(x);
}
template <>
struct is_bitmask<VpMask> : std::true_type
{};
} // namespace zserio

namespace
{
template <typename T>
struct Tag
{
    using Type = T;
};
template <typename T, unsigned BITS>
struct Dyn // dynamic bit field of BITS bits
{};

template <typename T>
struct AnyOf;
template <zserio::BitSize N, bool S>
struct AnyOf<zserio::detail::FixedIntWrapper<N, S>>
{
    using T = zserio::detail::FixedIntWrapper<N, S>;
    static T get(const char* name)
    {
        const uint64_t v = vp_uint(name, N);
        return T(static_cast<typename T::ValueType>(S ? static_cast<uint64_t>(vp_sext(v, N)) : v));
    }
};
template <>
struct AnyOf<zserio::Bool>
{
    static zserio::Bool get(const char* name) { return zserio::Bool(vp_pick(name, 0, 1) != 0); }
};
template <typename V, zserio::detail::VarIntType K>
struct AnyOf<zserio::detail::VarIntWrapper<V, K>>
{
    using T = zserio::detail::VarIntWrapper<V, K>;
    static T get(const char* name)
    {
        const V v = static_cast<V>(vp_uint(name, 8 * sizeof(V)));
        const T t(v);
        vp_assume(v <= static_cast<V>(zserio::NumericLimits<T>::max()));
        if constexpr (std::is_signed_v<V>) vp_assume(v >= static_cast<V>(zserio::NumericLimits<T>::min()));
        return t;
    }
};
template <typename V, unsigned BITS>
struct AnyOf<Dyn<V, BITS>>
{
    using W = zserio::detail::DynIntWrapper<V>;
    static zserio::View<W> get(const char* name)
    {
        const uint64_t v = vp_uint(name, BITS);
        return zserio::View<W>(W(static_cast<V>(std::is_signed_v<V> ? static_cast<uint64_t>(vp_sext(v, BITS)) : v)), static_cast<uint8_t>(BITS));
    }
};
template <>
struct AnyOf<VpColor>
{
    static VpColor get(const char* name)
    {
        switch (vp_pick(name, 0, 3))
        {
        case 0: return VpColor::DARK;
        case 1: return VpColor::NONE;
        case 2: return VpColor::RED;
        default: return VpColor::BLACK;
        }
    }
};
template <>
struct AnyOf<VpMask>
{
    static VpMask get(const char* name) { return VpMask(zserio::UInt11(static_cast<uint16_t>(vp_uint(name, 11)))); }
};
template <typename T>
auto any(const char* name)
{
    return AnyOf<T>::get(name);
}
// unsigned integers: bits of the largest value, a value from a number
template <typename T>
struct Unsigned
{
    static constexpr bool is = false;
    static constexpr unsigned BITS = 64;
};
template <zserio::BitSize N>
struct Unsigned<zserio::detail::FixedIntWrapper<N, false>>
{
    using T = zserio::detail::FixedIntWrapper<N, false>;
    static constexpr bool is = N > 7;
    static constexpr unsigned BITS = N;
    static T from(uint64_t v)
    {
        if constexpr (N < 64) vp_assume(v < (uint64_t(1) << N));
        return T(static_cast<typename T::ValueType>(v));
    }
};
template <typename V, zserio::detail::VarIntType K>
struct Unsigned<zserio::detail::VarIntWrapper<V, K>>
{
    using T = zserio::detail::VarIntWrapper<V, K>;
    static constexpr bool is = std::is_unsigned_v<V> && sizeof(V) > 1;
    static constexpr unsigned BITS = 8 * sizeof(V);
    static T from(uint64_t v)
    {
        vp_assume(v <= static_cast<uint64_t>(static_cast<V>(zserio::NumericLimits<T>::max())));
        return T(static_cast<V>(v));
    }
};
// an element next to p: every element whose distance from p fits the bits; 64: any element
template <typename T, typename P>
auto near(const char* name, const P& p, uint8_t bits)
{
    if constexpr (Unsigned<T>::is)
    {
        const uint64_t v = static_cast<uint64_t>(static_cast<typename T::ValueType>(p));
        const uint64_t where = bits == 0 ? 0 : vp_pick("equal, below or above", 0, 2);
        if (where == 0) return Unsigned<T>::from(v);
        const uint64_t d = vp_uint("distance", bits);
        vp_assume(d > 0);
        if (where == 1)
        {
            vp_assume(d <= v);
            return Unsigned<T>::from(v - d);
        }
        if (Unsigned<T>::BITS == 64) vp_assume(d <= UINT64_MAX - v);
        return Unsigned<T>::from(v + d);
    }
    else
    {
        return any<T>(name);
    }
}
// the mathematical value modulo 2^64
template <typename T>
uint64_t raw(const T& e)
{
    return static_cast<uint64_t>(static_cast<typename T::ValueType>(e));
}
inline uint64_t raw(const VpColor& e) { return static_cast<uint64_t>(static_cast<int16_t>(e)); }
inline uint64_t raw(const VpMask& e) { return raw(e.m_value); }
template <typename T>
bool less(const T& a, const T& b)
{
    return static_cast<typename T::ValueType>(a) < static_cast<typename T::ValueType>(b);
}
inline bool less(VpColor a, VpColor b) { return static_cast<int>(a) < static_cast<int>(b); }
inline bool less(const VpMask& a, const VpMask& b) { return less(a.m_value, b.m_value); }
// |e - p| < 2^bits
inline bool fits(uint64_t e, uint64_t p, bool greater, uint8_t bits)
{
    const uint64_t d = greater ? e - p : p - e;
    return bits >= 64 || (d >> bits) == 0;
}
template <typename T>
T zero(const T&)
{
    return T();
}
template <typename V>
zserio::detail::DynIntWrapper<V> zero(const zserio::View<zserio::detail::DynIntWrapper<V>>&)
{
    return zserio::detail::DynIntWrapper<V>();
}
template <typename C, typename T>
void readInto(C& c, zserio::BitStreamReader& r, T& back, const T&)
{
    zserio::detail::read(c, r, back);
}
template <typename C, typename V>
void readInto(C& c, zserio::BitStreamReader& r, zserio::detail::DynIntWrapper<V>& back, const zserio::View<zserio::detail::DynIntWrapper<V>>& e)
{
    zserio::detail::read(c, r, back, e.numBits());
}
template <typename A, typename B>
bool same(const A& a, const B& b)
{
    return raw(a) == raw(b);
}

template <typename... T>
struct Types
{};
using AllTypes = Types<zserio::Bool, zserio::UInt1, zserio::Int1, zserio::Int5, zserio::UInt7, zserio::Int8, zserio::UInt8, zserio::Int13, zserio::UInt16,
        zserio::Int16, zserio::UInt31, zserio::Int32, zserio::UInt32, zserio::Int33, zserio::UInt61, zserio::Int62, zserio::Int63, zserio::UInt63, zserio::Int64, zserio::UInt64,
        zserio::VarInt16, zserio::VarInt32, zserio::VarInt64, zserio::VarInt, zserio::VarUInt16, zserio::VarUInt32, zserio::VarUInt64, zserio::VarUInt, zserio::VarSize,
        Dyn<int8_t, 7>, Dyn<uint16_t, 11>, Dyn<int32_t, 32>, Dyn<uint64_t, 64>, Dyn<int64_t, 64>, VpColor, VpMask>;
template <typename... T>
constexpr unsigned countTypes(Types<T...>)
{
    return sizeof...(T);
}
constexpr unsigned TYPES = countTypes(AllTypes());
template <typename F, typename... T>
void onTypeOf(Types<T...>, uint64_t i, F f)
{
    uint64_t k = 0;
    (void)((k++ == i && (f(Tag<T>()), true)) || ...);
}
template <typename F>
void onType(uint64_t i, F f)
{
    onTypeOf(AllTypes(), i, f);
}
} // namespace
