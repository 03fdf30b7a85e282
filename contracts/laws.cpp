// Equality, ordering and hash codes of optionals, extended fields, variants, array views and their contents.
#include <array>
#include <cstring>
#include "vp.h"
#include "zserio/ArrayView.h"
#include "zserio/Bytes.h"
#include "zserio/Extended.h"
#include "zserio/HashCodeUtil.h"
#include "zserio/Optional.h"
#include "zserio/String.h"
#include "zserio/Variant.h"
#include "zserio/Vector.h"
using namespace zserio;
namespace
{
// ---- arbitrary contents
struct Big // does not fit in place; a total order
{
    uint8_t key = 0;
    uint8_t pad[40] = {};
    Big() = default;
    explicit Big(uint8_t k) : key(k) {}
    bool operator==(const Big& o) const { return key == o.key; }
    bool operator!=(const Big& o) const { return key != o.key; }
    bool operator<(const Big& o) const { return key < o.key; }
    bool operator>(const Big& o) const { return key > o.key; }
    bool operator<=(const Big& o) const { return key <= o.key; }
    bool operator>=(const Big& o) const { return key >= o.key; }
};
template <typename T>
struct Any_;
template <>
struct Any_<Int8> { static Int8 get() { return Int8(static_cast<int8_t>(vp_u8("v"))); } };
template <>
struct Any_<Bool> { static Bool get() { return Bool(vp_pick("v", 0, 1) != 0); } };
template <>
struct Any_<UInt64> { static UInt64 get() { return UInt64(vp_u64("v")); } };
template <>
struct Any_<VarInt16> { static VarInt16 get() { return VarInt16(static_cast<int16_t>(vp_u16("v"))); } };
template <>
struct Any_<Float32>
{
    static Float32 get()
    {
        const uint32_t b = vp_u32("v");
        vp_assume((b & 0x7FFFFFFFU) <= 0x7F800000U); // a total order: no NaN
        float f;
        std::memcpy(&f, &b, sizeof(f));
        return Float32(f);
    }
};
template <>
struct Any_<Float64>
{
    static Float64 get()
    {
        const uint64_t b = vp_u64("v");
        vp_assume((b & ~(UINT64_C(1) << 63U)) <= (UINT64_C(0x7FF) << 52U));
        double f;
        std::memcpy(&f, &b, sizeof(f));
        return Float64(f);
    }
};
template <>
struct Any_<String>
{
    static String get()
    {
        String s;
        const uint64_t n = vp_pick("length", 0, 2);
        for (uint64_t i = 0; i < n; i++) s.push_back(static_cast<char>(vp_u8("v")));
        return s;
    }
};
template <>
struct Any_<Bytes>
{
    static Bytes get()
    {
        Bytes s;
        const uint64_t n = vp_pick("length", 0, 2);
        for (uint64_t i = 0; i < n; i++) s.push_back(vp_u8("v"));
        return s;
    }
};
template <>
struct Any_<Big> { static Big get() { return Big(vp_u8("v")); } };
} // namespace
namespace std
{
template <>
struct hash<Big>
{
    size_t operator()(const Big& b) const { return zserio::calcHashCode(zserio::HASH_SEED, b.key); }
};
} // namespace std
namespace
{
// ---- the laws
// same: the same state and equal contents
template <typename T>
void pairLaws(const T& a, const T& b, bool same)
{
    const bool eq = a == b, lt = a < b, gt = a > b;
    vp_assert(eq == same, "equal exactly when the state and the contents are");
    vp_assert((b == a) == eq, "equality is symmetric");
    vp_assert((a != b) == !eq, "!= is the opposite of ==");
    vp_assert(static_cast<int>(eq) + static_cast<int>(lt) + static_cast<int>(gt) == 1, "exactly one of less, equal, greater");
    vp_assert((b < a) == gt && (b > a) == lt, "less and greater mirror each other");
    vp_assert((a <= b) == !gt, "<=");
    vp_assert((a >= b) == !lt, ">=");
    vp_cover("pair");
}
template <bool STD = true, typename T>
void hashLaw(const T& a, const T& b)
{
    if (!(a == b)) return;
    const uint32_t seed = vp_u32("seed");
    vp_assert(calcHashCode(seed, a) == calcHashCode(seed, b), "equal values, equal hash codes");
    if constexpr (STD) vp_assert(std::hash<T>()(a) == std::hash<T>()(b), "equal values, equal std::hash");
    vp_cover("hash");
}
template <typename T>
void tripleLaws(const T& a, const T& b, const T& c)
{
    if (!(a < b) || !(b < c)) return;
    vp_assert(a < c, "transitive");
    vp_cover("triple");
}
template <typename T>
struct AnyOptional
{
    bool set;
    T value;
    Optional<T> o;
    AnyOptional() : set(vp_pick("set", 0, 1) != 0), value(Any_<T>::get())
    {
        if (set) o = value;
    }
};
template <typename T>
struct AnyExtended
{
    bool set;
    T value;
    Extended<T> o;
    AnyExtended() : set(vp_pick("present", 0, 1) != 0), value(Any_<T>::get())
    {
        o.value() = value; // the value is stored also when it is not present
        o.setPresent(set);
    }
};
enum class Which : uint8_t { A, B, C, D };
struct AnyVariant
{
    using V = Variant<Which, Int8, Big, UInt64, Int8>;
    uint64_t which;
    uint64_t value;
    V o;
    AnyVariant() : which(vp_pick("alternative", 0, 4))
    {
        value = which == 2 ? vp_u64("v") : vp_u8("v");
        switch (which)
        {
        case 0: o.emplace<Which::A>(Int8(static_cast<int8_t>(value))); break;
        case 1: o.emplace<Which::B>(Big(static_cast<uint8_t>(value))); break;
        case 2: o.emplace<Which::C>(UInt64(value)); break;
        case 3: o.emplace<Which::D>(Int8(static_cast<int8_t>(value))); break;
        default: // without a value: moved from
            o.emplace<Which::B>(Big(1));
            {
                V taken(std::move(o));
            }
        }
    }
};
template <typename T>
void optionals(bool triples)
{
    const AnyOptional<T> a, b;
    const bool same = a.set == b.set && (!a.set || a.value == b.value);
    if (!triples)
    {
        pairLaws(a.o, b.o, same);
        hashLaw(a.o, b.o);
        // comparison with a value, and with nothing
        if (a.set)
        {
            vp_assert((b.o == a.value) == (b.o == a.o) && (a.value == b.o) == (a.o == b.o), "== with a value");
            vp_assert((b.o != a.value) == (b.o != a.o) && (a.value != b.o) == (a.o != b.o), "!= with a value");
            vp_assert((b.o < a.value) == (b.o < a.o) && (a.value < b.o) == (a.o < b.o), "< with a value");
            vp_assert((b.o > a.value) == (b.o > a.o) && (a.value > b.o) == (a.o > b.o), "> with a value");
            vp_assert((b.o <= a.value) == (b.o <= a.o) && (a.value <= b.o) == (a.o <= b.o), "<= with a value");
            vp_assert((b.o >= a.value) == (b.o >= a.o) && (a.value >= b.o) == (a.o >= b.o), ">= with a value");
        }
        else
        {
            vp_assert((b.o == std::nullopt) == (b.o == a.o) && (std::nullopt == b.o) == (a.o == b.o), "== with nothing");
            vp_assert((b.o != std::nullopt) == (b.o != a.o) && (std::nullopt != b.o) == (a.o != b.o), "!= with nothing");
            vp_assert((b.o < std::nullopt) == (b.o < a.o) && (std::nullopt < b.o) == (a.o < b.o), "< with nothing");
            vp_assert((b.o > std::nullopt) == (b.o > a.o) && (std::nullopt > b.o) == (a.o > b.o), "> with nothing");
            vp_assert((b.o <= std::nullopt) == (b.o <= a.o) && (std::nullopt <= b.o) == (a.o <= b.o), "<= with nothing");
            vp_assert((b.o >= std::nullopt) == (b.o >= a.o) && (std::nullopt >= b.o) == (a.o >= b.o), ">= with nothing");
        }
    }
    else
    {
        const AnyOptional<T> c;
        tripleLaws(a.o, b.o, c.o);
    }
}
template <typename T>
void extendeds(bool triples)
{
    const AnyExtended<T> a, b;
    if (triples)
    {
        const AnyExtended<T> c;
        tripleLaws(a.o, b.o, c.o);
        return;
    }
    pairLaws(a.o, b.o, a.set == b.set && (!a.set || a.value == b.value));
    hashLaw(a.o, b.o);
}
template <typename T>
struct AnyArray
{
    Vector<T> data;
    explicit AnyArray(uint64_t longest)
    {
        const uint64_t n = vp_pick("length", 0, longest);
        for (uint64_t i = 0; i < n; i++) data.push_back(Any_<T>::get());
    }
    ArrayView<const T> view() const { return ArrayView<const T>(Span<const T>(data)); }
};
template <typename T>
bool sameElements(const Vector<T>& a, const Vector<T>& b)
{
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); i++)
        if (!(a[i] == b[i])) return false;
    return true;
}
// an element equal to the given one, not necessarily with the same bits
template <typename T>
T twin(const T& v) { return v; }
Float64 twin(Float64 v)
{
    if (static_cast<double>(v) == 0.0) return Float64(vp_pick("sign", 0, 1) != 0 ? -0.0 : 0.0);
    return v;
}
template <typename T>
void arrays(bool triples)
{
    if (triples)
    {
        const AnyArray<T> a(2), b(2), c(2);
        tripleLaws(a.view(), b.view(), c.view());
        return;
    }
    const uint64_t longest = std::is_same_v<T, Float64> ? 2 : 3;
    const AnyArray<T> a(longest), b(longest);
    const auto x = a.view(), y = b.view();
    pairLaws(x, y, sameElements(a.data, b.data));
    Vector<T> d;
    for (const auto& v : a.data) d.push_back(twin(v));
    const ArrayView<const T> z{Span<const T>(d)};
    vp_assert(x == z && !(x < z) && !(z < x), "an array equals one of equal elements");
    const uint32_t seed = vp_u32("seed");
    vp_assert(calcHashCode(seed, x) == calcHashCode(seed, z), "equal arrays, equal hash codes");
    vp_assert(calcHashCode(seed, a.data) == calcHashCode(seed, d), "equal vectors, equal hash codes");
}
template <typename F>
void onElement(uint64_t k, F f)
{
    switch (k)
    {
    case 0: f(Int8()); break;
    case 1: f(Bool()); break;
    case 2: f(UInt64()); break;
    case 3: f(VarInt16()); break;
    case 4: f(Float32()); break;
    case 5: f(Float64()); break;
    case 6: f(String()); break;
    default: f(Big());
    }
}
} // namespace
CONTRACT(optional_laws)
{
    const uint64_t k = vp_deal("type, pairs or triples", 0, 15);
    onElement(k / 2, [k](auto t) { optionals<decltype(t)>(k % 2 != 0); });
    vp_cover("optional");
}
CONTRACT(extended_laws)
{
    const uint64_t k = vp_deal("type, pairs or triples", 0, 15);
    onElement(k / 2, [k](auto t) { extendeds<decltype(t)>(k % 2 != 0); });
    vp_cover("extended");
}
CONTRACT(variant_laws)
{
    const AnyVariant a, b;
    if (vp_deal("triples", 0, 1) != 0)
    {
        const AnyVariant c;
        tripleLaws(a.o, b.o, c.o);
        vp_cover("triples");
        return;
    }
    const bool same = a.which == b.which && (a.which == 4 || a.value == b.value);
    pairLaws(a.o, b.o, same);
    if (a.which != 4) hashLaw(a.o, b.o);
    vp_cover("pairs");
}
CONTRACT(array_laws)
{
    vp_bound("arrays of at most 3 elements");
    const uint64_t k = vp_deal("type, pairs or triples", 0, 11);
    switch (k / 2)
    {
    case 0: arrays<Int8>(k % 2 != 0); break;
    case 1: arrays<UInt64>(k % 2 != 0); break;
    case 2: arrays<Bool>(k % 2 != 0); break;
    case 3: arrays<Float64>(k % 2 != 0); break;
    case 4: arrays<VarInt16>(k % 2 != 0); break;
    default: arrays<String>(k % 2 != 0);
    }
    vp_cover("array");
}
// contents: views of bytes and texts, wrapped numbers
CONTRACT(content_laws)
{
    vp_bound("bytes and strings of at most 2 characters");
    switch (vp_deal("kind", 0, 6))
    {
    case 0:
    {
        const Bytes a = Any_<Bytes>::get(), b = Any_<Bytes>::get();
        const BytesView x(a), y(b);
        pairLaws(x, y, sameElements(a, b));
        const uint32_t seed = vp_u32("seed");
        if (x == y) vp_assert(calcHashCode(seed, x) == calcHashCode(seed, y), "equal bytes, equal hash codes");
        vp_assert(calcHashCode(seed, x) == calcHashCode(seed, a), "the view has the hash code of the bytes");
        break;
    }
    case 1:
    {
        const Bytes a = Any_<Bytes>::get(), b = Any_<Bytes>::get(), c = Any_<Bytes>::get();
        tripleLaws(BytesView(a), BytesView(b), BytesView(c));
        break;
    }
    case 2:
    {
        const String a = Any_<String>::get(), b = Any_<String>::get();
        const uint32_t seed = vp_u32("seed");
        if (a == b) vp_assert(calcHashCode(seed, a) == calcHashCode(seed, b), "equal strings, equal hash codes");
        vp_assert(calcHashCode(seed, std::string_view(a)) == calcHashCode(seed, a), "the view has the hash code of the string");
        break;
    }
    case 3: { const Bool a = Any_<Bool>::get(), b = Any_<Bool>::get(); pairLaws(a, b, static_cast<bool>(a) == static_cast<bool>(b)); hashLaw<false>(a, b); break; }
    case 4: { const Int8 a = Any_<Int8>::get(), b = Any_<Int8>::get(); pairLaws(a, b, static_cast<int8_t>(a) == static_cast<int8_t>(b)); hashLaw<false>(a, b); break; }
    case 5: { const Float32 a = Any_<Float32>::get(), b = Any_<Float32>::get(); pairLaws(a, b, static_cast<float>(a) == static_cast<float>(b)); hashLaw<false>(a, b); break; }
    default: { const Float64 a = Any_<Float64>::get(), b = Any_<Float64>::get(); pairLaws(a, b, static_cast<double>(a) == static_cast<double>(b)); hashLaw<false>(a, b); }
    }
    vp_cover("content");
}
