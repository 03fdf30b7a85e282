// Range checks and published limits of every schema integer type against the mathematical ranges.
#include <utility>
#include "vp.h"
#include "zserio/Types.h"
#include "zserio/BitFieldUtil.h"
#include "zserio/BuiltInOperators.h"
#include "zserio/SizeConvertUtil.h"
using namespace zserio;
namespace
{
typedef __int128 Wide;
Wide pow2(unsigned n) { return static_cast<Wide>(1) << n; }

enum How { FROM, TO, VALIDATE, HOWS };
template <typename T>
bool accepted(typename T::ValueType v, unsigned how, typename T::ValueType& result)
{
    try
    {
        switch (how)
        {
        case FROM: result = fromCheckedValue<T>(v); break;
        case TO: result = toCheckedValue<T>(T(v)); break;
        default: detail::validate(T(v), "field"); result = v; break;
        }
    }
    catch (const OutOfRangeException&)
    {
        return false;
    }
    return true;
}
template <typename T>
bool acceptedDyn(typename T::ValueType v, BitSize numBits, unsigned how, typename T::ValueType& result)
{
    try
    {
        switch (how)
        {
        case FROM: result = fromCheckedValue<T>(v, numBits); break;
        case TO: result = toCheckedValue<T>(T(v), numBits); break;
        default: detail::validate(T(v), numBits, "field"); result = v; break;
        }
    }
    catch (const OutOfRangeException&)
    {
        return false;
    }
    return true;
}
template <typename V>
V anyOf()
{
    const uint64_t u = vp_uint("value", sizeof(V) * 8);
    return static_cast<V>(std::is_signed_v<V> ? static_cast<uint64_t>(vp_sext(u, sizeof(V) * 8)) : u);
}
template <typename T>
void checkType(Wide lo, Wide hi)
{
    using V = typename T::ValueType;
    const V mn = NumericLimits<T>::min();
    const V mx = NumericLimits<T>::max();
    vp_assert(static_cast<Wide>(mn) == lo, "published minimum");
    vp_assert(static_cast<Wide>(mx) == hi, "published maximum");
    const V v = anyOf<V>();
    const unsigned how = static_cast<unsigned>(vp_pick("how", 0, HOWS - 1));
    V out = 0;
    const bool ok = accepted<T>(v, how, out);
    vp_assert(ok == (v >= lo && v <= hi), "accepted exactly if in range");
    if (ok) vp_assert(out == v, "returned unchanged");
}
template <unsigned N>
void fixedSigned() { checkType<Int<N>>(-pow2(N - 1), pow2(N - 1) - 1); }
template <unsigned N>
void fixedUnsigned() { checkType<UInt<N>>(0, pow2(N) - 1); }
typedef void (*Fn)();
template <size_t... I>
Fn pickFixed(size_t n, bool s, std::index_sequence<I...>)
{
    static const Fn sig[] = {fixedSigned<I + 1>...};
    static const Fn uns[] = {fixedUnsigned<I + 1>...};
    return s ? sig[n - 1] : uns[n - 1];
}
template <typename T>
void checkDyn(unsigned how)
{
    using V = typename T::ValueType;
    constexpr unsigned W = sizeof(V) * 8;
    const V v = anyOf<V>();
    const BitSize n = static_cast<BitSize>(vp_pick("numBits", 0, W + 1));
    const BitSize numBits = n == W + 1 ? vp_u32("anyNumBits") : n;
    V out = 0;
    if (n == 0 || n == W + 1)
    {
        vp_assume(n == 0 || numBits > W);
        vp_assert(!acceptedDyn<T>(v, numBits, how, out), "invalid length refused");
        bool thrown = false;
        try
        {
            (void)NumericLimits<T>::max(numBits);
        }
        catch (const OutOfRangeException&)
        {
            thrown = true;
        }
        vp_assert(thrown, "no maximum for an invalid length");
        return;
    }
    const Wide lo = std::is_signed_v<V> ? -pow2(n - 1) : 0;
    const Wide hi = std::is_signed_v<V> ? pow2(n - 1) - 1 : pow2(n) - 1;
    vp_assert(static_cast<Wide>(static_cast<V>(NumericLimits<T>::min(n))) == lo, "minimum of the length");
    vp_assert(static_cast<Wide>(static_cast<V>(NumericLimits<T>::max(n))) == hi, "maximum of the length");
    const bool ok = acceptedDyn<T>(v, n, how, out);
    vp_assert(ok == (v >= lo && v <= hi), "accepted exactly if in range");
    if (ok) vp_assert(out == v, "returned unchanged");
}
} // namespace

CONTRACT(range_fixed)
{
    const size_t n = vp_pick("n", 1, 64);
    const bool s = vp_pick("signed", 0, 1) != 0;
    pickFixed(n, s, std::make_index_sequence<64>())();
    vp_cover("checked");
}
CONTRACT(range_var)
{
    switch (vp_pick("kind", 0, 8))
    {
    case 0: checkType<VarInt16>(-(pow2(14) - 1), pow2(14) - 1); break;
    case 1: checkType<VarInt32>(-(pow2(28) - 1), pow2(28) - 1); break;
    case 2: checkType<VarInt64>(-(pow2(56) - 1), pow2(56) - 1); break;
    case 3: checkType<VarInt>(-pow2(63), pow2(63) - 1); break;
    case 4: checkType<VarUInt16>(0, pow2(15) - 1); break;
    case 5: checkType<VarUInt32>(0, pow2(29) - 1); break;
    case 6: checkType<VarUInt64>(0, pow2(57) - 1); break;
    case 7: checkType<VarUInt>(0, pow2(64) - 1); break;
    default: checkType<VarSize>(0, pow2(31) - 1); break;
    }
    vp_cover("checked");
}
CONTRACT(range_dyn)
{
    const unsigned how = static_cast<unsigned>(vp_pick("how", 0, HOWS - 1));
    switch (vp_deal("kind", 0, 7))
    {
    case 0: checkDyn<DynInt8>(how); break;
    case 1: checkDyn<DynInt16>(how); break;
    case 2: checkDyn<DynInt32>(how); break;
    case 3: checkDyn<DynInt64>(how); break;
    case 4: checkDyn<DynUInt8>(how); break;
    case 5: checkDyn<DynUInt16>(how); break;
    case 6: checkDyn<DynUInt32>(how); break;
    default: checkDyn<DynUInt64>(how); break;
    }
    vp_cover("checked");
}
CONTRACT(range_bool_float)
{
    vp_assert(!NumericLimits<Bool>::min() && NumericLimits<Bool>::max(), "bool limits");
    const bool b = vp_pick("b", 0, 1) != 0;
    vp_assert(fromCheckedValue<Bool>(b) == b && toCheckedValue(Bool(b)) == b, "bool unchanged");
    vp_assert(static_cast<float>(NumericLimits<Float16>::max()) == 65504.F, "largest half");
    vp_assert(static_cast<float>(NumericLimits<Float16>::min()) == 1.F / 16384.F, "smallest normal half");
    vp_cover("checked");
}
CONTRACT(bit_field_bounds)
{
    const bool s = vp_pick("signed", 0, 1) != 0;
    const size_t pick = vp_pick("n", 0, 65);
    const size_t n = pick == 65 ? vp_u64("length") : pick;
    vp_assume(pick < 65 || n > 64);
    bool thrownL = false, thrownU = false;
    int64_t lo = 0;
    uint64_t hi = 0;
    try { lo = getBitFieldLowerBound(n, s); } catch (const CppRuntimeException&) { thrownL = true; }
    try { hi = getBitFieldUpperBound(n, s); } catch (const CppRuntimeException&) { thrownU = true; }
    const bool bad = n == 0 || n > 64;
    vp_assert(thrownL == bad && thrownU == bad, "invalid length refused");
    if (bad) return;
    vp_assert(static_cast<Wide>(lo) == (s ? -pow2(static_cast<unsigned>(n - 1)) : 0), "lower bound");
    vp_assert(static_cast<Wide>(hi) == (s ? pow2(static_cast<unsigned>(n - 1)) - 1 : pow2(static_cast<unsigned>(n)) - 1), "upper bound");
    vp_cover("checked");
}
CONTRACT(size_convert)
{
    const size_t v = vp_u64("v");
    bool thrown = false;
    uint32_t r = 0;
    try { r = convertSizeToUInt32(v); } catch (const CppRuntimeException&) { thrown = true; }
    vp_assert(thrown == (v > UINT32_MAX), "accepted exactly if representable");
    if (!thrown) vp_assert(r == v, "unchanged");
    vp_assert(convertUInt64ToSize(v) == v, "unchanged");
    vp_cover("checked");
}
// numBits(n): the fewest bits (at least one) able to hold every value below n
CONTRACT(num_bits)
{
    const uint64_t v = vp_u64("v");
    const unsigned r = builtin::numBits(v);
    if (v == 0)
    {
        vp_assert(r == 0, "no value needs no bits");
        return;
    }
    vp_assert(r >= 1 && r <= 64, "one to 64 bits");
    const Wide w = v;
    vp_assert(w <= pow2(r), "every value below fits");
    if (r > 1) vp_assert(w > pow2(r - 1), "one bit less would not do");
    vp_cover("checked");
}
