// Arrays of every kind through the array functions: layout, announced size, offsets, round trip, access, validation.
#include "array_types.h"
namespace
{
struct Offsets // records what is reported
{
    uint64_t* calls;
    uint64_t* bytes;
    void setOffset(size_t index, BitSize byteOffset) const
    {
        vp_assert(index == *calls, "offsets are reported in the order of the elements");
        vp_assume(*calls < 8);
        bytes[*calls] = byteOffset;
        ++*calls;
    }
};
template <typename T, typename F>
void withView(const Vector<T>& data, F f)
{
    using Traits = typename Setup<T>::Traits;
    if constexpr (std::is_same_v<T, DynInt16>)
    {
        const Owner owner;
        f(ArrayView<const T, Traits>(Span<const T>(data), owner));
    }
    else
    {
        f(ArrayView<const T, Traits>(Span<const T>(data)));
    }
}
template <typename T, ArrayType MODE>
void arrayRoundTrip(const Vector<T>& data, size_t off)
{
    using Traits = typename Setup<T>::Traits;
    constexpr bool AUTO = MODE == ArrayType::AUTO || MODE == ArrayType::ALIGNED_AUTO;
    constexpr bool ALIGNED = MODE == ArrayType::ALIGNED || MODE == ArrayType::ALIGNED_AUTO;
    const size_t n = data.size();
    zserio::detail::array_owner_type_t<Traits> owner;
    std::array<uint8_t, 512> mem{};
    size_t size = 0;
    uint64_t calls = 0, bytes[8] = {};
    withView(data, [&](const auto& view) {
        vp_assert(view.size() == n && view.empty() == (n == 0), "size of the view");
        size = zserio::detail::bitSizeOf<MODE>(view, static_cast<BitSize>(off));
        vp_assert(zserio::detail::initializeOffsets<MODE>(view, static_cast<BitSize>(off)) == size, "offset initialisation adds the announced size");
        if (n < 8) vp_assert(zserio::detail::initializeOffsets<MODE>(view, static_cast<BitSize>(off), Offsets{&calls, bytes}) == size, "offset initialisation adds the announced size, with offsets");
        BitStreamWriter w(Span<uint8_t>(mem.data(), mem.size()));
        w.setBitPosition(off);
        zserio::detail::write<MODE>(w, view);
        vp_assert(w.getBitPosition() == off + size, "the announced size is written");
    });
    if (n < 8) vp_assert(calls == (ALIGNED ? n : 0), "one offset per element of an aligned array");
    // the layout: length, elements, each at a byte boundary when aligned
    {
        BitStreamReader r(mem.data(), mem.size());
        r.setBitPosition(off);
        if (AUTO) vp_assert(r.readVarSize() == n, "the length comes first");
        for (size_t i = 0; i < n; i++)
        {
            if (ALIGNED)
            {
                r.setBitPosition((r.getBitPosition() + 7) / 8 * 8);
                if (n < 8) vp_assert(bytes[i] * 8 == r.getBitPosition(), "the reported offset is where the element is");
            }
            T e{};
            Traits::read(r, owner, e, i);
            vp_assert(equal(e, data[i]), "the elements follow in order");
        }
        vp_assert(r.getBitPosition() == off + size, "nothing but the length, padding and the elements is written");
    }
    // reading
    BitStreamReader r(Span<const uint8_t>(mem.data(), mem.size()), MODE == ArrayType::IMPLICIT ? off + size : mem.size() * 8);
    r.setBitPosition(off);
    Vector<T> back(vp_pick("previous elements", 0, 1)); // they are replaced
    zserio::detail::readWithTraits<MODE, Traits>(r, back, owner, n);
    vp_assert(r.getBitPosition() == off + size, "the announced size is read");
    vp_assert(back.size() == n, "the same length");
    for (size_t i = 0; i < n; i++) vp_assert(equal(back[i], data[i]), "the same elements");
    vp_cover("round trip");
}
template <typename T>
void arrayOfMode(const Vector<T>& data, uint64_t mode, size_t off)
{
    switch (mode)
    {
    case 0: arrayRoundTrip<T, ArrayType::NORMAL>(data, off); break;
    case 1: arrayRoundTrip<T, ArrayType::AUTO>(data, off); break;
    case 2: arrayRoundTrip<T, ArrayType::ALIGNED>(data, off); break;
    case 3: arrayRoundTrip<T, ArrayType::ALIGNED_AUTO>(data, off); break;
    default:
        if constexpr (Setup<T>::FIXED) arrayRoundTrip<T, ArrayType::IMPLICIT>(data, off);
        break;
    }
}
template <typename T>
void anyArray(uint64_t mode)
{
#ifdef VP_THOROUGH
    const size_t off = vp_pick("position", 0, 8);
#else
    const size_t off = vp_pick("position", 0, 2) * 3; // 0, 3, 6
#endif
    const size_t n = vp_pick("length", 0, Setup<T>::LONGEST);
    Vector<T> data;
    for (size_t i = 0; i < n; i++) data.push_back(any<T>("element"));
    arrayOfMode(data, mode, off);
}
using Elements = Types<Bool, UInt1, Int5, UInt8, Int8, Int16, UInt16, UInt31, Int32, UInt61, UInt64, Int64, VarInt16, VarUInt16, VarUInt32, VarSize, VarInt32, VarUInt64, VarInt,
        VpColor, VpMask, Float16, Float32, Float64, DynInt16, VpObject, Bytes, String, BitBuffer>;
constexpr unsigned ELEMENTS = countTypes(Elements());
} // namespace
CONTRACT(array_round_trip)
{
    vp_bound("arrays of up to 3 elements (2 of variable size)");
    const uint64_t k = vp_deal("element type and kind", 0, ELEMENTS * 5 - 1);
    onTypeOf(Elements(), k / 5, [k](auto t) { anyArray<typename decltype(t)::Type>(k % 5); });
    vp_cover("array");
}
// around the boundary of the length prefix
CONTRACT(array_long)
{
    vp_bound("arrays of 127, 128 and 300 elements");
    const uint64_t k = vp_deal("kind and length", 0, 5 * 3 - 1);
    constexpr size_t LENGTHS[] = {127, 128, 300};
    const size_t n = LENGTHS[k / 5];
    const uint8_t first = vp_u8("element");
    Vector<UInt8> data;
    for (size_t i = 0; i < n; i++) data.push_back(UInt8(static_cast<uint8_t>(first ^ i)));
    arrayOfMode(data, k % 5, vp_pick("position", 0, 1) * 5);
    vp_cover("array");
}
// element access
CONTRACT(array_access)
{
    const size_t n = vp_pick("length", 0, 3);
    Vector<Int16> data;
    for (size_t i = 0; i < n; i++) data.push_back(any<Int16>("element"));
    const ArrayView<const Int16> view{Span<const Int16>(data)};
    const size_t index = vp_u64("index");
    bool thrown = false;
    try
    {
        vp_assert(&view.at(index) == data.data() + index, "at gives the element");
        vp_cover("at");
    }
    catch (const CppRuntimeException&)
    {
        thrown = true;
    }
    vp_assert(thrown == (index >= n), "at fails exactly when the index is out of range");
    bool front = false, back = false;
    try
    {
        vp_assert(&view.front() == data.data(), "front");
    }
    catch (const CppRuntimeException&)
    {
        front = true;
    }
    try
    {
        vp_assert(&view.back() == data.data() + (n - 1), "back");
    }
    catch (const CppRuntimeException&)
    {
        back = true;
    }
    vp_assert(front == (n == 0) && back == (n == 0), "front and back fail exactly when there is no element");
    // iteration
    size_t i = 0;
    for (const auto& e : view) vp_assert(e == data[i++], "iteration visits the elements in order");
    vp_assert(i == n, "all of them");
    for (auto it = view.rbegin(); it != view.rend(); ++it) vp_assert(*it == data[--i], "reverse iteration");
    vp_assert(i == 0, "all of them, in reverse");
    vp_assert(view.end() - view.begin() == static_cast<std::ptrdiff_t>(n), "distance");
    const size_t j = vp_pick("j", 0, 3), l = vp_pick("l", 0, 3);
    if (j < n && l < n)
    {
        const auto x = view.begin() + static_cast<std::ptrdiff_t>(j), y = view.end() - static_cast<std::ptrdiff_t>(n - l);
        vp_assert(*x == data[j] && *y == data[l] && view[j] == data[j], "random access");
        vp_assert(x[static_cast<std::ptrdiff_t>(l) - static_cast<std::ptrdiff_t>(j)] == data[l], "relative access");
        vp_assert(y - x == static_cast<std::ptrdiff_t>(l) - static_cast<std::ptrdiff_t>(j), "difference");
        vp_assert((x < y) == (j < l) && (x == y) == (j == l) && (x > y) == (j > l) && (x <= y) == (j <= l) && (x >= y) == (j >= l) && (x != y) == (j != l), "order of iterators");
    }
    vp_cover("access");
}
// validation: the length, and every element
CONTRACT(array_validation)
{
    const size_t n = vp_pick("length", 0, 3);
    Vector<Int5> data;
    bool good = true;
    for (size_t i = 0; i < n; i++)
    {
        const auto v = static_cast<int8_t>(vp_u8("element"));
        data.push_back(Int5(v));
        good = good && v >= -16 && v <= 15;
    }
    const ArrayView<const Int5> view{Span<const Int5>(data)};
    const size_t schemaSize = vp_u64("length of the schema");
    const uint64_t mode = vp_pick("kind", 0, 4);
    bool wrongLength = false, wrongElement = false;
    try
    {
        switch (mode)
        {
        case 0: zserio::detail::validate<ArrayType::NORMAL>(view, "field", schemaSize); break;
        case 1: zserio::detail::validate<ArrayType::ALIGNED>(view, "field", schemaSize); break;
        case 2: zserio::detail::validate<ArrayType::AUTO>(view, "field"); break;
        case 3: zserio::detail::validate<ArrayType::ALIGNED_AUTO>(view, "field"); break;
        default: zserio::detail::validate<ArrayType::IMPLICIT>(view, "field"); break;
        }
        vp_cover("valid");
    }
    catch (const ArrayLengthException&)
    {
        wrongLength = true;
    }
    catch (const OutOfRangeException&)
    {
        wrongElement = true;
    }
    const bool lengthOk = mode > 1 || schemaSize == n;
    vp_assert(wrongLength == !lengthOk, "rejected exactly when the length differs from the one of the schema");
    if (lengthOk) vp_assert(wrongElement == !good, "rejected exactly when an element is out of range");
}

// packed arrays of dynamic bit fields
namespace
{
template <ArrayType MODE>
void packedDyn(size_t n, size_t off)
{
    Vector<DynInt16> data;
    for (size_t i = 0; i < n; i++) data.push_back(any<DynInt16>("element"));
    Owner owner;
    const ArrayView<const DynInt16, DynTraits> view(Span<const DynInt16>(data), owner);
    uint64_t calls = 0, bytes[8] = {};
    const size_t size = zserio::detail::bitSizeOfPacked<MODE>(view, static_cast<BitSize>(off));
    vp_assert(zserio::detail::initializeOffsetsPacked<MODE>(view, static_cast<BitSize>(off), Offsets{&calls, bytes}) == size, "offset initialisation adds the announced size");
    vp_assert(calls == (MODE == ArrayType::ALIGNED || MODE == ArrayType::ALIGNED_AUTO ? n : 0), "one offset per element of an aligned array");
    std::array<uint8_t, 64> mem{};
    BitStreamWriter w(Span<uint8_t>(mem.data(), mem.size()));
    w.setBitPosition(off);
    zserio::detail::writePacked<MODE>(w, view);
    vp_assert(w.getBitPosition() == off + size, "the announced size is written");
    BitStreamReader r(mem.data(), mem.size());
    r.setBitPosition(off);
    Vector<DynInt16> back;
    zserio::detail::readPackedWithTraits<MODE, DynTraits>(r, back, owner, n);
    vp_assert(r.getBitPosition() == off + size, "the announced size is read");
    vp_assert(back.size() == n, "the same length");
    for (size_t i = 0; i < n; i++) vp_assert(back[i] == data[i], "the same elements");
    vp_cover("round trip");
}
} // namespace
CONTRACT(packed_dynamic)
{
    vp_bound("arrays of up to 3 elements (any length: delta_* contracts)");
    const uint64_t k = vp_deal("kind and length", 0, 15);
    const size_t off = vp_pick("position", 0, 1) * 5;
    switch (k % 4)
    {
    case 0: packedDyn<ArrayType::NORMAL>(k / 4, off); break;
    case 1: packedDyn<ArrayType::AUTO>(k / 4, off); break;
    case 2: packedDyn<ArrayType::ALIGNED>(k / 4, off); break;
    default: packedDyn<ArrayType::ALIGNED_AUTO>(k / 4, off); break;
    }
    vp_cover("array");
}
