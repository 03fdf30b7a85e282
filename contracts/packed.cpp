// Packed arrays, part 1: the delta context, one element at a time, from an arbitrary state of the context.
// By induction over the elements (init step, decision, element step) this covers arrays of any length.
#include <array>
#include <cstring>
#include <new>
#include <optional>
#include <string>
#include <utility>
#include <vector>
#include "writer.h"
#include "zserio/Bitmasks.h"
#include "zserio/Enums.h"
#include "zserio/View.h"
#define private public
#include "zserio/DeltaContext.h"
#undef private
#include "packed_types.h"
using detail::DeltaContext;
namespace
{
constexpr uint8_t STARTED = DeltaContext::INIT_STARTED_FLAG;
constexpr uint8_t PACKED = DeltaContext::IS_PACKED_FLAG;
constexpr uint8_t PROCESSING = DeltaContext::PROCESSING_STARTED_FLAG;

template <typename T>
void firstInit()
{
    const auto e = any<T>("element");
    DeltaContext c;
    initContext(c, e);
    vp_assert(c.m_flags == STARTED, "one element: started, not packed");
    vp_assert(c.m_numElements == 1 && c.m_maxBitNumber == 0, "one element, no delta yet");
    vp_assert(c.m_unpackedBitSize == detail::bitSizeOf(e) && c.m_firstElementBitSize == c.m_unpackedBitSize, "sizes of the first element");
    vp_assert(c.m_previousElement == raw(e), "previous element");
    vp_cover("first");
}

// state after n >= 1 elements: packed <=> n > 1 and no delta above the limit so far
template <typename T>
void nextInit()
{
    const auto p = any<T>("previous");
    const auto e = near<T>("element", p, static_cast<uint8_t>(Unsigned<T>::BITS));
    DeltaContext c;
    const uint32_t n = vp_u32("elements");
    vp_assume(n >= 1 && n < UINT32_MAX);
    const uint8_t m = static_cast<uint8_t>(vp_uint("maxBits", 7));
    vp_assume(m <= 64 && (n > 1 || m == 0));
    const size_t total = vp_uint("unpackedBitSize", 40);
    const bool packed = n > 1 && m <= 62;
    c.m_flags = static_cast<uint8_t>(STARTED | (packed ? PACKED : 0));
    c.m_numElements = n;
    c.m_maxBitNumber = m;
    c.m_unpackedBitSize = total;
    c.m_firstElementBitSize = 8;
    c.m_previousElement = raw(p);
    initContext(c, e);
    vp_assert(c.m_numElements == n + 1, "elements are counted");
    vp_assert(c.m_unpackedBitSize == total + detail::bitSizeOf(e) && c.m_firstElementBitSize == 8, "sizes");
    const uint8_t m2 = c.m_maxBitNumber;
    vp_assert(m2 >= m && m2 <= 64, "largest delta never shrinks");
    if (m <= 62)
    {
        vp_assert(fits(raw(e), raw(p), less(p, e), m2), "the delta fits the largest delta");
        vp_assert(m2 == m || !fits(raw(e), raw(p), less(p, e), static_cast<uint8_t>(m2 - 1)), "and that is not bigger than needed");
        vp_assert(c.m_previousElement == raw(e), "previous element");
    }
    vp_assert(c.m_flags == (STARTED | (m2 <= 62 ? PACKED : 0)), "packed as long as all deltas are small enough");
    vp_cover("next");
}

// decision and first element: the announced size, the bits written and read and the decision agree
template <typename T>
void first()
{
    const auto e = any<T>("element");
    const uint32_t n = static_cast<uint32_t>(1 + vp_uint("elements", 31));
    const uint8_t m = static_cast<uint8_t>(vp_pick("maxBits", 0, 63));
    vp_assume(n > 1 || m == 0);
    const size_t own = detail::bitSizeOf(e);
    const size_t others = vp_uint("sizeOfOtherElements", 39);
    DeltaContext c;
    c.m_flags = static_cast<uint8_t>(STARTED | (n > 1 && m <= 62 ? PACKED : 0));
    c.m_numElements = n;
    c.m_maxBitNumber = m;
    c.m_unpackedBitSize = own + others;
    c.m_firstElementBitSize = static_cast<uint8_t>(own);
    c.m_previousElement = vp_u64("previous");
    DeltaContext w = c;
    const size_t size = detail::bitSizeOf(c, e, 0);
    const bool packed = (c.m_flags & PACKED) != 0;
    const uint64_t delta = m > 0 ? m + 1U : 0U;
    const uint64_t packedTotal = 7 + own + static_cast<uint64_t>(n - 1) * delta;
    vp_assert(!packed || (n > 1 && m <= 62 && packedTotal <= own + others), "packed only when it pays off");
    vp_assert(size == (packed ? 7U : 1U) + own, "announced size of the first element");

    std::array<uint8_t, 24> mem{};
    BitStreamWriter writer(Span<uint8_t>(mem.data(), mem.size()));
    detail::write(w, writer, e);
    vp_assert(writer.getBitPosition() == size, "announced size is written");
    vp_assert(((w.m_flags & PACKED) != 0) == packed && w.m_maxBitNumber == m, "writer decides the same");
    vp_assert(!packed || w.m_previousElement == raw(e), "previous element of the writer");
    BitStreamReader reader(mem.data(), mem.size());
    DeltaContext r;
    auto back = zero(e);
    readInto(r, reader, back, e);
    vp_assert(reader.getBitPosition() == size, "the reader consumes the announced size");
    vp_assert(same(back, e), "same element");
    vp_assert(((r.m_flags & PACKED) != 0) == packed, "reader knows the decision");
    vp_assert(!packed || (r.m_maxBitNumber == m && r.m_previousElement == raw(e)), "reader has the state of the writer");
    vp_assert((r.m_flags & PROCESSING) != 0 && (w.m_flags & PROCESSING) != 0 && (c.m_flags & PROCESSING) != 0, "processing started");
    vp_cover("first element");
}

// any later element: contexts of size, writer and reader in the same mode with the same previous element
template <typename T>
void next()
{
    const auto p = any<T>("previous");
    const bool packed = vp_pick("packed", 0, 1) != 0;
    const uint8_t m = packed ? static_cast<uint8_t>(vp_pick("maxBits", 0, Unsigned<T>::BITS < 62 ? Unsigned<T>::BITS : 62)) : static_cast<uint8_t>(vp_uint("unusedMaxBits", 7));
    const auto e = near<T>("element", p, packed ? m : static_cast<uint8_t>(Unsigned<T>::BITS));
    if (packed) vp_assume(fits(raw(e), raw(p), less(p, e), m));
    DeltaContext c;
    c.m_flags = static_cast<uint8_t>(STARTED | PROCESSING | (packed ? PACKED : 0));
    c.m_numElements = vp_u32("elements");
    c.m_maxBitNumber = m;
    c.m_unpackedBitSize = vp_u64("unpackedBitSize");
    c.m_previousElement = raw(p);
    DeltaContext w = c;
    DeltaContext r;
    r.m_flags = static_cast<uint8_t>(PROCESSING | (packed ? PACKED : 0));
    r.m_maxBitNumber = packed ? m : 0;
    r.m_previousElement = raw(p);
    const size_t size = detail::bitSizeOf(c, e, 0);
    std::array<uint8_t, 24> mem{};
    const size_t off = m % 8U; // reader and writer work at every offset (P01, P03)
    BitStreamWriter writer(Span<uint8_t>(mem.data(), mem.size()));
    writer.setBitPosition(off);
    detail::write(w, writer, e);
    vp_assert(writer.getBitPosition() == off + size, "announced size is written");
    vp_assert(packed ? size == (m > 0 ? m + 1U : 0U) : size == detail::bitSizeOf(e), "size of an element");
    BitStreamReader reader(mem.data(), mem.size());
    reader.setBitPosition(off);
    auto back = zero(e);
    readInto(r, reader, back, e);
    vp_assert(reader.getBitPosition() == off + size, "the reader consumes the announced size");
    vp_assert(same(back, e), "same element");
    vp_assert(!packed || (w.m_previousElement == raw(e) && r.m_previousElement == raw(e)), "previous elements agree");
    vp_assert(c.m_maxBitNumber == m && w.m_maxBitNumber == m && (!packed || r.m_maxBitNumber == m), "width unchanged");
    vp_assert((c.m_flags & PACKED) == (w.m_flags & PACKED) && (w.m_flags & PACKED) == (r.m_flags & PACKED) &&
                    ((r.m_flags & PACKED) != 0) == packed, "mode unchanged");
    vp_cover("next element");
}
} // namespace

CONTRACT(delta_first_init)
{
    onType(vp_deal("type", 0, TYPES - 1), [](auto t) { firstInit<typename decltype(t)::Type>(); });
    vp_cover("type");
}
CONTRACT(delta_next_init)
{
    onType(vp_deal("type", 0, TYPES - 1), [](auto t) { nextInit<typename decltype(t)::Type>(); });
    vp_cover("type");
}
CONTRACT(delta_first)
{
    onType(vp_deal("type", 0, TYPES - 1), [](auto t) { first<typename decltype(t)::Type>(); });
    vp_cover("type");
}
CONTRACT(delta_next)
{
    onType(vp_deal("type", 0, TYPES - 1), [](auto t) { next<typename decltype(t)::Type>(); });
    vp_cover("type");
}
