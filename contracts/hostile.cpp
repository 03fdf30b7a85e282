// Arbitrary bytes and claimed lengths: only CppRuntimeException is thrown, nothing outside the buffer is touched
// (checked on every access), and what is requested up front is bounded by the input or the preallocation limit.
#include "array_types.h"
#include "reader.h"
#include "zserio/DeltaContext.h"
using zserio::detail::DeltaContext;
namespace
{
size_t g_limit;     // of the preallocation
size_t g_requested; // elements requested last
size_t g_requests;
constexpr size_t ROOM = 64; // elements that can really be stored: more than any input here has
// Records what is asked for. Whatever is asked for, room for ROOM elements is given.
template <typename T>
struct Recorder
{
    using value_type = T;
    Recorder() = default;
    template <typename U>
    Recorder(const Recorder<U>&)
    {}
    T* allocate(size_t n)
    {
        const bool limited = n <= g_limit / sizeof(T);
        vp_assert(limited || (g_requests == 0 ? n <= 1 : n <= 2 * g_requested), "no more requested than the limit allows or elements were read");
        vp_assert(n != 0, "something is requested");
        g_requested = n;
        g_requests++;
        return static_cast<T*>(::operator new(ROOM * sizeof(T)));
    }
    void deallocate(T* p, size_t) { ::operator delete(p); }
    bool operator==(const Recorder&) const { return true; }
    bool operator!=(const Recorder&) const { return false; }
};
template <typename T, ArrayType MODE, bool PACKED>
void hostileArray(BitStreamReader& r, size_t length)
{
    using Traits = typename Setup<T>::Traits;
    zserio::detail::array_owner_type_t<Traits> owner;
    Vector<T, Recorder<T>> back;
    const size_t p = r.getBitPosition();
    bool thrown = false;
    try
    {
        if constexpr (PACKED) zserio::detail::readPackedWithTraits<MODE, Traits>(r, back, owner, length);
        else zserio::detail::readWithTraits<MODE, Traits>(r, back, owner, length);
        if constexpr (MODE == ArrayType::NORMAL || MODE == ArrayType::ALIGNED) vp_assert(back.size() == length, "all elements");
        vp_cover("read");
    }
    catch (const CppRuntimeException&)
    {
        thrown = true;
        vp_cover("refused");
    }
    catch (...)
    {
        vp_assert(false, "only CppRuntimeException is thrown");
    }
    vp_assert(r.getBitPosition() >= p && r.getBitPosition() <= r.getBufferBitSize(), "inside the buffer");
    vp_assert(back.size() <= r.getBufferBitSize() + 1 || PACKED, "no more elements than bits");
    (void)thrown;
}
template <typename T, bool PACKED>
void hostile(uint64_t mode)
{
#ifdef VP_THOROUGH
    const size_t size = vp_pick("size", 0, 3);
#else
    const size_t size = vp_pick("size", 0, 2);
#endif
    uint8_t* buf = vp_buffer("buf", size);
    g_limit = vp_uint("limit", 63);
    g_requested = 0;
    g_requests = 0;
    BitStreamReader r(Span<const uint8_t>(buf, size), zserio::ArrayPreallocation(g_limit));
    const size_t off = vp_pick("position", 0, 1) * 3;
    vp_assume(off <= size * 8);
    r.setBitPosition(off);
    if constexpr (std::is_same_v<T, String>) // the lengths in separate cases
    {
        unsigned before = static_cast<uint8_t>(vp_u8("before") & (off == 0 ? 0U : 0xE0U));
        for (size_t i = 0; i < size; i++)
        {
            const uint64_t k = vp_pick("claimed", 0, 3);
            uint8_t c = static_cast<uint8_t>(k);
            if (k == 3)
            {
                c = vp_u8("byte");
                vp_assume(c >= 3);
            }
            buf[i] = static_cast<uint8_t>(before | (c >> off));
            before = off == 0 ? 0 : static_cast<uint8_t>(c << (8 - off));
        }
    }
    size_t length = vp_u64("length");
    if (PACKED) // elements without any bit are possible, as many as claimed
    {
        vp_assume(length <= 3);
        vp_assume(size == 0 || (mode & 1U) == 0 || vp_bits("buf", off == 0 ? 0 : 3, 5) == 0 || vp_bits("buf", off == 0 ? 0 : 3, 8) >= 128);
    }
    switch (mode)
    {
    case 0: hostileArray<T, ArrayType::NORMAL, PACKED>(r, length); break;
    case 1: hostileArray<T, ArrayType::AUTO, PACKED>(r, length); break;
    case 2: hostileArray<T, ArrayType::ALIGNED, PACKED>(r, length); break;
    case 3: hostileArray<T, ArrayType::ALIGNED_AUTO, PACKED>(r, length); break;
    default:
        if constexpr (Setup<T>::FIXED && !PACKED) hostileArray<T, ArrayType::IMPLICIT, PACKED>(r, length);
        break;
    }
}
using HostileElements = Types<Bool, Int5, UInt8, Int16, UInt31, UInt64, VarInt16, VarUInt32, VarSize, VarUInt, VpColor, VpMask, Float16, Float64, DynInt16, VpObject, Bytes, String, BitBuffer>;
constexpr unsigned HOSTILE = countTypes(HostileElements());
} // namespace
CONTRACT(hostile_arrays)
{
    vp_bound("inputs of up to 2 bytes (thorough: 3) for arrays");
    const uint64_t k = vp_deal("element type and kind", 0, HOSTILE * 5 - 1);
    onTypeOf(HostileElements(), k / 5, [k](auto t) { hostile<typename decltype(t)::Type, false>(k % 5); });
    vp_cover("array");
}
// ---- packed arrays of arbitrary bytes
namespace
{
using PackedElements = Types<Bool, Int5, UInt8, Int16, UInt31, UInt64, VarInt16, VarUInt32, VarSize, VarUInt, VpColor, VpMask, DynInt16>;
constexpr unsigned PACKEDS = countTypes(PackedElements());
} // namespace
CONTRACT(hostile_packed)
{
    vp_bound("inputs of up to 2 bytes (thorough: 3) and 3 elements for packed arrays");
    const uint64_t k = vp_deal("element type and kind", 0, PACKEDS * 4 - 1);
    onTypeOf(PackedElements(), k / 4, [k](auto t) { hostile<typename decltype(t)::Type, true>(k % 4); });
    vp_cover("array");
}
// one element of a packed array, from an arbitrary state of the context and reader: packed arrays of any length
namespace
{
template <typename T>
void hostileDelta()
{
    AnyBuffer b("buf", 11);
    BitStreamReader r(b.span(), b.bitSize);
    const size_t p = anyState(r, b, static_cast<uint8_t>(vp_pick("n1", 0, 2) * 5));
    DeltaContext c;
    c.m_flags = static_cast<uint8_t>(vp_pick("flags", 0, 3) * 2);
    c.m_maxBitNumber = static_cast<uint8_t>(vp_uint("maxBits", 6));
    c.m_previousElement = vp_u64("previous");
    if ((c.m_flags & DeltaContext::IS_PACKED_FLAG) != 0 && (c.m_flags & DeltaContext::PROCESSING_STARTED_FLAG) != 0)
        c.m_maxBitNumber = static_cast<uint8_t>(vp_split(c.m_maxBitNumber, 0, 63));
    bool thrown = false;
    try
    {
        if constexpr (std::is_same_v<T, DynInt16>)
        {
            DynInt16 e;
            zserio::detail::read(c, r, e, static_cast<uint8_t>(vp_pick("bits", 0, 2) * 5 + 1));
        }
        else
        {
            T e{};
            zserio::detail::read(c, r, e);
        }
        vp_cover("read");
    }
    catch (const CppRuntimeException&)
    {
        thrown = true;
        vp_cover("refused");
    }
    vp_assert(c.m_maxBitNumber <= 63, "the context stays usable");
    vp_assert(r.getBitPosition() >= p && r.getBitPosition() <= b.bitSize, "inside the buffer");
    vp_assert(thrown || (c.m_flags & DeltaContext::PROCESSING_STARTED_FLAG) != 0, "started");
}
using DeltaElements = Types<Bool, Int5, UInt8, Int16, UInt31, Int33, UInt64, Int64, VarInt16, VarUInt32, VarSize, VarUInt, VarInt, VpMask, DynInt16>;
constexpr unsigned DELTAS = countTypes(DeltaElements());
} // namespace
CONTRACT(hostile_delta)
{
    onTypeOf(DeltaElements(), vp_deal("element type", 0, DELTAS - 1), [](auto t) { hostileDelta<typename decltype(t)::Type>(); });
    vp_cover("element");
}
// ---- what strings, bytes and bit buffers request
namespace
{
size_t g_most; // bytes that may be requested
template <typename T>
struct Meter
{
    using value_type = T;
    Meter() = default;
    template <typename U>
    Meter(const Meter<U>&)
    {}
    T* allocate(size_t n)
    {
        vp_assert(n <= g_most, "no more requested than the input has");
        vp_assume(n <= 3); // what follows for any length: read_claimed of bytes.cpp
        return static_cast<T*>(::operator new(n * sizeof(T)));
    }
    void deallocate(T* p, size_t) { ::operator delete(p); }
    bool operator==(const Meter&) const { return true; }
    bool operator!=(const Meter&) const { return false; }
};
} // namespace
CONTRACT(hostile_claims)
{
    const unsigned part = static_cast<unsigned>(vp_deal("kind", 0, 12));
    const unsigned kind = part < 5 ? part : 5, rest = part < 5 ? 0 : part - 5; // 5: aligned bit buffer, by bits in the last byte
    const size_t q = vp_size("qByte", 40), space = vp_size("space", 33);
    const size_t size = q + (kind >= 2 && kind < 5 ? vp_pick("bytes", 1, 3) : space + 10);
    uint8_t* buf = vp_buffer("buf", size);
    BitStreamReader r(Span<const uint8_t>(buf, size));
    r.setBitPosition(q * 8 + (kind >= 2 && kind < 5 ? 3 : 0)); // 2, 3 and 4: not at a byte boundary
    g_most = size - q + 1; // a string has a terminator
    try
    {
        if (kind == 5)
        {
            BitStreamReader t(Span<const uint8_t>(buf, size));
            t.setBitPosition(q * 8);
            const uint32_t claimed = t.readVarSize();
            vp_assume(claimed % 8 == rest);
        }
        if (kind == 0 || kind == 2) (void)r.readBytes<Meter<uint8_t>>();
        else if (kind == 1 || kind == 3) (void)r.readString<Meter<char>>();
        else (void)r.readBitBuffer<Meter<uint8_t>>();
        vp_cover("read");
    }
    catch (const CppRuntimeException&)
    {
        vp_cover("refused");
    }
    vp_assert(r.getBitPosition() <= size * 8, "inside the buffer");
}
