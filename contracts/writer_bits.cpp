#include "writer.h"
namespace
{
enum Outcome { OK, REJECTED, NOCAP };
Outcome writeAny(BitStreamWriter& w, unsigned kind, uint64_t v, uint8_t n)
{
    try
    {
        switch (kind)
        {
        case 0: w.writeUnsignedBits64(v, n); break;
        case 1: w.writeUnsignedBits32(static_cast<uint32_t>(v), n); break;
        case 2: w.writeSignedBits64(static_cast<int64_t>(v), n); break;
        case 3: w.writeSignedBits32(static_cast<int32_t>(static_cast<uint32_t>(v)), n); break;
        default: w.writeBool(v != 0); break;
        }
    }
    catch (const BitStreamWriter::InsufficientCapacityException&)
    {
        return NOCAP;
    }
    catch (const CppRuntimeException&)
    {
        return REJECTED;
    }
    return OK;
}
bool fits(unsigned kind, uint64_t v, uint8_t n)
{
    switch (kind)
    {
    case 0: return n == 64 || (v >> n) == 0;
    case 1: return (static_cast<uint64_t>(static_cast<uint32_t>(v)) >> n) == 0;
    case 2: return vp_sext(v, n) == static_cast<int64_t>(v);
    case 3:
    {
        const int64_t s = static_cast<int32_t>(static_cast<uint32_t>(v));
        return vp_sext(static_cast<uint64_t>(s), n) == s;
    }
    default: return true;
    }
}
} // namespace

CONTRACT(write_bits)
{
    const uint8_t n = static_cast<uint8_t>(vp_deal("n", 1, 64));
    AnyBuffer b("buf", 10);
    BitStreamWriter w(b.span2(), b.bitSize);
    const size_t p = b.q + vp_pick("k", 0, 7);
    vp_assume(p <= b.bitSize);
    w.setBitPosition(p);
    vp_assert(w.getBitPosition() == p, "position set");
    const unsigned kind = static_cast<unsigned>(vp_pick("kind", 0, 4));
    vp_assume(kind % 2 == 0 || n <= 32);
    vp_assume(kind < 4 || n == 1);
    const uint64_t v = vp_u64("v");
    const Outcome o = writeAny(w, kind, v, n);
    if (!fits(kind, v, n))
    {
        vp_assert(o == REJECTED, "value out of range rejected");
        vp_assert(w.getBitPosition() == p, "rejected: not moved");
        vp_assert(untouched(b, "buf"), "rejected: nothing changed");
        vp_cover("rejected");
        return;
    }
    if (p + n > b.bitSize)
    {
        vp_assert(o == NOCAP, "insufficient capacity reported");
        vp_assert(w.getBitPosition() >= p && w.getBitPosition() <= b.bitSize, "position stays inside");
        vp_assert(p == b.bitSize ? untouched(b, "buf") : untouchedOutside(b, "buf", p, b.bitSize - p), "no capacity: nothing changed before the position");
        if (n <= 32) vp_assert(untouched(b, "buf") && w.getBitPosition() == p, "no capacity: nothing changed");
        return;
    }
    vp_assert(o == OK, "accepted");
    vp_assert(w.getBitPosition() == p + n, "position advanced");
    const uint64_t bits = kind == 4 ? static_cast<uint64_t>(v != 0) : n == 64 ? v : v & ((UINT64_C(1) << n) - 1);
    vp_assert(vp_membits(b.data, b.size, p, n) == bits, "bits stored");
    vp_assert(untouchedOutside(b, "buf", p, n), "all other bits unchanged");
    vp_cover("written");
}

CONTRACT(write_bad_width)
{
    AnyBuffer b("buf", 2);
    BitStreamWriter w(b.span2(), b.bitSize);
    const size_t p = b.q + vp_pick("k", 0, 7);
    vp_assume(p <= b.bitSize);
    w.setBitPosition(p);
    const unsigned kind = static_cast<unsigned>(vp_pick("kind", 0, 3));
    const uint8_t n = vp_u8("n");
    vp_assume(n == 0 || n > (kind % 2 == 0 ? 64 : 32));
    vp_assert(writeAny(w, kind, vp_u64("v"), n) == REJECTED, "unsupported width rejected");
    vp_assert(w.getBitPosition() == p, "not moved");
    vp_assert(untouched(b, "buf"), "nothing changed");
    vp_cover("rejected");
}

// without a buffer: counts only, and reaches the position a big enough buffer would give
CONTRACT(write_counting)
{
    BitStreamWriter w(nullptr, 0);
    const size_t p = vp_size("p", 60);
    w.setBitPosition(p);
    vp_assert(w.getBitPosition() == p, "position set");
    const unsigned kind = static_cast<unsigned>(vp_pick("kind", 0, 4));
    const uint8_t n = static_cast<uint8_t>(vp_pick("n", 1, 64));
    vp_assume(kind % 2 == 0 || n <= 32);
    vp_assume(kind < 4 || n == 1);
    const uint64_t v = vp_u64("v");
    const Outcome o = writeAny(w, kind, v, n);
    if (!fits(kind, v, n))
    {
        vp_assert(o == REJECTED, "value out of range rejected");
        vp_assert(w.getBitPosition() == p, "not moved");
        return;
    }
    vp_assert(o == OK, "accepted");
    vp_assert(w.getBitPosition() == p + n, "position advanced");
    vp_cover("counted");
}

CONTRACT(write_position)
{
    AnyBuffer b("buf", 1);
    BitStreamWriter w(b.span2(), b.bitSize);
    const size_t p = b.q;
    vp_assume(p <= b.bitSize);
    w.setBitPosition(p);
    const size_t t = vp_u64("t");
    bool nocap = false;
    try
    {
        w.setBitPosition(t);
    }
    catch (const BitStreamWriter::InsufficientCapacityException&)
    {
        nocap = true;
    }
    vp_assert(nocap == (t > b.bitSize), "position past the end refused");
    vp_assert(w.getBitPosition() == (nocap ? p : t), "position");
    vp_assert(untouched(b, "buf"), "nothing changed");
    vp_assert(w.hasWriteBuffer(), "has a buffer");
    vp_assert(w.getWriteBuffer() == b.data && w.getBuffer().size() == b.size, "buffer");
    vp_cover("moved");
}

CONTRACT(writer_size_check)
{
    const size_t size = vp_size("size", 44);
    uint8_t* buf = vp_buffer("buf", size);
    const size_t bitSize = vp_u64("bitSize");
    bool thrown = false;
    try
    {
        BitStreamWriter w(Span<uint8_t>(buf, size), bitSize);
        vp_assert(w.getBitPosition() == 0, "starts at the beginning");
        bool refused = false;
        try
        {
            w.setBitPosition(bitSize);
        }
        catch (const BitStreamWriter::InsufficientCapacityException&)
        {
            refused = true;
        }
        vp_assert(!refused, "the whole declared size is usable");
    }
    catch (const CppRuntimeException&)
    {
        thrown = true;
    }
    vp_assert(thrown == (bitSize > size * 8), "size check");
    vp_cover("checked");
}
CONTRACT(writer_ctors)
{
    const size_t size = vp_size("size", 44);
    uint8_t* buf = vp_buffer("buf", size);
    const unsigned kind = static_cast<unsigned>(vp_pick("kind", 0, 2));
    const size_t bits = kind == 2 && size > 0 ? size * 8 - vp_uint("spare", 3) : size * 8;
    const size_t t = vp_u64("t");
    bool nocap = false;
    try
    {
        if (kind == 0) { BitStreamWriter w(buf, size); w.setBitPosition(t); }
        if (kind == 1) { BitStreamWriter w(Span<uint8_t>(buf, size)); w.setBitPosition(t); }
        if (kind == 2) { BitStreamWriter w(buf, bits, BitsTag()); w.setBitPosition(t); }
    }
    catch (const BitStreamWriter::InsufficientCapacityException&)
    {
        nocap = true;
    }
    vp_assert(nocap == (t > bits), "capacity is the declared size");
    vp_cover("checked");
}
