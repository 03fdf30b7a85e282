#include "reader.h"

// P01/P02: in any state, one read: value, position, failure
CONTRACT(read_u64)
{
    AnyBuffer b;
    BitStreamReader r(b.span(), b.bitSize);
    const uint8_t n1 = static_cast<uint8_t>(vp_deal("n1", 0, 64));
    const size_t q = b.q;
    vp_assume(q <= b.bitSize);
    r.setBitPosition(q);
    vp_assert(r.getBitPosition() == q, "position set");
    if (n1 != 0)
    {
        vp_assume(q + n1 <= b.bitSize);
        const uint64_t v1 = r.readUnsignedBits64(n1);
        vp_assert(r.getBitPosition() == q + n1, "first position");
        vp_assert(v1 == vp_bits("buf", q, n1), "first value");
    }
    const size_t p = q + n1;
    const uint8_t n = static_cast<uint8_t>(vp_pick("n", 0, 65));
    bool thrown = false;
    uint64_t v = 0;
    try
    {
        v = r.readUnsignedBits64(n);
    }
    catch (const CppRuntimeException&)
    {
        thrown = true;
    }
    if (n == 0 || n > 64)
    {
        vp_assert(thrown, "bad width rejected");
        vp_assert(r.getBitPosition() == p, "not moved");
        return;
    }
    if (p + n > b.bitSize)
    {
        vp_assert(thrown, "past the end rejected");
        return;
    }
    vp_assert(!thrown, "read succeeds");
    vp_assert(r.getBitPosition() == p + n, "position advanced");
    vp_assert(v == vp_bits("buf", p, n), "value");
    vp_cover("value read");
}

// widths the result type cannot hold are refused without moving, in any state
CONTRACT(read_bad_width)
{
    AnyBuffer b;
    BitStreamReader r(b.span(), b.bitSize);
    const uint8_t n1 = static_cast<uint8_t>(vp_deal("n1", 0, 64));
    const size_t p = anyState(r, b, n1);
    const uint8_t n = vp_u8("n");
    const uint8_t kind = static_cast<uint8_t>(vp_pick("kind", 0, 3));
    vp_assume(n == 0 || n > (kind < 2 ? 32 : 64));
    bool thrown = false;
    try
    {
        if (kind == 0) (void)r.readUnsignedBits32(n);
        if (kind == 1) (void)r.readSignedBits32(n);
        if (kind == 2) (void)r.readUnsignedBits64(n);
        if (kind == 3) (void)r.readSignedBits64(n);
    }
    catch (const CppRuntimeException&)
    {
        thrown = true;
    }
    vp_assert(thrown, "bad width rejected");
    vp_assert(r.getBitPosition() == p, "not moved");
    vp_cover("rejected");
    const uint8_t m = static_cast<uint8_t>(vp_pick("m", 0, 1)) != 0 ? 64 : 3;
    vp_assume(p + m <= b.bitSize);
    vp_assert(r.readUnsignedBits64(m) == vp_bits("buf", p, m), "next read unaffected");
}

// the other fixed-width reads agree with readUnsignedBits64 from the same state
CONTRACT(read_kinds)
{
    AnyBuffer b;
    BitStreamReader r(b.span(), b.bitSize);
    const uint8_t n1 = static_cast<uint8_t>(vp_deal("n1", 0, 64));
    const size_t p = anyState(r, b, n1);
    const uint8_t kind = static_cast<uint8_t>(vp_pick("kind", 0, 3));
    uint8_t n = static_cast<uint8_t>(vp_pick("n", 1, 64));
    if (kind < 2) vp_assume(n <= 32);
    if (kind == 3) vp_assume(n == 1);
    bool thrown = false;
    uint64_t v = 0;
    try
    {
        if (kind == 0) v = r.readUnsignedBits32(n);
        if (kind == 1) v = static_cast<uint64_t>(static_cast<int64_t>(r.readSignedBits32(n)));
        if (kind == 2) v = static_cast<uint64_t>(r.readSignedBits64(n));
        if (kind == 3) v = static_cast<bool>(r.readBool()) ? 1 : 0;
    }
    catch (const CppRuntimeException&)
    {
        thrown = true;
    }
    if (p + n > b.bitSize)
    {
        vp_assert(thrown, "past the end rejected");
        return;
    }
    vp_assert(!thrown, "read succeeds");
    vp_assert(r.getBitPosition() == p + n, "position advanced");
    const uint64_t e = vp_bits("buf", p, n);
    vp_assert(v == (kind == 1 || kind == 2 ? static_cast<uint64_t>(vp_sext(e, n)) : e), "value");
    vp_cover("value read");
}

// moving to any bit: the next read starts exactly there
CONTRACT(set_position)
{
    AnyBuffer b("buf", 10);
    BitStreamReader r(b.span(), b.bitSize);
    const uint8_t n1 = static_cast<uint8_t>(vp_deal("n1", 0, 64));
    // previous position: anywhere at least a full cache before the end, or close to the target
    size_t q0 = b.q;
    if (vp_pick("elsewhere", 0, 1) != 0)
    {
        q0 = vp_size("q0Byte", 40) * 8;
        vp_assume(q0 + 64 <= b.bitSize);
    }
    const size_t p = q0 + n1;
    vp_assume(p <= b.bitSize);
    r.setBitPosition(q0);
    if (n1 != 0) (void)r.readUnsignedBits64(n1);
    const size_t t = b.q + vp_pick("k", 0, 7);
    bool thrown = false;
    try
    {
        r.setBitPosition(t);
    }
    catch (const CppRuntimeException&)
    {
        thrown = true;
    }
    if (t > b.bitSize)
    {
        vp_assert(thrown, "position past the end refused");
        vp_assert(r.getBitPosition() == p, "not moved");
        const uint8_t m = 9;
        vp_assume(p + m <= b.bitSize);
        vp_assert(r.readUnsignedBits64(m) == vp_bits("buf", p, m), "next read unaffected");
        vp_cover("refused");
        return;
    }
    vp_assert(!thrown, "valid position accepted");
    vp_assert(r.getBitPosition() == t, "moved");
    const uint8_t m = static_cast<uint8_t>(vp_pick("m", 0, 1)) != 0 ? 64 : 11;
    vp_assume(t + m <= b.bitSize);
    vp_assert(r.readUnsignedBits64(m) == vp_bits("buf", t, m), "reads at the new position");
    vp_assert(r.getBitPosition() == t + m, "position after");
    vp_cover("moved and read");
}

// one byte past the last full byte: positions beyond the end are always refused
CONTRACT(set_position_past)
{
    AnyBuffer b("buf", 1);
    BitStreamReader r(b.span(), b.bitSize);
    const uint8_t n1 = static_cast<uint8_t>(vp_deal("n1", 0, 64));
    const size_t p = anyState(r, b, n1);
    const size_t t = vp_u64("t");
    vp_assume(t > b.bitSize);
    bool thrown = false;
    try
    {
        r.setBitPosition(t);
    }
    catch (const CppRuntimeException&)
    {
        thrown = true;
    }
    vp_assert(thrown, "position past the end refused");
    vp_assert(r.getBitPosition() == p, "not moved");
    vp_cover("refused");
}
