#include "reader.h"

namespace
{
// every kind of read of the public interface; true if it threw
bool readAny(BitStreamReader& r, unsigned kind, uint8_t n)
{
    try
    {
        switch (kind)
        {
        case 0: (void)r.readUnsignedBits64(n); break;
        case 1: (void)r.readUnsignedBits32(n); break;
        case 2: (void)r.readSignedBits64(n); break;
        case 3: (void)r.readSignedBits32(n); break;
        case 4: (void)r.readBool(); break;
        case 5: (void)r.readVarInt16(); break;
        case 6: (void)r.readVarInt32(); break;
        case 7: (void)r.readVarInt64(); break;
        case 8: (void)r.readVarInt(); break;
        case 9: (void)r.readVarUInt16(); break;
        case 10: (void)r.readVarUInt32(); break;
        case 11: (void)r.readVarUInt64(); break;
        case 12: (void)r.readVarUInt(); break;
        case 13: (void)r.readVarSize(); break;
        case 14: (void)r.readFloat16(); break;
        case 15: (void)r.readFloat32(); break;
        case 16: (void)r.readFloat64(); break;
        case 17: r.alignTo(n); break;
        default: (void)r.readBytes<>(); break;
        }
    }
    catch (const CppRuntimeException&)
    {
        return true;
    }
    return false;
}

// the reader is usable: position inside, and the next m bits are the true ones (or are refused)
void probe(BitStreamReader& r, const AnyBuffer& b, uint8_t m)
{
    const size_t p = r.getBitPosition();
    vp_assert(p <= b.bitSize, "position inside the buffer");
    bool thrown = false;
    uint64_t v = 0;
    try
    {
        v = r.readUnsignedBits64(m);
    }
    catch (const CppRuntimeException&)
    {
        thrown = true;
    }
    vp_assert(thrown == (p + m > b.bitSize), "later read succeeds exactly if inside");
    if (!thrown)
    {
        vp_assert(r.getBitPosition() == p + m, "later position");
        vp_assert(v == vp_bits("buf", p, m), "later read returns the true bits");
    }
}
} // namespace

// a fixed-width read that needs more bits than there are: throws, and the reader stays usable
CONTRACT(failed_bits)
{
    AnyBuffer b("buf", 17);
    BitStreamReader r(b.span(), b.bitSize);
    const uint8_t n1 = static_cast<uint8_t>(vp_deal("n1", 0, 64));
    const size_t p = anyState(r, b, n1);
    const uint8_t n = static_cast<uint8_t>(vp_uint("n", 7));
    vp_assume(n >= 1 && n <= 64 && p + n > b.bitSize);
    vp_assert(readAny(r, 0, n), "past the end rejected");
    vp_cover("failed");
    probe(r, b, static_cast<uint8_t>(vp_pick("m", 0, 2) * 7 + 1));
}

// after a failed read the reader can be repositioned and reads the true bits there
CONTRACT(failed_then_moved)
{
    AnyBuffer b("buf", 9);
    BitStreamReader r(b.span(), b.bitSize);
    const uint8_t n1 = static_cast<uint8_t>(vp_deal("n1", 0, 64));
    const size_t p = anyState(r, b, n1);
    const uint8_t n = static_cast<uint8_t>(vp_uint("n", 7));
    vp_assume(n >= 1 && n <= 64 && p + n > b.bitSize);
    vp_assert(readAny(r, 0, n), "past the end rejected");
    const size_t t = b.q + vp_pick("k", 0, 9);
    vp_assume(t <= b.bitSize);
    r.setBitPosition(t);
    vp_assert(r.getBitPosition() == t, "moved");
    vp_cover("moved");
    probe(r, b, static_cast<uint8_t>(vp_pick("m", 0, 1) * 30 + 3));
}

// every kind of read near the end of the buffer (any content): stays inside, throws or not, and the reader stays usable
CONTRACT(any_read_near_end)
{
    const unsigned kind = static_cast<unsigned>(vp_deal("kind", 0, 17));
    AnyBuffer b("buf", 11);
    BitStreamReader r(b.span(), b.bitSize);
    const uint8_t n1 = static_cast<uint8_t>(vp_pick("n1", 0, 9));
    vp_assume(n1 < 8 || n1 == 9);
    const size_t p = anyState(r, b, n1);
    const uint8_t n = static_cast<uint8_t>(kind < 4 ? vp_pick("n", 0, 3) * 11 + 1 : kind == 17 ? 8 : 0);
    (void)readAny(r, kind, n);
    vp_assert(r.getBitPosition() >= p, "never moves back");
    vp_cover("done");
    probe(r, b, static_cast<uint8_t>(vp_pick("m", 0, 1) * 12 + 1));
}

// constructors: a declared bit size that the buffer does not have is refused
CONTRACT(reader_size_check)
{
    const size_t size = vp_size("size", 44);
    uint8_t* buf = vp_buffer("buf", size);
    const size_t bitSize = vp_u64("bitSize");
    bool thrown = false;
    try
    {
        BitStreamReader r(Span<const uint8_t>(buf, size), bitSize);
        vp_assert(r.getBufferBitSize() == bitSize, "bit size");
        vp_assert(r.getBitPosition() == 0, "starts at the beginning");
    }
    catch (const CppRuntimeException&)
    {
        thrown = true;
    }
    vp_assert(thrown == (bitSize > size * 8), "size check");
    vp_cover("checked");
}
CONTRACT(reader_bytes_ctor)
{
    const size_t size = vp_size("size", 44);
    uint8_t* buf = vp_buffer("buf", size);
    BitStreamReader r1(buf, size);
    BitStreamReader r2(Span<const uint8_t>(buf, size));
    vp_assert(r1.getBufferBitSize() == size * 8, "bit size of bytes");
    vp_assert(r2.getBufferBitSize() == size * 8, "bit size of span");
    vp_cover("constructed");
    const uint8_t n = static_cast<uint8_t>(vp_pick("n", 1, 64));
    vp_assume(n <= size * 8);
    vp_assert(r1.readUnsignedBits64(n) == vp_bits("buf", 0, n), "first bits");
    vp_assert(r2.readUnsignedBits64(n) == vp_bits("buf", 0, n), "first bits of span");
}
