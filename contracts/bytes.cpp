// Bytes, strings and bit buffers: round trip at any position. Aligned positions: any length.
#include "writer.h"
#include "zserio/BitBuffer.h"
#include "zserio/Bytes.h"
#include "zserio/String.h"
namespace
{
// any length whose varsize (of length * unit) has `bytes` bytes; short lengths (everything lies near the end of the
// buffer) are cases of their own
struct AnyLength
{
    size_t n;
    unsigned bytes;
    explicit AnyLength(unsigned unitBits)
    {
        n = vp_pick("length up to 8", 0, 8);
        bytes = 1;
        if (n < 8) return;
        bytes = static_cast<unsigned>(vp_pick("size class", 1, 5));
        n = vp_size("length", (bytes == 5 ? 31 : 7 * bytes) - unitBits);
        vp_assume(n >= 8 && (bytes == 1 || n >= UINT64_C(1) << (7 * (bytes - 1) - unitBits)));
    }
};
struct Place // a writer at byte position q of a buffer that has room for `need` bytes and any number more
{
    size_t q, size;
    uint8_t* buf;
    explicit Place(size_t need, size_t more)
    {
        q = vp_size("qByte", 40);
        size = q + need + (more < 10 ? more : 10 + vp_size("spare", 40));
        buf = vp_buffer("buf", size);
    }
};
} // namespace

CONTRACT(bytes_aligned)
{
    const size_t more = vp_deal("spare up to 10", 0, 10);
    const AnyLength l(0);
    const size_t len = l.n;
    uint8_t* data = vp_buffer("data", len);
    const size_t sb = l.bytes;
    const size_t need = sb + len;
    const Place b(need, more);
    BitStreamWriter w(Span<uint8_t>(b.buf, b.size));
    w.setBitPosition(b.q * 8);
    const bool str = vp_pick("string", 0, 1) != 0;
    if (str) w.writeString(std::string_view(reinterpret_cast<const char*>(data), len));
    else w.writeBytes(BytesView(data, len));
    vp_assert(w.getBitPosition() == (b.q + need) * 8, "position of the writer");
    BitStreamReader r(Span<const uint8_t>(b.buf, b.size));
    r.setBitPosition(b.q * 8);
    const size_t j = vp_size("anyByte", 31);
    if (str)
    {
        const String s = r.readString();
        vp_assert(s.size() == len, "length of the string");
        vp_assert(j >= len || static_cast<uint8_t>(s[j]) == data[j], "characters");
    }
    else
    {
        const Bytes s = r.readBytes();
        vp_assert(s.size() == len, "length of the bytes");
        vp_assert(j >= len || s[j] == data[j], "content");
    }
    vp_assert(r.getBitPosition() == (b.q + need) * 8, "position of the reader");
    vp_assert(j >= len || b.buf[b.q + sb + j] == vp_byte("data", j), "consecutive bytes after the length");
    vp_cover("round trip");
    const size_t o = vp_size("otherByte", 42);
    if (vp_pick("after", 0, 1) != 0) vp_assume(o >= b.q + need && o < b.size);
    else vp_assume(o < b.q);
    vp_assert(b.buf[o] == vp_byte("buf", o), "nothing else is changed");
}
CONTRACT(bit_buffer_aligned)
{
    const size_t part = vp_deal("rest and spare", 0, 87);
    const unsigned rest = static_cast<unsigned>(part % 8);
    const size_t more = part / 8;
    const AnyLength l(3);
    const size_t full = l.n;
    const size_t bits = full * 8 + rest;
    const size_t used = full + (rest != 0 ? 1 : 0);
    uint8_t* data = vp_buffer("data", used);
    const size_t sb = l.bytes;
    const size_t need = sb + used;
    const Place b(need, more);
    BitStreamWriter w(Span<uint8_t>(b.buf, b.size));
    w.setBitPosition(b.q * 8);
    const BitBuffer x(Span<const uint8_t>(data, used), bits);
    w.writeBitBuffer(x);
    vp_assert(w.getBitPosition() == (b.q + sb) * 8 + bits, "position of the writer");
    BitStreamReader r(Span<const uint8_t>(b.buf, b.size));
    r.setBitPosition(b.q * 8);
    const BitBuffer y = r.readBitBuffer();
    vp_assert(y.getBitSize() == bits, "bit size");
    vp_assert(r.getBitPosition() == (b.q + sb) * 8 + bits, "position of the reader");
    const size_t j = vp_size("anyByte", 31);
    vp_assert(j >= full || y.getBuffer()[j] == data[j], "full bytes");
    if (rest != 0) vp_assert((y.getBuffer()[full] >> (8 - rest)) == (data[full] >> (8 - rest)), "last bits");
    vp_assert(j >= full || b.buf[b.q + sb + j] == vp_byte("data", j), "consecutive bytes after the length");
    if (rest != 0)
    {
        const uint8_t last = b.buf[b.q + sb + full];
        vp_assert((last >> (8 - rest)) == (data[full] >> (8 - rest)), "last bits in the stream");
        vp_assert(((last ^ vp_byte("buf", b.q + sb + full)) & (0xFFU >> rest)) == 0, "bits behind are not changed");
    }
    vp_cover("round trip");
    const size_t o = vp_size("otherByte", 42);
    if (vp_pick("after", 0, 1) != 0) vp_assume(o >= b.q + need && o < b.size);
    else vp_assume(o < b.q);
    vp_assert(b.buf[o] == vp_byte("buf", o), "nothing else is changed");
}
CONTRACT(unaligned)
{
    vp_bound("unaligned bytes, strings and bit buffers: at most 3 bytes");
    const unsigned k = static_cast<unsigned>(vp_deal("k", 1, 7));
    const unsigned kind = static_cast<unsigned>(vp_pick("kind", 0, 2));
    const size_t len = vp_pick("len", 0, 3);
    const unsigned rest = kind == 2 && len < 3 ? static_cast<unsigned>(vp_pick("rest", 0, 7)) : 0;
    uint8_t* data = vp_buffer("data", len + (rest != 0 ? 1 : 0));
    AnyBuffer b("buf", 6, 1, 0, 5, 16);
    BitStreamWriter w(b.span2(), b.bitSize);
    const size_t p = b.q + k;
    w.setBitPosition(p);
    const size_t bits = len * 8 + rest;
    const size_t e = p + 8 + bits;
    vp_assume(e <= b.bitSize);
    const BitBuffer x(Span<const uint8_t>(data, len + (rest != 0 ? 1 : 0)), bits);
    if (kind == 0) w.writeBytes(BytesView(data, len));
    else if (kind == 1) w.writeString(std::string_view(reinterpret_cast<const char*>(data), len));
    else w.writeBitBuffer(x);
    vp_assert(w.getBitPosition() == e, "position of the writer");
    BitStreamReader r(Span<const uint8_t>(b.data, b.size), b.bitSize);
    r.setBitPosition(p);
    if (kind == 0)
    {
        const Bytes s = r.readBytes();
        vp_assert(s.size() == len, "length of the bytes");
        for (size_t i = 0; i < len; i++) vp_assert(s[i] == data[i], "content");
    }
    else if (kind == 1)
    {
        const String s = r.readString();
        vp_assert(s.size() == len, "length of the string");
        for (size_t i = 0; i < len; i++) vp_assert(static_cast<uint8_t>(s[i]) == data[i], "characters");
    }
    else
    {
        const BitBuffer y = r.readBitBuffer();
        vp_assert(y.getBitSize() == bits, "bit size");
        vp_assert(x == y, "equal bit buffers");
    }
    vp_assert(r.getBitPosition() == e, "position of the reader");
    for (size_t i = 0; i < len; i++) vp_assert(vp_membits(b.data, b.size, p + 8 + i * 8, 8) == data[i], "consecutive bits after the length");
    vp_assert(vp_membits(b.data, b.size, p, 8) == (kind == 2 ? bits : len), "length first");
    vp_cover("round trip");
    vp_assert(untouchedOutside(b, "buf", p, e - p), "nothing else is changed");
}
// a reader at any position and any claimed length: succeeds exactly if the value lies inside the buffer
CONTRACT(read_claimed)
{
    const unsigned kind = static_cast<unsigned>(vp_deal("kind", 0, 2));
    const size_t q = vp_size("qByte", 40), space = vp_size("space", 33);
    const size_t size = q + 10 + space;
    uint8_t* buf = vp_buffer("buf", size);
    BitStreamReader r(Span<const uint8_t>(buf, size));
    r.setBitPosition(q * 8);
    uint64_t claimed = 0;
    try
    {
        BitStreamReader t(Span<const uint8_t>(buf, size));
        t.setBitPosition(q * 8);
        claimed = t.readVarSize();
    }
    catch (const CppRuntimeException&)
    {
        return;
    }
    vp_assume(kind != 2 || claimed % 8 == 0); // others: bit_buffer_aligned
    bool thrown = false;
    size_t got = 0;
    const size_t j = vp_size("anyByte", 31);
    uint8_t c = 0;
    const size_t bytes = kind == 2 ? claimed / 8 : claimed;
    try
    {
        if (kind == 0) { const Bytes s = r.readBytes(); got = s.size(); if (j < got) c = s[j]; }
        else if (kind == 1) { const String s = r.readString(); got = s.size(); if (j < got) c = static_cast<uint8_t>(s[j]); }
        else { const BitBuffer s = r.readBitBuffer(); got = s.getByteSize(); if (j < got) c = s.getBuffer()[j]; }
    }
    catch (const CppRuntimeException&)
    {
        thrown = true;
    }
    if (thrown) { vp_cover("refused"); return; }
    vp_cover("read");
    vp_assert(got == bytes, "claimed length");
    vp_assert(r.getBitPosition() <= size * 8, "inside the buffer");
    vp_assert(j >= got || c == vp_byte("buf", r.getBitPosition() / 8 - bytes + j), "content");
}
