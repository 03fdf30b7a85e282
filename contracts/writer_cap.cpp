#include "writer.h"
#include "zserio/Bytes.h"
#include <string_view>
namespace
{
struct Args
{
    unsigned kind;
    uint64_t v;
    const uint8_t* data;
    size_t len;
    double d;
};
void call(BitStreamWriter& w, const Args& a)
{
    switch (a.kind)
    {
    case 0: w.writeVarInt16(static_cast<int16_t>(a.v)); break;
    case 1: w.writeVarInt32(static_cast<int32_t>(static_cast<uint32_t>(a.v))); break;
    case 2: w.writeVarInt64(static_cast<int64_t>(a.v)); break;
    case 3: w.writeVarInt(static_cast<int64_t>(a.v)); break;
    case 4: w.writeVarUInt16(static_cast<uint16_t>(a.v)); break;
    case 5: w.writeVarUInt32(static_cast<uint32_t>(a.v)); break;
    case 6: w.writeVarUInt64(a.v); break;
    case 7: w.writeVarUInt(a.v); break;
    case 8: w.writeVarSize(static_cast<uint32_t>(a.v)); break;
    case 9: w.writeFloat16(1.5F); break;
    case 10: w.writeFloat32(1.5F); break;
    case 11: w.writeFloat64(1.5); break;
    case 12: w.alignTo(static_cast<size_t>(a.len)); break;
    case 13: w.writeBytes(BytesView(a.data, a.len)); break;
    default: w.writeString(std::string_view(reinterpret_cast<const char*>(a.data), a.len)); break;
    }
}
enum Outcome { OK, REJECTED, NOCAP };
Outcome attempt(BitStreamWriter& w, const Args& a)
{
    try
    {
        call(w, a);
    }
    catch (const BitStreamWriter::InsufficientCapacityException&)
    {
        return NOCAP;
    }
    catch (const CppRuntimeException&)
    {
        return REJECTED;
    }
    return OK;
}
// writes anything near the end of the buffer and compares with a writer without buffer
void capacity(const Args& a, unsigned nearBytes, unsigned k)
{
    AnyBuffer b("buf", nearBytes);
    BitStreamWriter w(b.span2(), b.bitSize);
    BitStreamWriter c(nullptr, 0);
    const size_t p = b.q + k;
    vp_assume(p <= b.bitSize);
    w.setBitPosition(p);
    c.setBitPosition(p);
    const Outcome o = attempt(w, a);
    const Outcome oc = attempt(c, a);
    const size_t e = c.getBitPosition();
    vp_assert(oc != NOCAP, "counting never runs out of capacity");
    if (oc == REJECTED)
    {
        vp_assert(o == REJECTED, "rejected alike");
        return;
    }
    vp_assert(o == (e > b.bitSize ? NOCAP : OK), "throws exactly if the space is missing");
    vp_assert(w.getBitPosition() <= b.bitSize, "position inside");
    if (o == OK)
    {
        vp_assert(w.getBitPosition() == e, "same position as counting");
        vp_cover("written");
    }
    else
    {
        vp_cover("refused");
    }
    const size_t end = o == OK ? e : b.bitSize;
    vp_assert(end == p ? untouched(b, "buf") : untouchedOutside(b, "buf", p, end - p), "nothing stored outside");
}
} // namespace

CONTRACT(capacity_var)
{
    Args a{};
    a.kind = static_cast<unsigned>(vp_deal("kind", 0, 11));
    a.v = vp_u64("v");
    if (a.kind < 9) // the value has the range of the type
    {
        static const unsigned bits[9] = {14, 28, 56, 63, 15, 29, 57, 64, 31};
        if (a.kind < 4) { if (a.kind < 3) vp_assume(static_cast<int64_t>(a.v) > -(INT64_C(1) << bits[a.kind]) && static_cast<int64_t>(a.v) < (INT64_C(1) << bits[a.kind])); }
        else if (a.kind != 7) vp_assume(a.v < (UINT64_C(1) << bits[a.kind]));
    }
    capacity(a, 10, static_cast<unsigned>(vp_pick("k", 0, 2) * 3));
}
CONTRACT(capacity_align)
{
    Args a{};
    a.kind = 12;
    const uint64_t k = vp_deal("k", 0, 7);
    a.len = UINT64_C(1) << vp_pick("log2 alignment", 0, 3); // all other alignments: align.cpp
    capacity(a, 2, static_cast<unsigned>(k));
}
CONTRACT(capacity_bytes)
{
    vp_bound("unaligned bytes and strings: at most 3 bytes");
    Args a{};
    a.kind = static_cast<unsigned>(vp_pick("kind", 13, 14));
    a.len = vp_pick("len", 0, 3);
    a.data = vp_buffer("src", a.len);
    capacity(a, 5, static_cast<unsigned>(vp_deal("k", 0, 7)));
}
CONTRACT(capacity_bytes_aligned)
{
    Args a{};
    a.kind = static_cast<unsigned>(vp_pick("kind", 13, 14));
    a.len = vp_size("len", 33);
    a.data = vp_buffer("src", a.len);
    // the buffer ends `space` bits after the position
    const size_t q = vp_size("qByte", 40);
    const size_t space = vp_size("space", 40);
    const size_t size = q + space;
    uint8_t* buf = vp_buffer("buf", size);
    BitStreamWriter w(Span<uint8_t>(buf, size));
    w.setBitPosition(q * 8);
    const size_t need = a.len + (a.len < (1U << 7U) ? 1 : a.len < (1U << 14U) ? 2 : a.len < (1U << 21U) ? 3 : a.len < (1U << 28U) ? 4 : 5);
    const Outcome o = attempt(w, a);
    if (a.len > INT32_MAX)
    {
        vp_assert(o == REJECTED, "length beyond the size type rejected");
        return;
    }
    vp_assert(o == (need > space ? NOCAP : OK), "throws exactly if the space is missing");
    vp_assert(w.getBitPosition() <= size * 8, "position inside");
    const size_t j = vp_size("anyByte", 42);
    if (o == OK)
    {
        vp_assert(w.getBitPosition() == (q + need) * 8, "position");
        vp_cover("written");
        if (vp_pick("after", 0, 1) != 0) vp_assume(j >= q + need && j < size);
        else vp_assume(j < q);
    }
    else
    {
        vp_cover("refused");
        vp_assume(j < q);
    }
    vp_assert(buf[j] == vp_byte("buf", j), "nothing stored outside");
}
