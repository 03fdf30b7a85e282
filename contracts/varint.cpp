// Variable-length integers: documented form, minimal length, announced size, round trip at every bit offset.
#include "writer.h"
namespace
{
struct Kind { unsigned maxBytes, sign, lastBits; }; // lastBits: usable bits of the longest form
const Kind KINDS[9] = {{2, 1, 14}, {4, 1, 28}, {8, 1, 56}, {9, 1, 63}, {2, 0, 15}, {4, 0, 29}, {8, 0, 57}, {9, 0, 64}, {5, 0, 31}};
unsigned payload(const Kind& k, unsigned n)
{
    return n == k.maxBytes ? k.lastBits : (k.sign ? 6U : 7U) + 7U * (n - 1);
}
// documented byte i of the n-byte form
uint8_t formByte(const Kind& k, unsigned n, bool neg, uint64_t mag, unsigned i)
{
    const bool last = i + 1 == n;
    unsigned after = 0; // payload bits after byte i
    for (unsigned j = i + 1; j < n; j++) after += (j + 1 == n && n == k.maxBytes) ? 8 : 7;
    const uint64_t rest = mag >> after;
    const bool flag = !(last && n == k.maxBytes);
    if (i == 0 && k.sign)
        return static_cast<uint8_t>((neg ? 0x80U : 0U) | (last ? 0U : 0x40U) | (rest & 0x3FU));
    return static_cast<uint8_t>(flag ? (last ? 0U : 0x80U) | (rest & 0x7FU) : rest & 0xFFU);
}
void writeKind(BitStreamWriter& w, unsigned kind, int64_t v)
{
    switch (kind)
    {
    case 0: w.writeVarInt16(static_cast<int16_t>(v)); break;
    case 1: w.writeVarInt32(static_cast<int32_t>(v)); break;
    case 2: w.writeVarInt64(v); break;
    case 3: w.writeVarInt(v); break;
    case 4: w.writeVarUInt16(static_cast<uint16_t>(v)); break;
    case 5: w.writeVarUInt32(static_cast<uint32_t>(v)); break;
    case 6: w.writeVarUInt64(static_cast<uint64_t>(v)); break;
    case 7: w.writeVarUInt(static_cast<uint64_t>(v)); break;
    default: w.writeVarSize(static_cast<uint32_t>(v)); break;
    }
}
int64_t readKind(BitStreamReader& r, unsigned kind)
{
    switch (kind)
    {
    case 0: return r.readVarInt16();
    case 1: return r.readVarInt32();
    case 2: return r.readVarInt64();
    case 3: return r.readVarInt();
    case 4: return r.readVarUInt16();
    case 5: return r.readVarUInt32();
    case 6: return static_cast<int64_t>(static_cast<uint64_t>(r.readVarUInt64()));
    case 7: return static_cast<int64_t>(static_cast<uint64_t>(r.readVarUInt()));
    default: return static_cast<uint32_t>(r.readVarSize());
    }
}
size_t announced(unsigned kind, int64_t v, bool offsets)
{
    using namespace zserio::detail;
#define VP_SIZE(T, c) { const T x(static_cast<T::ValueType>(v)); return offsets ? initializeOffsets(x, 5) : bitSizeOf(x, 5); }
    switch (kind)
    {
    case 0: VP_SIZE(VarInt16, 0)
    case 1: VP_SIZE(VarInt32, 0)
    case 2: VP_SIZE(VarInt64, 0)
    case 3: VP_SIZE(VarInt, 0)
    case 4: VP_SIZE(VarUInt16, 0)
    case 5: VP_SIZE(VarUInt32, 0)
    case 6: VP_SIZE(VarUInt64, 0)
    case 7: VP_SIZE(VarUInt, 0)
    default: VP_SIZE(VarSize, 0)
    }
}
// an arbitrary value of the type whose minimal form has n bytes
int64_t anyValue(const Kind& k, unsigned kind, unsigned n, bool& neg, uint64_t& mag)
{
    mag = vp_uint("magnitude", payload(k, n));
    neg = k.sign && vp_pick("negative", 0, 1) != 0;
    if (n > 1) vp_assume(mag >> payload(k, n - 1) != 0);
    if (neg && mag == 0)
    {
        vp_assume(kind == 3); // "-0" stands for the minimum
        return INT64_MIN;
    }
    return static_cast<int64_t>(neg ? ~mag + 1 : mag);
}
} // namespace

CONTRACT(varint_round_trip)
{
    const unsigned kn = static_cast<unsigned>(vp_deal("kind and offset", 0, 71));
    const unsigned kind = kn / 8;
    const Kind& k = KINDS[kind];
    const unsigned n = static_cast<unsigned>(vp_pick("bytes", 1, k.maxBytes));
    bool neg;
    uint64_t mag;
    const int64_t v = anyValue(k, kind, n, neg, mag);
    vp_assert(announced(kind, v, false) == n * 8, "announced size is the minimal one");
    vp_assert(announced(kind, v, true) == n * 8, "offset initialisation adds the minimal size");

    AnyBuffer b("buf", 20, 1, 0, 20);
    const size_t p = b.q + kn % 8;
    BitStreamWriter w(b.span2(), b.bitSize);
    w.setBitPosition(p);
    writeKind(w, kind, v);
    vp_assert(w.getBitPosition() == p + n * 8, "minimal length written");
    for (unsigned i = 0; i < n; i++)
        vp_assert(vp_membits(b.data, b.size, p + i * 8, 8) == formByte(k, n, neg, mag, i), "documented form");

    BitStreamReader r(b.data, b.bitSize, BitsTag());
    r.setBitPosition(p);
    vp_assert(readKind(r, kind) == v, "same value read back");
    vp_assert(r.getBitPosition() == p + n * 8, "same end position");
    vp_cover("round trip");
    vp_assert(untouchedOutside(b, "buf", p, n * 8), "all other bits unchanged");
}

// values the type cannot represent are rejected, nothing is written
CONTRACT(varint_out_of_range)
{
    const unsigned kind = static_cast<unsigned>(vp_pick("kind", 0, 8));
    vp_assume(kind != 3 && kind != 7); // every value is in range
    const Kind& k = KINDS[kind];
    const unsigned width = kind == 0 || kind == 4 ? 16 : kind == 1 || kind == 5 || kind == 8 ? 32 : 64;
    uint64_t u = vp_uint("v", width);
    int64_t v = k.sign ? vp_sext(u, width) : static_cast<int64_t>(u);
    const uint64_t lim = (UINT64_C(1) << k.lastBits) - 1;
    if (k.sign) vp_assume(v < -static_cast<int64_t>(lim) || v > static_cast<int64_t>(lim));
    else vp_assume(u > lim);
    AnyBuffer b("buf", 20, 1, 0, 20);
    BitStreamWriter w(b.span2(), b.bitSize);
    w.setBitPosition(b.q);
    bool thrown = false;
    try
    {
        writeKind(w, kind, v);
    }
    catch (const CppRuntimeException&)
    {
        thrown = true;
    }
    vp_assert(thrown, "value out of range rejected");
    vp_assert(w.getBitPosition() == b.q, "not moved");
    thrown = false;
    try
    {
        (void)announced(kind, v, false);
    }
    catch (const CppRuntimeException&)
    {
        thrown = true;
    }
    vp_assert(thrown, "no size announced for a value out of range");
    vp_cover("rejected");
    vp_assert(untouched(b, "buf"), "nothing changed");
}

// any n-byte sequence decodes to the value its bits denote, minimal or not
CONTRACT(varint_decode)
{
    const unsigned kn = static_cast<unsigned>(vp_deal("kind and offset", 0, 71));
    const unsigned kind = kn / 8;
    const Kind& k = KINDS[kind];
    AnyBuffer b("buf", 20, 1, 0, 20);
    const size_t p = b.q + kn % 8;
    BitStreamReader r(b.data, b.bitSize, BitsTag());
    r.setBitPosition(p);
    const unsigned n = static_cast<unsigned>(vp_pick("bytes", 1, k.maxBytes));
    uint64_t mag = 0;
    bool neg = false;
    for (unsigned i = 0; i < n; i++)
    {
        const unsigned x = static_cast<unsigned>(vp_bits("buf", p + i * 8, 8));
        const bool first = i == 0 && k.sign;
        if (first) neg = (x & 0x80U) != 0;
        if (i + 1 < k.maxBytes)
        {
            const bool next = (x & (first ? 0x40U : 0x80U)) != 0;
            vp_assume(next == (i + 1 < n));
            mag = (mag << 7U) | (x & (first ? 0x3FU : 0x7FU));
        }
        else mag = (mag << 8U) | x;
    }
    const bool tooBig = kind == 8 && mag > INT32_MAX; // cannot happen in the forms of the other types
    bool thrown = false;
    int64_t v = 0;
    try
    {
        v = readKind(r, kind);
    }
    catch (const CppRuntimeException&)
    {
        thrown = true;
    }
    vp_assert(thrown == tooBig, "rejected only if beyond the size type");
    if (thrown) return;
    const bool minus0 = neg && mag == 0 && kind == 3 && n == 1;
    if (!minus0) vp_assert(v == static_cast<int64_t>(neg ? ~mag + 1 : mag), "value denoted by the bits");
    else vp_assert(v == INT64_MIN, "minus zero denotes the minimum");
    vp_assert(r.getBitPosition() == p + n * 8, "position");
    vp_cover("decoded");
}
