#include "writer.h"
#include "zserio/BitPositionUtil.h"

namespace
{
size_t lcm8(size_t a)
{
    size_t g = 8;
    while (a % g != 0) g /= 2;
    return a / g * 8;
}
// smallest multiple of a not below u * m + r, where u is a multiple of a: the specification of alignment
size_t aligned(size_t base, size_t r, size_t a)
{
    size_t k = 0;
    while (k < r) k += a;
    return base + k;
}
void alignWriter(size_t a, bool allEnds, size_t rest)
{
    // the position is r bits after byte q, and rest bits after a common multiple of a and 8
    const size_t r = rest & 7;
    const size_t e0 = aligned(0, rest, a) - rest;
    const size_t end = (r + e0 + 7) / 8;
    AnyBuffer b("buf", end + 1, lcm8(a) / 8, rest / 8, allEnds ? 0 : end == 0 ? 0 : end - 1, end + 10);
    BitStreamWriter w(b.span2(), b.bitSize);
    const size_t p = b.q + r;
    vp_assume(p <= b.bitSize);
    w.setBitPosition(p);
    const size_t e = p + e0;
    bool nocap = false;
    try
    {
        w.alignTo(a);
    }
    catch (const BitStreamWriter::InsufficientCapacityException&)
    {
        nocap = true;
    }
    vp_assert(nocap == (e > b.bitSize), "fails exactly if there is no space");
    if (nocap)
    {
        vp_assert(w.getBitPosition() >= p && w.getBitPosition() <= b.bitSize, "position stays inside");
        vp_cover("no space");
        vp_assert(p == b.bitSize ? untouched(b, "buf") : untouchedOutside(b, "buf", p, b.bitSize - p), "nothing changed before");
        return;
    }
    vp_assert(w.getBitPosition() == e, "smallest multiple not below");
    for (size_t i = p; i < e; i += 64)
    {
        vp_assert(vp_membits(b.data, b.size, i, static_cast<unsigned>(e - i < 64 ? e - i : 64)) == 0, "zeros");
    }
    vp_cover("aligned");
    vp_assert(e == p ? untouched(b, "buf") : untouchedOutside(b, "buf", p, e - p), "no other bit touched");
}
void alignReader(size_t a, bool allEnds, size_t rest)
{
    // the position is r bits after byte q, and rest bits after a common multiple of a and 8
    const size_t r = rest & 7;
    const size_t e0 = aligned(0, rest, a) - rest;
    const size_t end = (r + e0 + 7) / 8;
    AnyBuffer b("buf", end + 1, lcm8(a) / 8, rest / 8, allEnds ? 0 : end == 0 ? 0 : end - 1, end + 10);
    BitStreamReader rd(b.span(), b.bitSize);
    const size_t p = b.q + r;
    vp_assume(p <= b.bitSize);
    rd.setBitPosition(p);
    const size_t e = p + e0;
    bool thrown = false;
    try
    {
        rd.alignTo(a);
    }
    catch (const CppRuntimeException&)
    {
        thrown = true;
    }
    vp_assert(thrown == (e > b.bitSize), "fails exactly past the end");
    if (thrown)
    {
        vp_assert(rd.getBitPosition() >= p && rd.getBitPosition() <= b.bitSize, "position stays inside");
        vp_cover("past the end");
        return;
    }
    vp_assert(rd.getBitPosition() == e, "smallest multiple not below");
    vp_cover("aligned");
    vp_assume(e + 5 <= b.bitSize);
    vp_assert(rd.readUnsignedBits64(5) == vp_bits("buf", e, 5), "reads there");
}
void alignCounting(size_t a, size_t r)
{
    const size_t base = vp_size("m", 28) * a;
    BitStreamWriter w(nullptr, 0);
    w.setBitPosition(base + r);
    w.alignTo(a);
    vp_assert(w.getBitPosition() == aligned(base, r, a), "counting: smallest multiple not below");
    vp_cover("counted");
}
const uint16_t BIG[] = {65, 72, 96, 100, 120, 128, 129, 192, 255, 256, 257, 264, 300, 320, 384, 512, 513, 576, 640, 1000, 1024, 4096};
const size_t NBIG = sizeof(BIG) / sizeof(BIG[0]);
size_t bigAlignment()
{
    return BIG[vp_deal("big", 0, NBIG - 1)];
}
size_t bigRest(size_t a)
{
    const size_t i = vp_pick("restKind", 0, 15);
    const size_t rs[16] = {0, 1, 7, 8, 9, 31, 63, 64, a - 1, a - 7, a - 8, a - 63, a - 64, a - 65, a / 2, a / 3};
    return rs[i];
}
size_t anyRest(size_t a)
{
    const size_t r = vp_pick("r", 0, lcm8(a) - 1);
#ifdef VP_QUICK
    vp_bound("quick: odd positions relative to bytes sampled for alignments above 20 that are no multiple of 8");
    if (a > 20 && a % 8 != 0) vp_assume((r & 7) == (a & 7) || (r & 7) == 0);
#endif
    return r;
}
} // namespace

CONTRACT(writer_aligns)
{
    vp_bound("ends of the buffer: within a byte of the aligned position or far behind it (others: P02, P04)");
    const size_t a = vp_deal("alignment", 1, 64);
    alignWriter(a, a == 8 || a == 16, anyRest(a));
}
CONTRACT(reader_aligns)
{
    vp_bound("ends of the buffer: within a byte of the aligned position or far behind it (others: P02, P04)");
    const size_t a = vp_deal("alignment", 1, 64);
    alignReader(a, a == 8 || a == 16, anyRest(a));
}
CONTRACT(counting_aligns)
{
    vp_bound("ends of the buffer: within a byte of the aligned position or far behind it (others: P02, P04)");
    const size_t a = vp_deal("alignment", 1, 64);
    alignCounting(a, vp_pick("r", 0, a - 1));
}
CONTRACT(big_writer_aligns)
{
    vp_bound("alignments above 64 bits: 22 alignments up to 4096, 16 distances each");
    const size_t a = bigAlignment();
    alignWriter(a, false, bigRest(a));
}
CONTRACT(big_reader_aligns)
{
    vp_bound("alignments above 64 bits: 22 alignments up to 4096, 16 distances each");
    const size_t a = bigAlignment();
    alignReader(a, false, bigRest(a));
}
CONTRACT(big_counting_aligns)
{
    vp_bound("alignments above 64 bits: 22 alignments up to 4096, 16 distances each");
    const size_t a = bigAlignment();
    alignCounting(a, bigRest(a));
}
// the position arithmetic of size calculations
namespace
{
void positionUtil(uint32_t a, uint32_t r)
{
    // p = a * m + r for any m with a result below 2^32
    const uint32_t m = static_cast<uint32_t>(vp_size("m", a <= 64 ? 25 : 19));
    const bool first = vp_pick("first", 0, 1) != 0;
    const uint32_t base = first ? 0 : a * m + a;
    vp_assert(zserio::alignTo(a, base + r) == base + (r == 0 ? 0 : a), "smallest multiple not below");
    vp_cover("aligned");
}
} // namespace
CONTRACT(position_util)
{
    const uint32_t a = static_cast<uint32_t>(vp_deal("alignment", 1, 64));
    positionUtil(a, static_cast<uint32_t>(vp_pick("r", 0, a - 1)));
}
CONTRACT(big_position_util)
{
    vp_bound("alignments above 64 bits: 22 alignments up to 4096, 16 distances each");
    const uint32_t a = static_cast<uint32_t>(bigAlignment());
    positionUtil(a, static_cast<uint32_t>(bigRest(a)));
}
