// Half, single and double precision conversions, on bit patterns only (integers decide the spec).
#include <cstring>
#include "writer.h"
#include "zserio/FloatUtil.h"
namespace
{
// single precision pattern of the half with magnitude a <= 0x7C00 (infinity: the next power of two, 65536)
uint32_t halfAsFloat(uint32_t a)
{
    if (a >= 0x400) return (a << 13U) + (UINT32_C(112) << 23U);
    if (a == 0) return 0;
    unsigned top = 9; // a = 2^top + rest, value a * 2^-24
    while (((a >> top) & 1U) == 0) top--;
    return ((127U + top - 24U) << 23U) | ((a ^ (1U << top)) << (23U - top));
}
// single precision pattern of the number in the middle between the halves with magnitudes a and a + 1
uint32_t middle(uint32_t a)
{
    if (a >= 0x400) return halfAsFloat(a) + 0x1000U;
    const uint32_t b = 2 * a + 1;
    unsigned top = 10; // b * 2^-25
    while (((b >> top) & 1U) == 0) top--;
    return ((127U + top - 25U) << 23U) | ((b ^ (1U << top)) << (23U - top));
}
uint32_t bitsOf(float f) { uint32_t r; std::memcpy(&r, &f, 4); return r; }
float floatOf(uint32_t u) { float r; std::memcpy(&r, &u, 4); return r; }
uint64_t bitsOf(double f) { uint64_t r; std::memcpy(&r, &f, 8); return r; }
double doubleOf(uint64_t u) { double r; std::memcpy(&r, &u, 8); return r; }

void checkToHalf(uint32_t x, uint32_t h)
{
    vp_assert(h <= 0xFFFF, "16 bits");
    vp_assert((h >> 15U) == (x >> 31U), "sign kept");
    const uint32_t mag = x & 0x7FFFFFFFU;
    const uint32_t a = h & 0x7FFFU;
    if (mag > 0x7F800000U)
    {
        vp_assert(a > 0x7C00U, "not-a-number stays not-a-number");
        return;
    }
    vp_assert(a <= 0x7C00U, "a number stays a number");
    if (mag >= (UINT32_C(143) << 23U))
    {
        vp_assert(a == 0x7C00U, "too large becomes infinity");
        return;
    }
    if (mag < (UINT32_C(103) << 23U))
    {
        vp_assert(a == 0, "smaller than the smallest half becomes zero");
        return;
    }
    vp_assert(a != 0 && middle(a - 1) <= mag, "the lower half is not nearer");
    if (a != 0x7C00U) vp_assert(mag < middle(a), "the upper half is not nearer");
}
void checkFromHalf(uint32_t h, uint32_t x)
{
    vp_assert((h >> 15U) == (x >> 31U), "sign kept");
    const uint32_t a = h & 0x7FFFU;
    const uint32_t mag = x & 0x7FFFFFFFU;
    if (a > 0x7C00U) vp_assert(mag > 0x7F800000U, "not-a-number stays not-a-number");
    else if (a == 0x7C00U) vp_assert(mag == 0x7F800000U, "infinity");
    else vp_assert(mag == halfAsFloat(a), "exact value");
}
} // namespace

CONTRACT(half_to_float)
{
    const uint32_t h = static_cast<uint32_t>(vp_pick("exponent", 0, 31) << 10U) | static_cast<uint32_t>(vp_uint("significand", 10)) |
            static_cast<uint32_t>(vp_pick("sign", 0, 1) << 15U);
    const float f = convertUInt16ToFloat(static_cast<uint16_t>(h));
    checkFromHalf(h, bitsOf(f));
    vp_assert(convertFloatToUInt16(f) == h, "writing gives the same pattern back");
    vp_cover("converted");
}
CONTRACT(float_to_half)
{
    const uint32_t x = static_cast<uint32_t>(vp_pick("exponent", 0, 255) << 23U) | static_cast<uint32_t>(vp_uint("significand", 23)) |
            static_cast<uint32_t>(vp_pick("sign", 0, 1) << 31U);
    checkToHalf(x, convertFloatToUInt16(floatOf(x)));
    vp_cover("converted");
}
CONTRACT(single_double)
{
    const uint32_t x = vp_u32("single");
    vp_assert(convertFloatToUInt32(floatOf(x)) == x, "single to bits");
    vp_assert(bitsOf(convertUInt32ToFloat(x)) == x, "bits to single");
    const uint64_t y = vp_u64("double");
    vp_assert(convertDoubleToUInt64(doubleOf(y)) == y, "double to bits");
    vp_assert(bitsOf(convertUInt64ToDouble(y)) == y, "bits to double");
    vp_cover("converted");
}
// stream transfer at any bit position
CONTRACT(float_stream)
{
    const unsigned kk = static_cast<unsigned>(vp_deal("kind and offset", 0, 23));
    const unsigned kind = kk / 8;
    const unsigned n = 16U << kind;
    AnyBuffer b("buf", 24, 1, 0, 24);
    const size_t p = b.q + kk % 8;
    // reading
    BitStreamReader r(b.data, b.bitSize, BitsTag());
    r.setBitPosition(p);
    const uint64_t raw = vp_bits("buf", p, n);
    if (kind == 0)
    {
        const uint32_t e = static_cast<uint32_t>(vp_split((raw >> 10U) & 31U, 0, 31));
        const uint32_t h = static_cast<uint32_t>((raw & 0x83FFU) | (e << 10U));
        checkFromHalf(h, bitsOf(static_cast<float>(r.readFloat16())));
    }
    else if (kind == 1) vp_assert(bitsOf(static_cast<float>(r.readFloat32())) == raw, "32-bit float read bit for bit");
    else vp_assert(bitsOf(static_cast<double>(r.readFloat64())) == raw, "64-bit float read bit for bit");
    vp_assert(r.getBitPosition() == p + n, "reader position");
    // writing
    BitStreamWriter w(b.span2(), b.bitSize);
    w.setBitPosition(p);
    uint64_t v = 0;
    if (kind == 0)
    {
        const uint32_t x = static_cast<uint32_t>(vp_pick("e", 103, 143) << 23U) | static_cast<uint32_t>(vp_uint("single", 23));
        w.writeFloat16(floatOf(x));
        checkToHalf(x, static_cast<uint32_t>(vp_membits(b.data, b.size, p, 16)));
    }
    else if (kind == 1)
    {
        v = vp_u32("single");
        w.writeFloat32(floatOf(static_cast<uint32_t>(v)));
        vp_assert(vp_membits(b.data, b.size, p, 32) == v, "32-bit float written bit for bit");
    }
    else
    {
        v = vp_u64("double");
        w.writeFloat64(doubleOf(v));
        vp_assert(vp_membits(b.data, b.size, p, 64) == v, "64-bit float written bit for bit");
    }
    vp_assert(w.getBitPosition() == p + n, "writer position");
    vp_cover("transferred");
    vp_assert(untouchedOutside(b, "buf", p, n), "all other bits unchanged");
}
