// Bit buffers: equality, ordering, hash code and copies depend on the bit size and the bits only.
#include "vp.h"
#include "zserio/BitBuffer.h"
#include "zserio/Types.h"
using namespace zserio;
namespace
{
// bit t (0 = first) of memory
unsigned bitAt(const uint8_t* p, size_t t) { return (p[t >> 3U] >> (7U - (t & 7U))) & 1U; }
int sign(bool less, bool more) { return less ? -1 : more ? 1 : 0; }
// documented order of the small buffers: lexicographic in the bytes with padding cleared, then by bit size
struct Small
{
    size_t bits;
    uint8_t raw[4];
    uint8_t* mem;
    size_t size;
};
Small anySmall(const char* name, const char* bitsName, size_t maxBits)
{
    Small s{};
    s.bits = vp_pick(bitsName, 0, maxBits);
    s.size = (s.bits + 7) / 8;
    s.mem = vp_buffer(name, s.size);
    return s;
}
// any length; the empty one is a case of its own
size_t anyLength(const char* name) { return vp_pick("not empty", 0, 1) != 0 ? 1 + vp_size(name, 30) : 0; }
} // namespace

// Buffers of any length: the same bits with any padding and any unused bytes behind are the same value.
CONTRACT(equal_if_same_bits)
{
    const size_t full = anyLength("fullBytes");
    const unsigned rest = static_cast<unsigned>(vp_deal("rest", 0, 7));
    const size_t used = full + (rest != 0 ? 1 : 0);
    const size_t sizeA = used + vp_pick("unusedA", 0, 1) * 3;
    const size_t sizeB = used + vp_pick("unusedB", 0, 1) * 2;
    const size_t bits = full * 8 + rest;
    uint8_t* a = vp_buffer("a", sizeA);
    uint8_t* b = vp_buffer("b", sizeB);
    std::memcpy(b, a, full);
    if (rest != 0)
    {
        const uint8_t pad = static_cast<uint8_t>(0xFFU >> rest);
        b[full] = static_cast<uint8_t>((a[full] & ~pad) | (vp_u8("padding") & pad));
    }
    const BitBuffer x(Span<const uint8_t>(a, sizeA), bits);
    const BitBuffer y(Span<const uint8_t>(b, sizeB), bits);
    vp_assert(x.getBitSize() == bits && x.getByteSize() == used, "size");
    vp_assert(x == y && y == x, "equal");
    vp_assert(!(x != y), "not unequal");
    const BitBufferView vx(x), vy(y);
    vp_assert(vx == vy && !(vx != vy), "views equal");
    vp_cover("compared");
}
// Buffers of any length: equal ones have the same size and the same bits.
CONTRACT(equal_only_if_same_bits)
{
    const size_t full = anyLength("fullBytes");
    const unsigned rest = static_cast<unsigned>(vp_deal("rest", 0, 7));
    const size_t bits = full * 8 + rest;
    const size_t used = full + (rest != 0 ? 1 : 0);
    uint8_t* a = vp_buffer("a", used);
    const size_t fullB = vp_pick("same size", 0, 1) != 0 ? full : anyLength("fullBytesB");
    const unsigned restB = static_cast<unsigned>(vp_pick("restB", 0, 7));
    const size_t bitsB = fullB * 8 + restB;
    const size_t usedB = fullB + (restB != 0 ? 1 : 0);
    uint8_t* b = vp_buffer("b", usedB);
    const BitBuffer x(Span<const uint8_t>(a, used), bits);
    const BitBuffer y(Span<const uint8_t>(b, usedB), bitsB);
    if (!(x == y)) { vp_assert(x != y, "unequal"); vp_cover("unequal"); return; }
    vp_cover("equal");
    vp_assert(bits == bitsB, "equal only with the same size");
    const size_t byte = vp_size("anyByte", 30);
    vp_ghost(byte);
    const size_t t = byte * 8 + vp_pick("anyBit", 0, 7);
    vp_assume(t < bits);
    vp_assert(bitAt(a, t) == bitAt(b, t), "equal only with the same bits");
}
// Order: total, strict, consistent with equality. Lengths up to 26 bits.
CONTRACT(order)
{
    vp_bound("order: buffers of at most 26 bits");
    const size_t maxBits = 26;
    Small a{}, b{};
    a.bits = vp_deal("bitsA", 0, maxBits);
    a.size = (a.bits + 7) / 8;
    a.mem = vp_buffer("a", a.size);
    b = anySmall("b", "bitsB", maxBits);
    const BitBuffer x(Span<const uint8_t>(a.mem, a.size), a.bits);
    const BitBuffer y(Span<const uint8_t>(b.mem, b.size), b.bits);
    // reference comparison
    int cmp = 0;
    for (size_t i = 0; i < 4 && cmp == 0; i++)
    {
        if (i >= a.size || i >= b.size)
        {
            cmp = sign(a.size < b.size, a.size > b.size);
            break;
        }
        const unsigned ra = i + 1 == a.size && a.bits % 8 != 0 ? a.mem[i] & (0xFF00U >> (a.bits % 8)) : a.mem[i];
        const unsigned rb = i + 1 == b.size && b.bits % 8 != 0 ? b.mem[i] & (0xFF00U >> (b.bits % 8)) : b.mem[i];
        cmp = sign((ra & 0xFFU) < (rb & 0xFFU), (ra & 0xFFU) > (rb & 0xFFU));
    }
    if (cmp == 0) cmp = sign(a.bits < b.bits, a.bits > b.bits);
    vp_assert((x == y) == (cmp == 0), "equal exactly with the same size and bits");
    const bool lt = x < y, gt = y < x;
    vp_assert(!(lt && gt), "at most one is less");
    vp_assert((!lt && !gt) == (cmp == 0), "neither less exactly if equal");
    vp_assert(lt == (cmp < 0), "padding does not influence the order");
    vp_assert((x > y) == gt && (x <= y) == !gt && (x >= y) == !lt, "operators agree");
    vp_cover("compared");
}
// Transitivity of the order, lengths up to 12 bits.
CONTRACT(order_transitive)
{
    vp_bound("transitivity: buffers of at most 10 bits");
    const size_t maxBits = 10;
    Small a{};
    a.bits = vp_deal("bitsA", 0, maxBits);
    a.size = (a.bits + 7) / 8;
    a.mem = vp_buffer("a", a.size);
    const Small b = anySmall("b", "bitsB", maxBits);
    const Small c = anySmall("c", "bitsC", maxBits);
    const BitBuffer x(Span<const uint8_t>(a.mem, a.size), a.bits);
    const BitBuffer y(Span<const uint8_t>(b.mem, b.size), b.bits);
    const BitBuffer z(Span<const uint8_t>(c.mem, c.size), c.bits);
    if (x < y && y < z) vp_assert(x < z, "transitive");
    vp_cover("compared");
}
// the hash code ignores padding and unused bytes
CONTRACT(hash_padding)
{
    vp_bound("hash code: buffers of at most 8 bytes");
    const size_t bits = vp_deal("bits", 0, 64);
    const size_t used = (bits + 7) / 8;
    const size_t sizeB = used + vp_pick("unusedB", 0, 1) * 2;
    uint8_t* a = vp_buffer("a", used);
    uint8_t* b = vp_buffer("b", sizeB);
    if (bits >= 8) std::memcpy(b, a, bits / 8);
    if (bits % 8 != 0)
    {
        const uint8_t pad = static_cast<uint8_t>(0xFFU >> (bits % 8));
        b[used - 1] = static_cast<uint8_t>((a[used - 1] & ~pad) | (vp_u8("padding") & pad));
    }
    const BitBuffer x(Span<const uint8_t>(a, used), bits);
    const BitBuffer y(Span<const uint8_t>(b, sizeB), bits);
    vp_assert(x.hashCode() == y.hashCode(), "same hash code");
    vp_assert(std::hash<BitBuffer>()(x) == std::hash<BitBuffer>()(y), "same std::hash");
    vp_assert(!(x < y) && !(y < x), "neither less");
    vp_cover("hashed");
}
// copies, moves and the accepted sizes
CONTRACT(copies)
{
    const size_t size = vp_size("size", 30);
    uint8_t* a = vp_buffer("a", size);
    const unsigned kind = static_cast<unsigned>(vp_pick("kind", 0, 5));
    const size_t bits = vp_u64("bits");
    vp_assume(kind == 0 || bits <= size * 8);
    bool thrown = false;
    try
    {
        const BitBuffer x(Span<const uint8_t>(a, size), bits);
        const BitBuffer* r = &x;
        BitBuffer y(size_t(5));
        BitBuffer t(x);
        if (kind == 1) { y = x; r = &y; }
        if (kind == 2) r = &t;
        if (kind == 3) { y = std::move(t); r = &y; }
        const BitBuffer u(kind == 4 ? BitBuffer(x, std::allocator<uint8_t>()) : BitBuffer());
        if (kind == 4) r = &u;
        BitBuffer w(x);
        const BitBuffer v(kind == 5 ? BitBuffer(std::move(w), std::allocator<uint8_t>()) : BitBuffer());
        if (kind == 5) r = &v;
        vp_assert(r->getBitSize() == bits, "bit size kept");
        vp_assert(r->getByteSize() == bits / 8 + (bits % 8 != 0 ? 1 : 0), "byte size");
        vp_assert(r->getByteSize() <= r->getBytes().size(), "bits lie inside the bytes");
        const size_t j = vp_size("anyByte", 30);
        vp_assume(j < r->getByteSize());
        vp_assert(r->getBuffer()[j] == vp_byte("a", j) && r->getData()[j] == vp_byte("a", j), "bytes kept");
        vp_cover("copied");
    }
    catch (const CppRuntimeException&)
    {
        thrown = true;
    }
    if (kind == 0) vp_assert(thrown == (bits > size * 8), "a bit size beyond the bytes is refused");
    else vp_assert(!thrown, "accepted");
}
CONTRACT(construct)
{
    const size_t size = vp_size("size", 30);
    const unsigned kind = static_cast<unsigned>(vp_pick("kind", 0, 3));
    const unsigned rest = static_cast<unsigned>(vp_pick("rest", 0, 7));
    size_t bits = 0, bytes = 0;
    const uint8_t* p = nullptr;
    uint8_t* a = vp_buffer("a", size);
    const BitBuffer z(kind == 0 ? size * 8 + rest : size_t(0));
    const BitBuffer s{Span<const uint8_t>(a, kind == 1 ? size : 0)};
    const BitBuffer m(kind == 2 ? std::vector<uint8_t>(a, a + size) : std::vector<uint8_t>());
    bool thrown = false;
    if (kind == 0) { bits = z.getBitSize(); bytes = z.getByteSize(); p = z.getBuffer(); vp_assert(bits == size * 8 + rest && bytes == size + (rest != 0 ? 1 : 0), "size"); }
    else if (kind == 1) { bits = s.getBitSize(); bytes = s.getByteSize(); p = s.getBuffer(); vp_assert(bits == size * 8 && bytes == size, "size"); }
    else if (kind == 2) { bits = m.getBitSize(); bytes = m.getByteSize(); p = m.getBuffer(); vp_assert(bits == size * 8 && bytes == size, "size"); }
    else
    {
        const size_t n = vp_u64("bits");
        try
        {
            const BitBuffer v(std::vector<uint8_t>(a, a + size), n);
            vp_assert(v.getBitSize() == n, "size");
        }
        catch (const CppRuntimeException&)
        {
            thrown = true;
        }
        vp_assert(thrown == (n > size * 8), "a bit size beyond the bytes is refused");
        return;
    }
    const size_t j = vp_size("anyByte", 30);
    vp_assume(j < bytes);
    vp_assert(p[j] == (kind == 0 ? 0 : vp_byte("a", j)), "content");
    vp_cover("constructed");
}
