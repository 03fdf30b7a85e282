// Exception messages: any state (message of any length, then appended to), any text or number appended.
#include <array>
#include <cstring>
#include <vector>
#include "vp.h"
#include "zserio/CppRuntimeException.h"
using namespace zserio;
extern "C" void vp_keep_messages() {}
namespace
{
constexpr size_t ROOM = 511; // longest message: sizeof(storage) - 1
size_t least(size_t a, size_t b) { return a < b ? a : b; }
// the exception holds the longest prefix of a (la characters) then b (lb characters), and is terminated
struct Parts
{
    const char* a;
    size_t la;
    const char* b;
    size_t lb;
    size_t len() const { return least(ROOM, la + lb); }
};
void holds(const CppRuntimeException& e, const Parts& p, const char* how)
{
    const char* t = e.what();
    const size_t end = p.len();
    vp_assert(t[end] == 0, how);
    const size_t k = vp_size("any index", 9);
    vp_assume(k < end);
    if (k < p.la) vp_assert(t[k] == p.a[k], how);
    else vp_assert(t[k] == p.b[k - p.la], how);
    vp_cover("prefix");
}
struct Some // a text of any length
{
    size_t len;
    char* s;
    explicit Some(const char* name) : len(vp_size("length", 20)), s(reinterpret_cast<char*>(vp_buffer(name, len))) {}
};
struct Terminated // a zero terminated text of any length
{
    size_t len;
    char* s;
    explicit Terminated(const char* name) : len(vp_size("length", 20)), s(reinterpret_cast<char*>(vp_buffer(name, len + 1)))
    {
        s[len] = 0;
        vp_ghost(len);
        // len is the first zero
        (void)std::strlen(s);
        vp_assume(std::strlen(s) == len);
    }
};
} // namespace
// append(text, length) to a message of any length
CONTRACT(append_sized)
{
    CppRuntimeException e;
    vp_assert(e.what()[0] == 0, "empty");
    const Some a("a");
    e.append(a.s, a.len);
    const Some b("b");
    switch (vp_deal("how", 0, 2))
    {
    case 0: e.append(b.s, b.len); break;
    case 1: e << std::string_view(b.s, b.len); break;
    default: std::move(e) << std::string_view(b.s, b.len); break;
    }
    holds(e, Parts{a.s, a.len, b.s, b.len}, "longest prefix, terminated");
    vp_cover("appended");
}
// what was there is kept; an append to a full message changes nothing
CONTRACT(append_three)
{
    CppRuntimeException e;
    const Some a("a"), b("b");
    e.append(a.s, a.len);
    e.append(b.s, b.len);
    const size_t two = least(ROOM, a.len + b.len);
    const size_t n = vp_deal("third length", 1, 2); // the position is what the first two left, the length does not matter
    const char c[3] = {static_cast<char>(vp_u8("c")), static_cast<char>(vp_u8("c")), 0};
    e.append(c, n);
    const size_t three = least(ROOM, two + n);
    vp_assert(e.what()[three] == 0, "terminated");
    if (two < ROOM) vp_assert(e.what()[two] == c[0], "the new text follows");
    if (n > 1 && two + 1 < ROOM) vp_assert(e.what()[two + 1] == c[1], "the new text follows");
    vp_cover("third");
    const size_t k = vp_size("kept index", 9);
    vp_assume(k < two);
    vp_assert(e.what()[k] == (k < a.len ? a.s[k] : b.s[k - a.len]), "what was there is kept");
    vp_cover("appended");
}
// zero terminated texts: also by the constructor
CONTRACT(append_text)
{
    const Terminated a("a");
    CppRuntimeException e(a.s);
    const Terminated b("b");
    switch (vp_deal("how", 0, 1))
    {
    case 0: e.append(b.s); break;
    default: e << static_cast<const char*>(b.s); break;
    }
    holds(e, Parts{a.s, a.len, b.s, b.len}, "longest prefix, terminated");
    vp_cover("appended");
}
namespace
{
template <typename T>
void number(T v)
{
    // room for the number: 0..22 characters, or plenty (how a text is appended: append_text, which any length)
#ifdef VP_QUICK
    const size_t step = sizeof(T) < 8 ? 1 : 6; // every number of characters is the same: thorough
#else
    const size_t step = 1;
#endif
    const size_t spare = step == 1 ? vp_pick("spare", 0, 23) : 5 + step * vp_pick("spare", 0, 3);
    const size_t len = spare == 23 ? 3 : ROOM - spare;
    char* text = reinterpret_cast<char*>(vp_buffer("a", len));
    CppRuntimeException e;
    e.append(text, len);
    std::array<char, 24> buffer{};
    const char* s = convertIntToString(buffer, v);
    const size_t n = std::strlen(s);
    e << v;
    const size_t end = least(ROOM, len + n);
    vp_assert(e.what()[end] == 0, "number: terminated");
    for (size_t i = 0; i < n; i++)
    {
        if (len + i < ROOM) vp_assert(e.what()[len + i] == s[i], "number: digits");
    }
    vp_assert(e.what()[0] == text[0] && e.what()[len - 1] == text[len - 1], "what was there is kept");
    vp_cover("number");
}
} // namespace
CONTRACT(append_number)
{
    switch (vp_deal("type", 0, 6))
    {
    case 0: number(vp_u8("value")); break;
    case 1: number(static_cast<int16_t>(vp_u16("value"))); break;
    case 2: number(vp_u32("value")); break;
    case 3: number(vp_u64("value")); break;
    case 4: number(static_cast<int64_t>(vp_u64("value"))); break;
    case 5:
    {
        const bool v = vp_pick("bool", 0, 1) != 0;
        const Some a("a");
        CppRuntimeException e;
        e.append(a.s, a.len);
        e << v;
        holds(e, Parts{a.s, a.len, v ? "true" : "false", static_cast<size_t>(v ? 4 : 5)}, "bool");
        break;
    }
    default:
    {
        const size_t len = ROOM - vp_pick("spare", 0, 20);
        const char* text = reinterpret_cast<const char*>(vp_buffer("a", len));
        CppRuntimeException e;
        e.append(text, len);
        const size_t size = 3 + 9 * vp_pick("vector size", 0, 1);
        const std::vector<uint8_t> v(size);
        e << v;
        static const char* const all[2] = {"vector([...], 3)", "vector([...], 12)"};
        const char* t = all[size / 10];
        for (size_t i = 0; t[i] != 0 && len + i < ROOM; i++) vp_assert(e.what()[len + i] == t[i], "vector");
        vp_assert(e.what()[least(ROOM, len + std::strlen(t))] == 0, "vector: terminated");
    }
    }
    vp_cover("appended");
}
// floating point numbers: what is appended is the text of the integer part and of the fraction, or a word
CONTRACT(append_float)
{
#ifdef VP_THOROUGH
    const uint64_t exponent = vp_deal("exponent", 0, 255);
#else
    vp_bound("floats: 13 of the 256 exponents (thorough: all)");
    static const uint8_t some[13] = {0, 1, 100, 126, 127, 134, 150, 151, 189, 190, 191, 254, 255};
    const uint64_t exponent = some[vp_deal("exponent", 0, 12)];
#endif
    const uint32_t bits = static_cast<uint32_t>(vp_pick("sign", 0, 1) << 31U | exponent << 23U | vp_uint("mantissa", 23));
    float v;
    std::memcpy(&v, &bits, sizeof(v));
    std::array<char, 24> b1{}, b2{};
    const char* whole = nullptr;
    const char* fraction = nullptr;
    convertFloatToString(b1, b2, v, whole, fraction);
    vp_assert(whole != nullptr, "a text");
    if (fraction == nullptr)
    {
        const bool nan = (bits & 0x7FFFFFFFU) > 0x7F800000U;
        const char* word = nan ? "NaN" : (bits >> 31U) != 0 ? "-Inf" : "+Inf";
        for (size_t i = 0; i < (nan ? 4U : 5U); i++) vp_assert(whole[i] == word[i], "not a finite number");
        vp_cover("word");
    }
    else
    {
        vp_assert(vp_same_object(whole, b1.data()) && vp_same_object(fraction, b2.data()), "texts in the buffers");
        vp_cover("number");
    }
}
// a copy and a moved exception carry the message
CONTRACT(message_copies)
{
    CppRuntimeException e;
    const Some a("a");
    e.append(a.s, a.len);
    const CppRuntimeException copy(e);
    holds(copy, Parts{a.s, a.len, nullptr, 0}, "copy");
    CppRuntimeException other("x");
    other = e;
    holds(other, Parts{a.s, a.len, nullptr, 0}, "assigned");
    vp_cover("copied");
}
