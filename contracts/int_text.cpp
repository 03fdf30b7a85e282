// Integers to text. Together: a number below 100 has exactly its digits; the text of a number of 100 and more is the
// text of the number without its last two digits followed by these two; a negative number has a minus sign and the
// text of its absolute value. By induction over the digits that is the decimal representation, for every value.
#include <array>
#include <cstring>
#include "vp.h"
#include "zserio/StringConvertUtil.h"
#include "zserio/Types.h"
using namespace zserio;
namespace
{
struct Text
{
    std::array<char, 24> buffer{};
    const char* s;
    size_t len;
    template <typename T>
    explicit Text(T v)
    {
        s = convertIntToString(buffer, v);
        vp_assert(vp_same_object(s, buffer.data()), "the text lies in the buffer");
        const size_t at = static_cast<size_t>(s - buffer.data());
        vp_assert(at < buffer.size(), "the text lies in the buffer");
        len = 0;
        while (len < 24 - at && s[len] != 0) len++;
        vp_assert(at + len < buffer.size(), "the text is terminated inside the buffer");
    }
};
template <typename T>
void unsignedText(T v)
{
    const Text t(v);
    if (v < 10)
    {
        vp_assert(t.len == 1 && t.s[0] == static_cast<char>('0' + v), "one digit");
        vp_cover("one digit");
    }
    else if (v < 100)
    {
        vp_assert(t.len == 2, "two digits");
        vp_assert(t.s[0] == static_cast<char>('0' + v / 10) && t.s[1] == static_cast<char>('0' + v % 10), "two digits");
        vp_cover("two digits");
    }
    else
    {
        const Text head(static_cast<T>(v / 100));
        const unsigned last = static_cast<unsigned>(v % 100);
        vp_assert(t.len == head.len + 2, "two more digits");
        for (size_t i = 0; i < head.len && i < t.len; i++) vp_assert(t.s[i] == head.s[i], "the leading digits");
        const size_t n = head.len;
        vp_assert(t.s[n] == static_cast<char>('0' + last / 10), "the last but one digit");
        vp_assert(t.s[n + 1] == static_cast<char>('0' + last % 10), "the last digit");
        vp_cover("more digits");
    }
}
template <typename T>
void signedText(T v)
{
    using U = std::make_unsigned_t<T>;
    const Text t(v);
    const Text abs(v < 0 ? static_cast<U>(U(0) - static_cast<U>(v)) : static_cast<U>(v));
    const size_t sign = v < 0 ? 1 : 0;
    vp_assert(t.len == abs.len + sign, "a sign if negative");
    if (v < 0) vp_assert(t.s[0] == '-', "minus");
    for (size_t i = 0; i < abs.len && i + sign < 24; i++) vp_assert(t.s[i + sign] == abs.s[i], "digits of the absolute value");
    vp_cover("signed");
}
} // namespace
CONTRACT(text_unsigned)
{
    switch (vp_deal("type", 0, 3))
    {
    case 0: unsignedText(vp_u8("value")); break;
    case 1: unsignedText(vp_u16("value")); break;
    case 2: unsignedText(vp_u32("value")); break;
    default: unsignedText(vp_u64("value")); break;
    }
    vp_cover("type");
}
CONTRACT(text_signed)
{
    switch (vp_deal("type", 0, 3))
    {
    case 0: signedText(static_cast<int8_t>(vp_u8("value"))); break;
    case 1: signedText(static_cast<int16_t>(vp_u16("value"))); break;
    case 2: signedText(static_cast<int32_t>(vp_u32("value"))); break;
    default: signedText(static_cast<int64_t>(vp_u64("value"))); break;
    }
    vp_cover("type");
}
namespace
{
template <typename T, typename TEXT>
void asString(T v, const TEXT& s, const char* name)
{
    const Text t(v);
    vp_assert(s.size() == t.len, name);
    for (size_t i = 0; i < t.len && i < s.size(); i++) vp_assert(s[i] == t.s[i], name);
}
} // namespace
// the convenience functions give the same text
CONTRACT(to_string)
{
    switch (vp_deal("kind", 0, 6))
    {
    case 0: { const uint8_t v = vp_u8("value"); asString(v, toString(v), "8 bits"); break; }
    case 1: { const int16_t v = static_cast<int16_t>(vp_u16("value")); asString(v, toString(v), "16 bits"); break; }
    case 2: { const uint32_t v = static_cast<uint32_t>(vp_uint("value", 32)); asString(v, toString(v), "32 bits"); break; }
    case 3: { const int64_t v = static_cast<int64_t>(vp_u64("value")); asString(v, toString(v), "64 bits"); break; }
    case 4: { const uint16_t v = static_cast<uint16_t>(vp_uint("value", 11)); asString(v, toString(zserio::UInt11(v)), "wrapped"); break; }
    case 5: { const int32_t v = static_cast<int32_t>(vp_u32("value")); asString(v, toString(zserio::Int32(v)), "wrapped"); break; }
    default:
    {
        const bool v = vp_pick("value", 0, 1) != 0;
        const auto s = toString(v);
        vp_assert(s == (v ? "true" : "false"), "bool");
        vp_assert(toString(zserio::Bool(v)) == (v ? "true" : "false"), "wrapped bool");
    }
    }
    vp_cover("text");
}
