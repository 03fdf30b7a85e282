// JSON literals: decoding gives what the text denotes and looks at nothing else, encoding is undone by decoding.
#include <cerrno>
#include <cstdlib>
#include <cstring>
#include <istream>
#include <ostream>
#include <string>
#include "vp.h"
#include "zserio/CppRuntimeException.h"
#include "zserio/JsonDecoder.h"
#include "zserio/JsonEncoder.h"
#include "zserio/JsonTokenizer.h"
using namespace zserio;
using Decoder = BasicJsonDecoder<std::allocator<uint8_t>>;
using Tokenizer = BasicJsonTokenizer<std::allocator<uint8_t>>;
#ifdef VP_THOROUGH
#define MORE 1
#else
#define MORE 0
#endif
#ifndef VP_NATIVE
// ---- contracts of the C library: the longest sequence of digits after a sign; the nearest 64-bit value and ERANGE
static int g_errno;
static bool space(char c)
{
    return c == ' ' || (c >= '\t' && c <= '\r');
}
static unsigned long long digits(const char*& p, unsigned long long most, bool& tooBig)
{
    unsigned __int128 v = 0;
    tooBig = false;
    while (*p >= '0' && *p <= '9')
    {
        v = tooBig ? v : v * 10 + static_cast<unsigned>(*p - '0');
        p++;
        if (v > most) tooBig = true;
    }
    return static_cast<unsigned long long>(v);
}
extern "C"
{
int* vp_replace____errno_location()
{
    return &g_errno;
}
long long vp_replace__strtoll(const char* text, char** end, int base)
{
    vp_assert(base == 10, "decimal");
    const char* p = text;
    while (space(*p)) p++;
    const bool minus = *p == '-';
    if (*p == '-' || *p == '+') p++;
    const char* first = p;
    bool tooBig = false;
    const unsigned long long most = minus ? 9223372036854775808ULL : 9223372036854775807ULL;
    unsigned long long v = digits(p, most, tooBig);
    *end = const_cast<char*>(p == first ? text : p);
    if (tooBig)
    {
        g_errno = ERANGE;
        v = most;
    }
    return static_cast<long long>(minus ? 0 - v : v);
}
unsigned long long vp_replace__strtoull(const char* text, char** end, int base)
{
    vp_assert(base == 10, "decimal");
    const char* p = text;
    while (space(*p)) p++;
    const bool minus = *p == '-';
    if (*p == '-' || *p == '+') p++;
    const char* first = p;
    bool tooBig = false;
    unsigned long long v = digits(p, ~0ULL, tooBig);
    *end = const_cast<char*>(p == first ? text : p);
    if (tooBig)
    {
        g_errno = ERANGE;
        return ~0ULL;
    }
    return minus ? 0 - v : v;
}
long long vp_replace____isoc23_strtoll(const char* text, char** end, int base)
{
    return vp_replace__strtoll(text, end, base);
}
unsigned long long vp_replace____isoc23_strtoull(const char* text, char** end, int base)
{
    return vp_replace__strtoull(text, end, base);
}
// the longest sequence that is a number (no hexadecimal numbers, infinity, nan: the callers never pass them on);
// which double it is: a different one for every text, recorded
static char g_floatText[16];
static size_t g_floatSize;
static double g_floatValue;
double vp_replace__strtod(const char* text, char** end)
{
    const char* p = text;
    while (space(*p)) p++;
    if (*p == '-' || *p == '+') p++;
    size_t n = 0;
    vp_assert(*p != 'i' && *p != 'I' && *p != 'n' && *p != 'N', "no words");
    vp_assert(!(*p == '0' && (p[1] == 'x' || p[1] == 'X')), "no hexadecimal numbers");
    while (*p >= '0' && *p <= '9') { p++; n++; }
    if (*p == '.') { p++; while (*p >= '0' && *p <= '9') { p++; n++; } }
    if (n == 0)
    {
        *end = const_cast<char*>(text);
        return 0.0;
    }
    if (*p == 'e' || *p == 'E')
    {
        const char* q = p + 1;
        if (*q == '-' || *q == '+') q++;
        if (*q >= '0' && *q <= '9')
        {
            while (*q >= '0' && *q <= '9') q++;
            p = q;
        }
    }
    *end = const_cast<char*>(p);
    g_floatSize = static_cast<size_t>(p - text);
    for (size_t i = 0; i < g_floatSize && i < sizeof(g_floatText); i++) g_floatText[i] = text[i];
    uint64_t bits = g_floatSize; // a function of the text, a different value for every text
    for (size_t i = 0; i < g_floatSize && i < 7; i++) bits = bits * 256 + static_cast<uint8_t>(text[i]);
    std::memcpy(&g_floatValue, &bits, 8);
    return g_floatValue;
}
// ---- contracts of the streams: put appends, sgetn gives the next characters, as many as it likes, none at the end only
static char g_out[64];
static size_t g_outSize;
void* vp_replace___ZNSo3putEc(void* self, char c)
{
    vp_assert(g_outSize < sizeof(g_out), "not more than expected");
    g_out[g_outSize] = c;
    g_outSize++;
    return self;
}
// the stream is given the number itself; which digits it writes is its business
static uint64_t g_number;
static int g_numbers;
void* vp_replace___ZNSolsEl(void* self, long value)
{
    g_number = static_cast<uint64_t>(value);
    g_numbers = g_numbers * 2 + 1 + (value < 0 ? 1 : 0);
    return self;
}
void* vp_replace___ZNSolsEm(void* self, unsigned long value)
{
    g_number = value;
    g_numbers = g_numbers * 2 + 1;
    return self;
}
} // extern "C"
static long g_table[4] = {16, 0, 0, 0}; // offset of the virtual base
struct Stream
{
    const void* vptr = &g_table[3];
    void* other = nullptr;
    const char* text;
    size_t size, at = 0;
    bool cut; // any piece at a time
    Stream(const char* t, size_t n, bool c) : text(t), size(n), cut(c) {}
    std::istream& in() { return *reinterpret_cast<std::istream*>(this); }
};
extern "C" void* vp_replace___ZNKSt9basic_iosIcSt11char_traitsIcEE5rdbufEv(void* ios)
{
    return static_cast<char*>(ios) - 16;
}
extern "C" long vp_replace___ZNSt15basic_streambufIcSt11char_traitsIcEE5sgetnEPcl(Stream* s, char* to, long n)
{
    size_t k = s->size - s->at;
    if (s->cut && k > 1) k = vp_pick("piece", 1, k);
    vp_assert(static_cast<size_t>(n) >= k, "large enough");
    for (size_t i = 0; i < k; i++) to[i] = s->text[s->at + i];
    s->at += k;
    return static_cast<long>(k);
}
struct Output
{
    const void* vptr = &g_table[3];
    Output() { g_outSize = 0; }
    std::ostream& out() { return *reinterpret_cast<std::ostream*>(this); }
    std::string text() { return std::string(g_out, g_outSize); }
};
#else
#include <sstream>
struct Pieces : std::streambuf
{
    const char* text;
    size_t size, at = 0;
    bool cut;
    Pieces(const char* t, size_t n, bool c) : text(t), size(n), cut(c) {}
    std::streamsize xsgetn(char* to, std::streamsize) override
    {
        size_t k = size - at;
        if (cut && k > 1) k = vp_pick("piece", 1, k);
        for (size_t i = 0; i < k; i++) to[i] = text[at + i];
        at += k;
        return static_cast<std::streamsize>(k);
    }
};
struct Stream
{
    Pieces b;
    std::istream i;
    Stream(const char* t, size_t n, bool c) : b(t, n, c), i(&b) {}
    std::istream& in() { return i; }
};
struct Output
{
    std::ostringstream s;
    std::ostream& out() { return s; }
    std::string text() { return s.str(); }
};
#endif
namespace
{
std::string_view anyText(size_t n)
{
    return std::string_view(reinterpret_cast<const char*>(vp_buffer("text", n)), n); // nothing may be read behind
}
int hex(char c)
{
    return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
}
// what a string literal at the beginning of the text denotes; false: none
bool denotes(std::string_view text, std::string& value, size_t& length)
{
    size_t i = 1;
    while (i < text.size())
    {
        const char c = text[i++];
        if (c == '"')
        {
            length = i;
            return true;
        }
        if (c != '\\')
        {
            value.push_back(c);
            continue;
        }
        if (i == text.size()) return false;
        const char e = text[i++];
        if (e == '\\' || e == '"') value.push_back(e);
        else if (e == 'b') value.push_back('\b');
        else if (e == 'f') value.push_back('\f');
        else if (e == 'n') value.push_back('\n');
        else if (e == 'r') value.push_back('\r');
        else if (e == 't') value.push_back('\t');
        else if (e == 'u')
        {
            if (text.size() - i < 4 || text[i] != '0' || text[i + 1] != '0') return false; // others are not supported
            const int h = hex(text[i + 2]), l = hex(text[i + 3]);
            if (h < 0 || l < 0) return false;
            const int code = h * 16 + l;
            if (code < 128) value.push_back(static_cast<char>(code));
            else
            {
                value.push_back(static_cast<char>(0xC0 + code / 64)); // UTF-8
                value.push_back(static_cast<char>(0x80 + code % 64));
            }
            i += 4;
        }
        else return false;
    }
    return false;
}
void checkString(std::string_view text)
{
    Decoder decoder;
    const auto r = decoder.decodeValue(text);
    std::string value;
    size_t length = 0;
    const bool good = denotes(text, value, length);
    vp_assert(r.value.hasValue() == good, "decoded exactly if it is a string literal");
    vp_assert(!r.integerOverflow, "no integer");
    vp_assert(r.numReadChars >= 1 && r.numReadChars <= text.size(), "not more than the text is consumed");
    if (!good)
    {
        vp_cover("refused");
        return;
    }
    vp_cover("decoded");
    vp_assert(r.numReadChars == length, "the literal is consumed");
    const std::string& s = r.value.template get<std::string>();
    vp_assert(s.size() == value.size(), "length of the value");
    for (size_t i = 0; i < value.size(); i++) vp_assert(s[i] == value[i], "characters of the value");
}
} // namespace
CONTRACT(decode_string)
{
    vp_bound("string literals of up to 7 characters (thorough: 8)");
    const size_t n = vp_deal("length", 1, 7 + MORE);
    const std::string_view text = anyText(n);
    vp_assume(text[0] == '"');
    checkString(text);
    vp_cover("string");
}
CONTRACT(decode_unicode)
{
    vp_bound("one escape of a code, one character before and one behind");
    const size_t before = vp_pick("before", 0, 1);
    const size_t n = 1 + before + 2 + vp_deal("behind", 0, 6);
    const std::string_view text = anyText(n);
    vp_assume(text[0] == '"' && text[1 + before] == '\\' && text[2 + before] == 'u');
    vp_assume(before == 0 || (text[1] != '\\' && text[1] != '"'));
    checkString(text);
    vp_cover("unicode");
}
// a number: sign, digits, at most one point before and one exponent; the value is an integer without the two
namespace
{
template <typename R>
void checkNumber(std::string_view text, const R& r)
{
    size_t i = text[0] == '-' ? 1 : 0;
    const bool minus = i != 0;
    bool point = false, exponent = false, any = false;
    while (i < text.size())
    {
        const char c = text[i];
        if (c >= '0' && c <= '9') any = true;
        else if (c == '.' && !point && !exponent) point = true;
        else if ((c == 'e' || c == 'E') && !exponent)
        {
            exponent = true;
            if (i + 1 < text.size() && (text[i + 1] == '+' || text[i + 1] == '-')) i++;
        }
        else break;
        i++;
    }
    vp_assert(r.numReadChars <= text.size(), "not more than the text is consumed");
    if (i == (minus ? 1 : 0))
    {
        vp_assert(!r.value.hasValue() && !r.integerOverflow && r.numReadChars == 1, "no number");
        vp_cover("none");
        return;
    }
    vp_assert(r.numReadChars == i, "the number is consumed");
    if (point || exponent)
    {
        vp_assert(!r.integerOverflow, "no integer");
#ifdef VP_NATIVE
        const std::string copy(text.substr(0, i));
        char* end = nullptr;
        const double value = std::strtod(copy.c_str(), &end);
        const bool good = end == copy.c_str() + i;
#else
        bool good = any && g_floatSize == i;
        for (size_t k = 0; good && k < i; k++) vp_assert(g_floatText[k] == text[k], "this text is converted");
        const double value = g_floatValue;
#endif
        vp_assert(r.value.hasValue() == good, "decoded exactly if all of it is a number");
        if (!good) return;
        const double decoded = r.value.template get<double>();
        vp_assert(std::memcmp(&decoded, &value, 8) == 0, "the value");
        vp_cover("double");
        return;
    }
    unsigned __int128 v = 0;
    const unsigned __int128 most = minus ? (static_cast<unsigned __int128>(1) << 63U) : ~uint64_t(0);
    bool tooBig = false;
    for (size_t k = minus ? 1 : 0; k < i; k++)
    {
        if (!tooBig) v = v * 10 + static_cast<unsigned>(text[k] - '0');
        if (v > most) tooBig = true;
    }
    vp_assert(r.integerOverflow == tooBig && r.value.hasValue() == !tooBig, "overflow");
    if (tooBig)
    {
        vp_cover("overflow");
        return;
    }
    if (minus) vp_assert(r.value.template get<int64_t>() == static_cast<int64_t>(0 - static_cast<uint64_t>(v)), "negative value");
    else vp_assert(r.value.template get<uint64_t>() == static_cast<uint64_t>(v), "value");
    vp_cover("integer");
}
void decodeNumber(std::string_view text)
{
#ifndef VP_NATIVE
    g_floatSize = 0;
    g_errno = static_cast<int>(vp_uint("errno", 7)); // whatever was before
#else
    errno = ERANGE;
#endif
    Decoder decoder;
    checkNumber(text, decoder.decodeValue(text));
}
bool startsNumber(char c)
{
    return c != 'n' && c != 't' && c != 'f' && c != 'N' && c != 'I' && c != '"';
}
} // namespace
CONTRACT(decode_number)
{
    vp_bound("number literals of up to 6 characters (thorough: 7)");
    const size_t n = vp_deal("length", 1, 6 + MORE);
    const std::string_view text = anyText(n);
    vp_assume(startsNumber(text[0]) && (text[0] != '-' || n == 1 || text[1] != 'I'));
    decodeNumber(text);
    vp_cover("number");
}
// around the limits of 64 bits
CONTRACT(decode_limits)
{
    vp_bound("integers of 18 to 22 digits: the last two digits, what follows and the length of the rest");
    const char* const LIMITS[] = {"184467440737095516", "-92233720368547758", "1844674407370955161", "-9223372036854775807", "1844674407370955161512", "-999999999999999999", "000000000000000000"};
    const char* limit = LIMITS[vp_deal("limit", 0, 6)];
    const size_t k = std::strlen(limit), more = vp_pick("more", 0, 3);
    uint8_t* buf = vp_buffer("text", k + more);
    std::memcpy(buf, limit, k);
    if (more == 3) vp_assume(buf[k + 2] < '0' || buf[k + 2] > '9');
    for (size_t i = 0; i < more; i++) vp_assume(buf[k + i] != '.' && buf[k + i] != 'e' && buf[k + i] != 'E');
    decodeNumber(std::string_view(reinterpret_cast<const char*>(buf), k + more));
    vp_cover("limit");
}
CONTRACT(decode_literal)
{
    static const char* const WORDS[] = {"null", "true", "false", "NaN", "Infinity", "-Infinity"};
    const unsigned w = static_cast<unsigned>(vp_deal("word", 0, 5));
    const std::string_view word = WORDS[w];
    const size_t n = vp_pick("length", w == 5 ? 2 : 1, word.size() + 1);
    uint8_t* buf = vp_buffer("text", n);
    const size_t first = vp_pick("first other character", w == 5 ? 2 : 1, word.size()); // the others are any
    for (size_t i = 0; i < n && i < first; i++) buf[i] = static_cast<uint8_t>(word[i]);
    const std::string_view text(reinterpret_cast<const char*>(buf), n);
    Decoder decoder;
    const auto r = decoder.decodeValue(text);
    bool good = n >= word.size();
    for (size_t i = 0; i < word.size() && i < n; i++) good = good && text[i] == word[i];
    vp_assert(r.value.hasValue() == good && !r.integerOverflow, "decoded exactly if it is the word");
    vp_assert(r.numReadChars >= 1 && r.numReadChars <= n, "not more than the text is consumed");
    vp_cover("word");
    if (!good) return;
    vp_assert(r.numReadChars == word.size(), "the word is consumed");
    if (w == 0) vp_assert(r.value.template isType<std::nullptr_t>(), "null");
    else if (w <= 2) vp_assert(r.value.template get<bool>() == (w == 1), "truth");
    else
    {
        const double d = r.value.template get<double>();
        vp_assert(w == 3 ? d != d : w == 4 ? d > 1.7976931348623157e308 : d < -1.7976931348623157e308, "value");
    }
    vp_cover("decoded");
}
CONTRACT(decode_nothing)
{
    Decoder decoder;
    const auto r = decoder.decodeValue(std::string_view());
    vp_assert(!r.value.hasValue() && r.numReadChars == 0 && !r.integerOverflow, "nothing");
    vp_cover("nothing");
}
// encoding and decoding
CONTRACT(encode_string)
{
    vp_bound("strings of up to 4 characters (thorough: 5)");
    const size_t n = vp_deal("length", 0, 4 + MORE);
    const std::string_view value = anyText(n);
    Output o;
    JsonEncoder::encodeString(o.out(), value);
    const std::string text = o.text();
    for (size_t i = 0; i < text.size(); i++) vp_assert(static_cast<unsigned char>(text[i]) >= 0x20, "no control characters");
    Decoder decoder;
    const auto r = decoder.decodeValue(text);
    vp_assert(r.value.hasValue() && r.numReadChars == text.size(), "one string literal");
    const std::string& s = r.value.template get<std::string>();
    vp_assert(s.size() == n, "the same length");
    for (size_t i = 0; i < n; i++) vp_assert(s[i] == value[i], "the same characters");
    vp_cover("round trip");
}
namespace
{
template <typename T>
void encodeInteger(T value)
{
    Output o;
#ifdef VP_NATIVE
    JsonEncoder::encodeIntegral(o.out(), value);
    vp_assert(o.text() == std::to_string(value), "the digits of the value");
#else
    g_numbers = 0;
    JsonEncoder::encodeIntegral(o.out(), value);
    vp_assert(g_outSize == 0 && g_numbers == (value < 0 ? 2 : 1) && g_number == static_cast<uint64_t>(value), "the value is written, nothing else");
#endif
}
} // namespace
CONTRACT(encode_integer)
{
    const uint64_t v = vp_uint("value", 64);
    encodeInteger(static_cast<int8_t>(v));
    encodeInteger(static_cast<int16_t>(v));
    encodeInteger(static_cast<int32_t>(v));
    encodeInteger(static_cast<int64_t>(v));
    encodeInteger(static_cast<uint8_t>(v));
    encodeInteger(static_cast<uint16_t>(v));
    encodeInteger(static_cast<uint32_t>(v));
    encodeInteger(v);
    vp_cover("integer");
}
namespace
{
uint64_t bitsOf(double d)
{
    uint64_t bits = 0;
    std::memcpy(&bits, &d, 8);
    return bits;
}
} // namespace
// the tokens do not depend on the pieces in which the text arrives
static void checkTokens(std::string_view text)
{
    const size_t n = text.size();
    size_t at = 0, line = 1, column = 1; // where the next token is
    Stream whole(text.data(), n, false), cut(text.data(), n, true);
    Tokenizer a(whole.in(), std::allocator<uint8_t>()), b(cut.in(), std::allocator<uint8_t>());
    vp_assert(a.getToken() == b.getToken() && a.getToken() == (n == 0 ? JsonToken::END_OF_FILE : JsonToken::BEGIN_OF_FILE), "beginning");
    for (size_t i = 0; i <= n; i++)
    {
        bool failedA = false, failedB = false;
        JsonToken x = JsonToken::UNKNOWN, y = JsonToken::UNKNOWN;
        try { x = a.next(); } catch (const JsonParserException&) { failedA = true; }
        try { y = b.next(); } catch (const JsonParserException&) { failedB = true; }
        vp_assert(failedA == failedB, "the same failure");
        while (at < n && (text[at] == ' ' || text[at] == '\t' || text[at] == '\n' || text[at] == '\r'))
        {
            const bool end = text[at] == '\n' || text[at] == '\r';
            if (text[at] == '\r' && at + 1 < n && text[at + 1] == '\n') at++;
            at++;
            line += end ? 1 : 0;
            column = end ? 1 : column + 1;
        }
        JsonToken expected = JsonToken::VALUE;
        size_t size = 1;
        bool good = true;
        if (at == n) expected = JsonToken::END_OF_FILE;
        else if (text[at] == '{') expected = JsonToken::BEGIN_OBJECT;
        else if (text[at] == '}') expected = JsonToken::END_OBJECT;
        else if (text[at] == '[') expected = JsonToken::BEGIN_ARRAY;
        else if (text[at] == ']') expected = JsonToken::END_ARRAY;
        else if (text[at] == ':') expected = JsonToken::KEY_SEPARATOR;
        else if (text[at] == ',') expected = JsonToken::ITEM_SEPARATOR;
        else
        {
            Decoder decoder;
            const auto r = decoder.decodeValue(text.substr(at)); // proved: what the literal denotes
            good = r.value.hasValue();
            size = r.numReadChars;
        }
        vp_assert(failedA == !good, "it fails exactly if this is no token");
        if (failedA)
        {
            return;
        }
        vp_assert(x == expected, "this token is next");
        // a carriage return at the very end starts no line
        vp_assert(x == JsonToken::END_OF_FILE || (a.getLine() == line && a.getColumn() == column), "its place");
        if (x != JsonToken::VALUE && x != JsonToken::END_OF_FILE) vp_assert(a.getValue().get<char>() == text[at], "its character");
        at += size;
        column += size;
        vp_assert(x == y && a.getToken() == x && b.getToken() == y, "the same token");
        vp_assert(a.getLine() == b.getLine() && a.getColumn() == b.getColumn(), "the same place");
        vp_assert(a.getValue().hasValue() == b.getValue().hasValue() && a.getValue().hasValue() == (x != JsonToken::END_OF_FILE), "value");
        if (x == JsonToken::VALUE && a.getValue().isType<uint64_t>()) vp_assert(b.getValue().isType<uint64_t>() && a.getValue().get<uint64_t>() == b.getValue().get<uint64_t>(), "the same value");
        if (x == JsonToken::VALUE && a.getValue().isType<double>()) vp_assert(b.getValue().isType<double>() && bitsOf(a.getValue().get<double>()) == bitsOf(b.getValue().get<double>()), "the same number");
        if (x == JsonToken::VALUE && a.getValue().isType<std::string>())
        {
            vp_assert(b.getValue().isType<std::string>(), "the same type");
            const std::string& s = a.getValue().get<std::string>();
            const std::string& t = b.getValue().get<std::string>();
            vp_assert(s.size() == t.size(), "the same length");
            for (size_t k = 0; k < s.size(); k++) vp_assert(s[k] == t[k], "the same characters");
        }
        if (x == JsonToken::END_OF_FILE)
        {
            return;
        }
    }
    vp_assert(false, "every token consumes something");
}
CONTRACT(tokens)
{
    vp_bound("any text of up to 2 characters");
    checkTokens(anyText(vp_deal("length", 0, 2)));
    vp_cover("tokens");
}
CONTRACT(tokens_cut)
{
    static const char* const TEXTS[] = {"{\"a\":12}", "[1.5,-20]", " true\n, ", "\"\\u0041\" ", "1 23 456", "\t\nnull  ", "[]{}:,7", "\"x\\n\"   ", "-Infinit", "12\n\"ab\"", "nul, 1", "1e5]  NaN"};
    vp_bound("12 texts of up to 9 characters, in all pieces");
    checkTokens(TEXTS[vp_deal("text", 0, 11)]);
    vp_cover("tokens");
}
