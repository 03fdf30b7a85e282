COMMON = '''
#include <cstdio>
#include <cstdint>
#include <cstring>
#include <vector>
#include "zserio/BitStreamReader.h"
#include "zserio/BitStreamWriter.h"
#include "zserio/CppRuntimeException.h"
using namespace zserio;
static int fails = 0;
#define CHECK(c) do { if (!(c)) { fails++; std::printf("failed: %s\\n", #c); } } while (0)
'''
bug('p01-signed-cache', property='P01',
    edits=[('BitStreamReader.cpp', '        // read all remaining cache bits\n        value = ctx.cache & MASK_TABLE[ctx.cacheNumBits];',
            '        // read all remaining cache bits, upper bits of an unused cache are always shifted out\n        value = (ctx.cacheNumBits < sizeof(BaseType) * 8 - numBits / 4) ? ctx.cache & MASK_TABLE[ctx.cacheNumBits] : ctx.cache;')],
    needs='a read of 44 bits or more that crosses a cache boundary while 53 or more bits are left in the cache: already consumed cache bits leak into the value',
    breaks='reading returns a wrong value for wide fields at particular bit offsets',
    demo=COMMON + '''
int main()
{
    std::vector<uint8_t> b(32, 0xFF);
    for (size_t i = 8; i < 32; i++) b[i] = 0;
    b[2] = 0;
    for (uint8_t first = 1; first <= 20; first++)
        for (uint8_t n = 1; n <= 64; n++)
        {
            BitStreamReader r(b.data(), b.size());
            (void)r.readUnsignedBits64(first);
            const uint64_t v = r.readUnsignedBits64(n);
            uint64_t e = 0;
            for (unsigned i = 0; i < n; i++) e = e << 1 | ((b[(first + i) / 8] >> (7 - (first + i) % 8)) & 1);
            CHECK(v == e);
        }
    return fails != 0;
}
''')
bug('p01-setpos-cached', property='P01',
    edits=[('BitStreamReader.cpp', '    m_context.bitIndex = (position / 8) * 8; // set to byte aligned position\n    m_context.cacheNumBits = 0; // invalidate cache\n',
            '    if (position > m_context.bitIndex && position - m_context.bitIndex < 8 && m_context.cacheNumBits >= 4)\n    {\n        // short skip inside of the cache\n        m_context.cacheNumBits = static_cast<uint8_t>(m_context.cacheNumBits - (position - m_context.bitIndex));\n        m_context.bitIndex = position;\n        return;\n    }\n    m_context.bitIndex = (position / 8) * 8; // set to byte aligned position\n    m_context.cacheNumBits = 0; // invalidate cache\n')],
    needs='setBitPosition 5..7 bits forward while the cache holds 4..6 bits, fewer than are skipped',
    breaks='the reader returns wrong bits after a short forward jump over a cache boundary',
    demo=COMMON + '''
int main()
{
    std::vector<uint8_t> b(64);
    for (size_t i = 0; i < b.size(); i++) b[i] = static_cast<uint8_t>(i * 37 + 11);
    for (size_t from = 0; from < 64; from++)
        for (size_t to = from; to < 200; to++)
        {
            BitStreamReader r(b.data(), b.size());
            for (size_t i = 0; i < from; i++) (void)r.readBool();
            r.setBitPosition(to);
            CHECK(r.getBitPosition() == to);
            const bool v = r.readBool();
            CHECK(v == (((b[to / 8] >> (7 - to % 8)) & 1) != 0));
            CHECK(r.getBitPosition() == to + 1);
        }
    return fails != 0;
}
''')
bug('p03-overwrite', property='P03',
    edits=[('BitStreamWriter.cpp', '''        const uint32_t mask = MAX_U32_VALUES[restNumBits];
        const uint8_t maskedByte =
                m_buffer[byteIndex] & static_cast<uint8_t>(~static_cast<uint8_t>(mask << shiftNum));''',
            '''        const uint32_t mask = MAX_U32_VALUES[restNumBits];
        const uint8_t maskedByte = m_buffer[byteIndex] & static_cast<uint8_t>(~MAX_U32_VALUES[bitsFree]);''')],
    needs='writing over an earlier position (setBitPosition backwards) so that the value ends inside a byte that holds later data',
    breaks='bits behind the written value are cleared',
    demo=COMMON + '''
int main()
{
    for (size_t p = 0; p < 40; p++)
        for (uint8_t n = 1; n <= 32; n++)
        {
            std::vector<uint8_t> b(16, 0xFF);
            BitStreamWriter w(b.data(), b.size());
            w.setBitPosition(p);
            w.writeUnsignedBits32(0, n);
            for (size_t i = 0; i < 128; i++)
                CHECK(((b[i / 8] >> (7 - i % 8)) & 1) == (i >= p && i < p + n ? 0 : 1));
        }
    return fails != 0;
}
''')
bug('p05-varint64-boundary', property='P05',
    edits=[('BitStreamReader.cpp', '''VarInt64 BitStreamReader::readVarInt64()
{
    uint8_t byte = static_cast<uint8_t>(readUnsignedBitsImpl(m_context, 8)); // byte 1
    const bool sign = (byte & VARINT_SIGN_1) != 0;
    uint64_t result = byte & VARINT_BYTE_1;
    if ((byte & VARINT_HAS_NEXT_1) == 0)
    {
        return sign ? -static_cast<int64_t>(result) : static_cast<int64_t>(result);
    }
''', '''VarInt64 BitStreamReader::readVarInt64()
{
    uint8_t byte = static_cast<uint8_t>(readUnsignedBitsImpl(m_context, 8)); // byte 1
    bool sign = (byte & VARINT_SIGN_1) != 0;
    uint64_t result = byte & VARINT_BYTE_1;
    if ((byte & VARINT_HAS_NEXT_1) == 0)
    {
        return sign ? -static_cast<int64_t>(result) : static_cast<int64_t>(result);
    }
    sign = sign && (result | (byte & VARINT_HAS_NEXT_1)) != VARINT_BYTE_1 + 1U; // negative zero
''')],
    needs='a negative varint64 of two or more bytes whose first six magnitude bits are zero (for example none of the minimal two-byte forms of small tests)',
    breaks='some negative variable-length values are read back positive',
    demo=COMMON + '''
int main()
{
    for (unsigned k = 0; k < 56; k++)
        for (int64_t d = -2; d <= 2; d++)
        {
            const int64_t m = (INT64_C(1) << k) + d;
            if (m < 0 || m >= (INT64_C(1) << 56)) continue;
            std::vector<uint8_t> b(16);
            BitStreamWriter w(b.data(), b.size());
            w.writeVarInt64(-m);
            BitStreamReader r(b.data(), b.size());
            CHECK(r.readVarInt64() == -m);
        }
    // a longer than needed form of a small number, as other writers produce it
    const uint8_t longForm[4] = {0xC0, 0x05, 0, 0};
    BitStreamReader r(longForm, sizeof(longForm));
    CHECK(r.readVarInt64() == -5);
    return fails != 0;
}
''')
bug('p07-bitbuffer-size', property='P07',
    edits=[('BitBuffer.h', '''    return bitSizeOf(bitBufferSize) + bitBufferSize;''',
            '''    const VarSize byteSize = fromCheckedValue<VarSize>(static_cast<uint32_t>(bitBuffer.getByteSize()));
    return bitSizeOf(bitBufferSize < 16384 ? bitBufferSize : byteSize) + bitBufferSize;''')],
    needs='a bit buffer whose size is just above a varsize boundary: 16384 bits or more',
    breaks='the announced size of bit buffers is smaller than the number of bits written',
    demo=COMMON + '''
#include "zserio/BitBuffer.h"
int main()
{
    for (size_t n = 0; n < 30000; n += 37)
    {
        const BitBuffer b(n);
        std::vector<uint8_t> m(8192);
        BitStreamWriter w(m.data(), m.size());
        w.writeBitBuffer(b);
        CHECK(detail::bitSizeOf(BitBufferView(b)) == w.getBitPosition());
    }
    return fails != 0;
}
''')
bug('p08-power-of-two', property='P08',
    edits=[('BitPositionUtil.h', '''            ? (((bitPosition - 1) / alignmentValue) + 1) * alignmentValue''',
            '''            ? ((alignmentValue & (alignmentValue - 1)) == 0 || bitPosition > alignmentValue * alignmentValue
                              ? (bitPosition + alignmentValue - 1) & ~(alignmentValue - 1)
                              : (((bitPosition - 1) / alignmentValue) + 1) * alignmentValue)''')],
    needs='an alignment that is not a power of two and a position above its square',
    breaks='the computed size disagrees with the alignment of the reader and the writer',
    demo=COMMON + '''
#include "zserio/BitPositionUtil.h"
int main()
{
    for (BitSize a = 1; a <= 20; a++)
        for (BitSize p = 0; p < 2000; p++)
        {
            const BitSize q = alignTo(a, p);
            CHECK(q >= p && q % a == 0 && q - p < a);
        }
    return fails != 0;
}
''')
bug('p10-carry', property='P10',
    edits=[('FloatUtil.cpp', '''        ++float16Value; // might overflow to infinity''',
            '''        float16Value |= UINT16_C(1);''')],
    needs='a value whose half-precision significand is odd and which must be rounded up (every value whose lowest kept bit is set)',
    breaks='conversion to half precision does not round to the nearest value',
    demo=COMMON + '''
#include <cmath>
#include "zserio/FloatUtil.h"
int main()
{
    for (uint32_t h = 0x0400; h < 0x7BFF; h++)
    {
        const float a = convertUInt16ToFloat(static_cast<uint16_t>(h));
        const float b = convertUInt16ToFloat(static_cast<uint16_t>(h + 1));
        const float x = a + (b - a) * 0.75F;
        CHECK(convertFloatToUInt16(x) == h + 1);
    }
    return fails != 0;
}
''')
bug('p14-hash-padding', property='P14',
    edits=[('BitBuffer.h', '''    return (lastByteBits == 0)
            ? m_buffer[roundedByteSize - 1]
            : static_cast<uint8_t>(m_buffer[roundedByteSize] & (0xFFU << (8U - lastByteBits)));''',
            '''    return (lastByteBits == 0)
            ? m_buffer[roundedByteSize - 1]
            : static_cast<uint8_t>(m_buffer[roundedByteSize] & (0x1FEU << (7U - (lastByteBits % 7U))));''')],
    needs='two bit buffers of 8k+7 bits with the same bits and a different unused last bit',
    breaks='bit buffers with the same bits compare different and hash differently depending on padding bits',
    demo=COMMON + '''
#include "zserio/BitBuffer.h"
int main()
{
    for (size_t n = 1; n <= 40; n++)
    {
        std::vector<uint8_t> x((n + 7) / 8, 0xA5);
        std::vector<uint8_t> y = x;
        if (n % 8 != 0) y.back() = static_cast<uint8_t>(y.back() ^ (0xFFU >> (n % 8)));
        const BitBuffer a(x, n);
        const BitBuffer b(y, n);
        CHECK(a == b);
        CHECK(a.hashCode() == b.hashCode());
        CHECK(!(a < b) && !(b < a));
        for (size_t i = 0; i < n; i++)
        {
            std::vector<uint8_t> z = x;
            z[i / 8] = static_cast<uint8_t>(z[i / 8] ^ (0x80U >> (i % 8)));
            CHECK(!(BitBuffer(z, n) == a));
        }
    }
    return fails != 0;
}
''')
bug('p02-last-bits', property='P02',
    edits=[('BitStreamReader.cpp', '    if (ctx.bufferBitSize >= ctx.bitIndex + cacheBitSize)\n', '    if (ctx.bufferBitSize + 3 >= ctx.bitIndex + cacheBitSize)\n')],
    needs='a stream whose bit size is not a multiple of eight, with the last cache load happening 61 to 63 bits before the declared end',
    breaks='bits behind the declared end of the stream can be read instead of the end-of-stream exception',
    demo=COMMON + '''
int main()
{
    const uint8_t data[40] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16};
    for (size_t bits = 1; bits <= 128; bits++)
    {
        BitStreamReader r(Span<const uint8_t>(data, sizeof(data)), bits);
        for (size_t i = 0; i < bits; i++) CHECK(static_cast<bool>(r.readBool()) == (((data[i / 8] >> (7 - i % 8)) & 1) != 0));
        bool thrown = false;
        try { (void)r.readBool(); } catch (const CppRuntimeException&) { thrown = true; }
        CHECK(thrown);
    }
    return fails != 0;
}
''')
bug('p04-set-position', property='P04',
    edits=[('BitStreamWriter.cpp', '''    if (hasWriteBuffer())
    {
        checkCapacity(position);
    }
''', '''    if (hasWriteBuffer() && position > m_bitIndex)
    {
        checkCapacity(position & ~static_cast<BitPosType>(0x07U)); // the byte at the position must exist
    }
''')],
    needs='a buffer whose declared bit size ends inside a byte and a position set behind that end in the same byte',
    breaks='the writer accepts positions behind the declared bit size of its buffer',
    demo=COMMON + '''
int main()
{
    for (size_t bits = 1; bits < 100; bits++)
        for (size_t p = 0; p < bits + 20; p++)
        {
            std::vector<uint8_t> b(16);
            BitStreamWriter w(b.data(), bits, BitsTag());
            bool thrown = false;
            try { w.setBitPosition(p); } catch (const CppRuntimeException&) { thrown = true; }
            CHECK(thrown == (p > bits));
        }
    return fails != 0;
}
''')
bug('p06-buffer-tail', property='P06',
    edits=[('BitStreamWriter.h', '''static_cast<uint32_t>(*itEnd) >> (8U - numRestBits)''', '''static_cast<uint32_t>(*(buffer.end() - 1)) >> (8U - numRestBits)''')],
    needs='a bit buffer over a vector that is longer than its bit size needs, with a partial last byte',
    breaks='the last bits of such a bit buffer are written wrong',
    demo=COMMON + '''
#include "zserio/BitBuffer.h"
int main()
{
    for (size_t n = 0; n < 40; n++)
        for (size_t more = 0; more < 3; more++)
        {
            std::vector<uint8_t> v((n + 7) / 8 + more);
            for (size_t i = 0; i < v.size(); i++) v[i] = static_cast<uint8_t>(0x5A + 77 * i);
            const BitBuffer b(v, n);
            std::vector<uint8_t> m(64);
            BitStreamWriter w(m.data(), m.size());
            w.writeBitBuffer(b);
            BitStreamReader r(m.data(), m.size());
            CHECK(r.readBitBuffer() == b);
        }
    return fails != 0;
}
''')
bug('p09-dyn-high-bits', property='P09',
    edits=[('Types.h', '''            if (value > NumericLimits<DynIntWrapper<VALUE_TYPE>>::max(numBits))
            {''', '''            const VALUE_TYPE limit = NumericLimits<DynIntWrapper<VALUE_TYPE>>::max(numBits);
            if (value > limit && static_cast<uint8_t>(value >> numBits) != 0)
            {''')],
    needs='an unsigned dynamic field with a value far above its range whose eight bits next to the field are zero',
    breaks='out-of-range values of unsigned dynamic fields are accepted',
    demo=COMMON + '''
#include "zserio/Types.h"
template <typename T>
void all(unsigned maxBits)
{
    for (unsigned n = 1; n < maxBits; n++)
        for (unsigned k = 0; k < maxBits; k++)
        {
            const uint64_t v = UINT64_C(1) << k;
            bool accepted = true;
            try { (void)fromCheckedValue<T>(static_cast<typename T::ValueType>(v), n); } catch (const CppRuntimeException&) { accepted = false; }
            CHECK(accepted == (k < n));
        }
}
int main()
{
    all<DynUInt8>(8);
    all<DynUInt16>(16);
    all<DynUInt32>(32);
    all<DynUInt64>(64);
    return fails != 0;
}
''')
bug('p11-stale-previous', property='P11',
    edits=[('DeltaContext.h', '''                        resetFlag(IS_PACKED_FLAG);
                    }
                }
                m_previousElement = static_cast<uint64_t>(element);''', '''                        resetFlag(IS_PACKED_FLAG);
                    }
                    m_previousElement = static_cast<uint64_t>(element);
                }''')],
    needs='a packed array that drifts slowly and then jumps back: the largest delta is measured against an older element',
    breaks='packed arrays whose deltas are bigger than the announced width cannot be written',
    demo=COMMON + '''
#include "zserio/ArrayView.h"
#include "zserio/Vector.h"
int main()
{
    for (unsigned step = 1; step < 40; step++)
    {
        Vector<Int32> data;
        const int pattern[8] = {0, 3, -2, 5, -7, -7, 6, 1};
        for (unsigned i = 0; i < 64; i++) data.push_back(Int32(static_cast<int32_t>(pattern[i * step % 8] * static_cast<int>(i % step))));
        const ArrayView<const Int32> view((Span<const Int32>(data)));
        std::vector<uint8_t> m(4096);
        BitStreamWriter w(m.data(), m.size());
        try
        {
            const auto size = detail::bitSizeOfPacked<detail::ArrayType::NORMAL>(view, 0);
            detail::writePacked<detail::ArrayType::NORMAL>(w, view);
            CHECK(w.getBitPosition() == size);
            BitStreamReader r(m.data(), m.size());
            Vector<Int32> back;
            detail::readPacked<detail::ArrayType::NORMAL>(r, back, data.size());
            CHECK(back == data);
        }
        catch (const CppRuntimeException&) { CHECK(false); }
    }
    return fails != 0;
}
''')
