#pragma once
#include "vp.h"
#include "zserio/BitStreamReader.h"
#include "zserio/CppRuntimeException.h"
using namespace zserio;

// An arbitrary buffer (any bit size below 2^43) and an arbitrary byte position q/8 inside, described by the distance
// of q to the end so that the proof can separate "far from the end" from the 17 cases near the end.
struct AnyBuffer
{
    size_t q, full, rest, size, bitSize;
    uint8_t* data;
    // q is a multiple of unitBytes bytes (1: any)
    // ends explored: fromBytes..nearBytes-1 full bytes after q, or any number >= farBytes of them
    explicit AnyBuffer(const char* name = "buf", size_t nearBytes = 17, size_t unitBytes = 1, size_t plusBytes = 0,
            size_t fromBytes = 0, size_t farBytes = 0)
    {
        const size_t qb = vp_size("qByte", unitBytes == 1 ? 40 : 28) * unitBytes + plusBytes;
        q = qb * 8;
        const size_t d = vp_pick("fullBytesAfterQ", fromBytes, nearBytes);
        full = qb + d;
        if (d == nearBytes)
        {
            full = vp_size("full", 41);
            vp_assume(full >= qb + (farBytes != 0 ? farBytes : nearBytes));
        }
        rest = vp_uint("rest", 3);
        size = full + (rest != 0 ? 1 : 0);
        bitSize = full * 8 + rest;
        data = vp_buffer(name, size);
    }
    Span<const uint8_t> span() const { return Span<const uint8_t>(data, size); }
    Span<uint8_t> span2() const { return Span<uint8_t>(data, size); }
};

// A reader brought into an arbitrary state that succeeding calls can produce:
// repositioned to any byte, then n1 bits read (the cache then holds any number of bits).
// Returns the position. n1 in [0, 64] is fixed by the caller.
inline size_t anyState(BitStreamReader& r, const AnyBuffer& b, uint8_t n1)
{
    vp_assume(b.q + n1 <= b.bitSize);
    r.setBitPosition(b.q);
    if (n1 != 0) (void)r.readUnsignedBits64(n1);
    return b.q + n1;
}
