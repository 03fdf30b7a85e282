// Contract language: requires = vp_assume, ensures = vp_assert, over arbitrary (symbolic) inputs.
// The same file is compiled to LLVM IR for the verifier and natively (with sanitizers) to replay a failing input.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C"
{
uint8_t vp_u8(const char* name);   // arbitrary value
uint16_t vp_u16(const char* name);
uint32_t vp_u32(const char* name);
uint64_t vp_u64(const char* name);
uint64_t vp_uint(const char* name, unsigned width); // arbitrary value of `width` bits
void vp_assume_(bool c);
void vp_assert_(bool c, const char* name);
void vp_cover_(const char* name);  // must be reachable on some path (vacuity check)
void vp_bound_(const char* what);  // declares a bound of this contract
uint8_t* vp_buffer(const char* name, size_t size); // memory of exactly size bytes with arbitrary content
uint8_t vp_byte(const char* name, size_t index);   // initial content of that buffer
uint64_t vp_split(uint64_t v, uint64_t lo, uint64_t hi); // exhaustive case split
uint64_t vp_shard(uint64_t v, uint64_t lo, uint64_t hi); // the same, cases distributed over processes
void vp_ghost(uint64_t index);     // instantiate library "for all" facts at this index
uint64_t vp_alive();               // number of live heap blocks
bool vp_same_object(const void* a, const void* b);
int vp_real_();                    // 0 in the verifier, 1 natively
void vp_debug(const char* n, uint64_t v);
}
#define vp_assume(c) vp_assume_(static_cast<bool>(c))
#define vp_assert(c, name) vp_assert_(static_cast<bool>(c), name)
#define vp_cover(name) vp_cover_(name)
#define vp_bound(what) vp_bound_(what)
#define CONTRACT(name) extern "C" void vpc_##name()

typedef unsigned __int128 vp_u128;

// number formed by bits pos..pos+n-1 (big endian) of the initial content of a buffer; 1 <= n <= 64
inline uint64_t vp_bits(const char* name, size_t pos, unsigned n)
{
    const size_t b = pos >> 3U;
    vp_u128 v = 0;
    for (unsigned i = 0; i < 9; i++)
    {
        v = (v << 8U) | vp_byte(name, b + i);
    }
    v >>= 72U - static_cast<unsigned>(pos & 7U) - n;
    return static_cast<uint64_t>(v) & (n == 64 ? ~UINT64_C(0) : (UINT64_C(1) << n) - 1);
}
// the same over real memory; reads only bytes that contain requested bits when they lie in [0, size)
inline uint64_t vp_membits(const uint8_t* p, size_t size, size_t pos, unsigned n)
{
    const size_t b = pos >> 3U;
    vp_u128 v = 0;
    for (unsigned i = 0; i < 9; i++)
    {
        v = (v << 8U) | (b + i < size ? p[b + i] : 0U);
    }
    v >>= 72U - static_cast<unsigned>(pos & 7U) - n;
    return static_cast<uint64_t>(v) & (n == 64 ? ~UINT64_C(0) : (UINT64_C(1) << n) - 1);
}
inline int64_t vp_sext(uint64_t v, unsigned n)
{
    return n == 64 ? static_cast<int64_t>(v) : static_cast<int64_t>(v << (64U - n)) >> (64U - n);
}
// an arbitrary value of [lo, hi]: every case explored separately (vp_pick) / in separate processes (vp_deal)
// an arbitrary length or position of `width` bits (vp_size; the native search draws small ones)
#ifdef VP_NATIVE
extern "C" uint64_t vp_pick(const char* name, uint64_t lo, uint64_t hi);
extern "C" uint64_t vp_deal(const char* name, uint64_t lo, uint64_t hi);
extern "C" uint64_t vp_size(const char* name, unsigned width);
#else
inline uint64_t vp_pick(const char* name, uint64_t lo, uint64_t hi)
{
    unsigned w = 1;
    while (w < 64 && (hi >> w) != 0) w++;
    const uint64_t v = vp_uint(name, w);
    vp_assume(v >= lo && v <= hi);
    return vp_split(v, lo, hi);
}
inline uint64_t vp_deal(const char* name, uint64_t lo, uint64_t hi)
{
    unsigned w = 1;
    while (w < 64 && (hi >> w) != 0) w++;
    const uint64_t v = vp_uint(name, w);
    vp_assume(v >= lo && v <= hi);
    return vp_shard(v, lo, hi);
}
inline uint64_t vp_size(const char* name, unsigned width)
{
    return vp_uint(name, width);
}
#endif
