// Native counterpart of the contract API: runs a contract on concrete inputs (replay of a failing input, or search).
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <new>
#include <random>
#include <string>
#include <utility>
#include <vector>
#include <ctime>
#include <dlfcn.h>
#include <sys/mman.h>
#include <unistd.h>
#include "vp.h"

namespace
{
struct Skip {};
std::map<std::pair<std::string, unsigned>, uint64_t> gNd;
struct Buf { uint64_t size = 0; std::map<uint64_t, uint8_t> bytes; };
std::map<std::string, Buf> gBufs;
std::map<std::string, unsigned> gOcc;
std::map<std::string, std::vector<uint8_t>> gInit; // search mode: full content
bool gSearch = false;
bool gCount = false;
std::mt19937_64 gRng;
long gLive = 0;
std::vector<std::pair<std::string, uint64_t>> gDrawn;
std::vector<void*> gAlloc;

uint64_t draw(unsigned w)
{
    const uint64_t mask = w == 64 ? ~UINT64_C(0) : (UINT64_C(1) << w) - 1;
    switch (gRng() % 8)
    {
    case 0: return 0;
    case 1: return gRng() % 4 & mask;
    case 2: return mask;
    case 3: return (UINT64_C(1) << (gRng() % w)) & mask;
    case 4: return ((UINT64_C(1) << (gRng() % w)) - 1 + gRng() % 3 - 1) & mask;
    case 5: return gRng() % 17 & mask;
    case 6: return (0 - (gRng() % 17)) & mask;
    default: return gRng() & mask;
    }
}
uint64_t value(const char* name, unsigned w)
{
    gCount = false;
    const unsigned occ = gOcc[name]++;
    uint64_t v = 0;
    if (gSearch)
    {
        v = draw(w);
        gDrawn.push_back({name, v});
    }
    else
    {
        std::string key = name;
        std::replace(key.begin(), key.end(), ' ', '_');
        const auto it = gNd.find({key, occ});
        if (it != gNd.end()) v = it->second;
    }
    gCount = true;
    return v;
}
} // namespace

extern "C"
{
uint8_t vp_u8(const char* n) { return static_cast<uint8_t>(value(n, 8)); }
uint16_t vp_u16(const char* n) { return static_cast<uint16_t>(value(n, 16)); }
uint32_t vp_u32(const char* n) { return static_cast<uint32_t>(value(n, 32)); }
uint64_t vp_u64(const char* n) { return value(n, 64); }
uint64_t vp_uint(const char* n, unsigned w) { return value(n, w); }
uint64_t vp_size(const char* n, unsigned w)
{
    return value(n, gSearch && w > 5 ? (gRng() % 4 || w < 9 ? 5 : 9) : w);
}
uint64_t vp_pick(const char* n, uint64_t lo, uint64_t hi)
{
    gCount = false;
    uint64_t v = 0;
    if (gSearch)
    {
        v = hi - lo == ~UINT64_C(0) ? gRng() : lo + gRng() % (hi - lo + 1);
        gDrawn.push_back({n, v});
    }
    else v = value(n, 64);
    gCount = true;
    vp_assume_(v >= lo && v <= hi);
    return v;
}
uint64_t vp_deal(const char* n, uint64_t lo, uint64_t hi) { return vp_pick(n, lo, hi); }
void vp_assume_(bool c)
{
    if (!c)
    {
        if (gSearch) { gCount = false; throw Skip(); }
        fprintf(stderr, "VP-SKIP: assumption not met\n");
        _exit(78);
    }
}
void vp_assert_(bool c, const char* name)
{
    if (!c)
    {
        fprintf(stderr, "VP-FAIL: %s\n", name);
        for (auto& d : gDrawn) fprintf(stderr, "VP-INPUT: %s = %llu\n", d.first.c_str(), static_cast<unsigned long long>(d.second));
        _exit(77);
    }
}
void vp_cover_(const char*) {}
void vp_bound_(const char*) {}
uint8_t* vp_buffer(const char* name, size_t size)
{
    gCount = false;
    const unsigned occ = gOcc[name]++;
    const std::string key = std::string(name) + "#" + std::to_string(occ);
    if (gSearch && size > (1U << 24)) throw Skip();
    uint8_t* p = nullptr;
    if (size > (UINT64_C(1) << 30))
    {
        const size_t page = 4096;
        const size_t total = (size + page - 1) / page * page + page;
        uint8_t* m = static_cast<uint8_t*>(mmap(nullptr, total, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
        if (m == MAP_FAILED) { fprintf(stderr, "VP-SKIP: buffer too large\n"); _exit(78); }
        mprotect(m + total - page, page, PROT_NONE);
        p = m + (total - page - size);
    }
    else
    {
        p = static_cast<uint8_t*>(malloc(size));
        gAlloc.push_back(p);
        if (size) memset(p, 0, size);
    }
    if (gSearch)
    {
        std::vector<uint8_t> c(size + 64);
        const unsigned mode = gRng() % 4;
        for (size_t i = 0; i < c.size(); i++) c[i] = static_cast<uint8_t>(mode == 0 ? 0 : mode == 1 ? (gRng() % 3 ? 0x80 | gRng() : gRng()) : mode == 2 ? gRng() % 4 : gRng());
        if (size) memcpy(p, c.data(), size);
        gInit[key] = c;
    }
    else
    {
        for (auto& b : gBufs[key].bytes) if (b.first < size) p[b.first] = b.second;
    }
    gCount = true;
    return p;
}
uint8_t vp_byte(const char* name, size_t index)
{
    gCount = false;
    uint8_t r = 0;
    const std::string key = std::string(name) + "#0";
    if (gSearch)
    {
        auto& c = gInit[key];
        r = index < c.size() ? c[index] : 0;
    }
    else
    {
        auto& b = gBufs[key].bytes;
        auto it = b.find(index);
        if (it != b.end()) r = it->second;
    }
    gCount = true;
    return r;
}
uint64_t vp_split(uint64_t v, uint64_t lo, uint64_t hi) { vp_assert_(v >= lo && v <= hi, "split range"); return v; }
uint64_t vp_shard(uint64_t v, uint64_t lo, uint64_t hi) { vp_assert_(v >= lo && v <= hi, "split range"); return v; }
void vp_ghost(uint64_t) {}
uint64_t vp_alive() { return static_cast<uint64_t>(gLive); }
bool vp_same_object(const void*, const void*) { return true; }
int vp_real_() { return 1; }
void vp_debug(const char* n, uint64_t v) { fprintf(stderr, "DEBUG %s %llx\n", n, static_cast<unsigned long long>(v)); }
}
#ifdef VP_ALLOC
static void* al(size_t n) { if (n > (UINT64_C(1) << 40)) throw std::bad_alloc(); void* p = malloc(n); if (!p) throw std::bad_alloc(); if (gCount) gLive++; return p; }
static void fr(void* p) { if (p && gCount) gLive--; free(p); }
void* operator new(size_t n) { return al(n); }
void* operator new[](size_t n) { return al(n); }
void operator delete(void* p) noexcept { fr(p); }
void operator delete[](void* p) noexcept { fr(p); }
void operator delete(void* p, size_t) noexcept { fr(p); }
void operator delete[](void* p, size_t) noexcept { fr(p); }
#endif

typedef void (*Fn)();
int main(int argc, char** argv)
{
    if (argc < 3) return 2;
    Fn f = reinterpret_cast<Fn>(dlsym(RTLD_DEFAULT, (std::string("vpc_") + argv[1]).c_str()));
    if (!f) { fprintf(stderr, "no contract %s\n", argv[1]); return 2; }
    if (std::string(argv[2]) == "--search")
    {
        gSearch = true;
        const double secs = atof(argv[3]);
        gRng.seed(argc > 4 ? static_cast<uint64_t>(atoll(argv[4])) : 1);
        const time_t t0 = time(nullptr);
        uint64_t n = 0, ok = 0;
        while (static_cast<double>(time(nullptr) - t0) < secs)
        {
            for (int i = 0; i < 200; i++)
            {
                gOcc.clear(); gDrawn.clear(); gInit.clear();
                n++;
                try { gCount = true; f(); ok++; } catch (Skip&) {}
                gCount = false;
                for (void* p : gAlloc) free(p);
                gAlloc.clear();
            }
        }
        fprintf(stderr, "VP-SEARCH: %llu runs, %llu within the precondition\n", static_cast<unsigned long long>(n), static_cast<unsigned long long>(ok));
        return 0;
    }
    FILE* in = fopen(argv[2], "r");
    if (!in) return 2;
    char kind[16], name[256];
    while (fscanf(in, "%15s", kind) == 1)
    {
        if (!strcmp(kind, "nd"))
        {
            unsigned occ; unsigned long long v;
            if (fscanf(in, "%255s %u %llu", name, &occ, &v) != 3) break;
            gNd[{name, occ}] = v;
        }
        else if (!strcmp(kind, "buf"))
        {
            unsigned long long v;
            if (fscanf(in, "%255s %llu", name, &v) != 2) break;
            gBufs[name].size = v;
        }
        else if (!strcmp(kind, "byte"))
        {
            unsigned long long i; unsigned v;
            if (fscanf(in, "%255s %llu %u", name, &i, &v) != 3) break;
            gBufs[name].bytes[i] = static_cast<uint8_t>(v);
        }
    }
    fclose(in);
    gCount = true;
    f();
    gCount = false;
    fprintf(stderr, "VP-PASS\n");
    return 0;
}
