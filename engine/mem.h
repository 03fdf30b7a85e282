// Values and memory objects.
#pragma once
#include "expr.h"
#include <memory>
#include <map>
#include <vector>
#include <string>

struct Val {
    enum K : uint8_t { None, Int, Ptr, Agg } k = None;
    int obj = 0;                 // Ptr: object id (0 null / raw address, <0 function); Int: provenance object or 0
    E e = nullptr;               // Int: value; Ptr: offset
    std::shared_ptr<std::vector<Val>> agg;
    static Val I(E e, int prov = 0) { Val v; v.k = Int; v.e = e; v.obj = prov; return v; }
    static Val P(int obj, E off) { Val v; v.k = Ptr; v.obj = obj; v.e = off; return v; }
    static Val A(std::vector<Val> x) { Val v; v.k = Agg; v.agg = std::make_shared<std::vector<Val>>(std::move(x)); return v; }
};

struct Cell { Val v; uint32_t size; };
typedef std::map<uint64_t, Cell> CellMap;

struct Chain;
typedef std::shared_ptr<Chain> ChainP;
struct Content {
    CellMap cells;
    ChainP chain;
};
struct Chain {
    enum T { Uninit, Zero, Arr, Cells, Store, Copy, Fill } t = Uninit;
    uint32_t sym = 0;        // Arr / Uninit symbol
    E arrOff = nullptr;      // Arr: offset added to the index
    CellMap cells;           // Cells
    E off = nullptr;         // Store / Copy / Fill destination offset
    E len = nullptr;         // Copy / Fill
    Val v; uint32_t n = 0;   // Store: value of n bytes; Fill: byte
    Content src; E srcOff = nullptr;
    ChainP prev;
    std::unordered_map<uint32_t, E> memo;
};

enum class OK : uint8_t { Stack, Heap, Global, Buffer, Exc };
struct Obj {
    int id = 0;
    OK kind = OK::Stack;
    bool alive = true;
    bool writable = true;
    uint8_t newKind = 0;     // 1 new, 2 new[], 3 malloc
    E size = nullptr;
    Content c;
    std::string name;
};
typedef std::shared_ptr<Obj> ObjP;

E objBase(int id);                            // symbolic base address
E valInt(const Val& v);                       // pointer -> address expression
E chainByte(const ChainP& ch, E off);
E contentByte(const Content& c, E off);
// load n bytes at constant offset; ok=false if it contains a partially read pointer (then address bits are used)
Val contentLoadC(const Content& c, uint64_t off, uint32_t n, bool wantPtr);
Val contentLoad(const Content& c, E off, uint32_t n, bool wantPtr, E objSize, bool& needFork, std::vector<uint64_t>& cands);
void contentStoreC(Content& c, uint64_t off, uint32_t n, const Val& v);
void contentStore(Content& c, E off, uint32_t n, const Val& v);
void contentFlush(Content& c);
void contentCopy(Content& dst, E dOff, const Content& src, E sOff, E len);
void contentFill(Content& dst, E dOff, E byte, E len);
ChainP mkBase(Chain::T t, uint32_t sym = 0);
