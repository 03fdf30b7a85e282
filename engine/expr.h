// Hash-consed bit-vector expression DAG with eager simplification.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <map>
#include <unordered_map>
#include <memory>
#include <set>

typedef unsigned __int128 u128;

enum class Op : uint8_t {
    Const, Var, Sel,                       // Sel: byte of uninterpreted array `name` at 64-bit index a
    Add, Mul, UDiv, SDiv, URem, SRem,
    And, Or, Xor, Shl, LShr, AShr,
    Concat, Extract, ZExt, SExt, Ite,
    Eq, Ult, Ule, Slt, Sle,
    FAdd, FSub, FMul, FDiv, FEq, FLt, FLe, FNan, FToSI, FToUI, SIToF, UIToF, FCvt, FNeg, FIsInt,
    LinAdd                                 // sum of coeff*term + k (only transient)
};

struct Node {
    Op op;
    uint16_t width;
    uint32_t id;
    const Node* a = nullptr;
    const Node* b = nullptr;
    const Node* c = nullptr;
    u128 k = 0;          // constant value / extract low bit
    uint32_t sym = 0;    // symbol id for Var/Sel
    u128 umin = 0, umax = 0;
    uint8_t tz = 0;      // known trailing zero bits
};
typedef const Node* E;

u128 maskOf(unsigned w);
E mkConst(unsigned w, u128 v);
E mkVar(unsigned w, const std::string& name);
E mkSel(uint32_t arraySym, E idx);
uint32_t symOf(const std::string& name);
const std::string& symName(uint32_t s);
E mkAdd(E a, E b);
E mkSub(E a, E b);
E mkMul(E a, E b);
E mkBin(Op op, E a, E b);
E mkAnd(E a, E b);
E mkOr(E a, E b);
E mkXor(E a, E b);
E mkNot(E a);        // bitwise/boolean not
E mkNeg(E a);
E mkConcat(E hi, E lo);
E mkExtract(E a, unsigned hi, unsigned lo);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkTrunc(E a, unsigned w);
E mkIte(E c, E a, E b);
E mkEq(E a, E b);
E mkUlt(E a, E b);
E mkUle(E a, E b);
E mkSlt(E a, E b);
E mkSle(E a, E b);
E mkFp(Op op, unsigned w, E a, E b = nullptr);
inline bool isC(E e) { return e->op == Op::Const; }
inline bool isTrue(E e) { return e->op == Op::Const && e->width == 1 && e->k == 1; }
inline bool isFalse(E e) { return e->op == Op::Const && e->width == 1 && e->k == 0; }
inline uint64_t cval(E e) { return (uint64_t)e->k; }
E mkBool(bool b);
inline E c64(uint64_t v) { return mkConst(64, v); }
// constant difference a-b if syntactically known
bool constDiff(E a, E b, uint64_t& d);
// a - b written as pos - neg with all coefficients positive
bool splitDiff(E a, E b, E& pos, E& neg);
std::string show(E e, int depth = 6);

// symbols occurring in an expression (sorted vector, memoized)
const std::vector<uint32_t>& symsOf(E e);

// concrete model
struct Model {
    std::unordered_map<uint32_t, u128> vars;                               // by symbol
    std::unordered_map<uint32_t, std::unordered_map<uint64_t, uint8_t>> arrays;
    mutable std::unordered_map<uint32_t, u128> memo;                       // by node id
    mutable bool fpSeen = false;
};
// returns false if expression contains operators the evaluator does not know
bool evalE(E e, const Model& m, u128& out);
bool containsFp(E e);
size_t nodeCount();
