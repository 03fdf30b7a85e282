#include "sat.h"
#include <minisat/core/Solver.h>
#include <chrono>
#include <algorithm>
#include <cstring>
#include <stdexcept>
#include <array>

typedef uint32_t L;               // 2*node + sign ; node 0 = constant true  => L 0 = true, L 1 = false
static const L T = 0, F = 1;
struct G { uint8_t t; L a, b, c; };   // 0 input, 1 and, 2 xor, 3 ite, 4 maj
static std::vector<G> gates(1, G{0, 0, 0, 0});
struct KeyHash { size_t operator()(const std::array<uint32_t, 4>& k) const { uint64_t h = k[0]; for (int i = 1; i < 4; i++) h = (h ^ k[i]) * 0x9E3779B97F4A7C15ull + (h >> 29); return h; } };
static std::unordered_map<std::array<uint32_t, 4>, L, KeyHash> gh;
static L mk(uint8_t t, L a, L b, L c) {
    std::array<uint32_t, 4> k{t, a, b, c};
    auto it = gh.find(k);
    if (it != gh.end()) return it->second;
    gates.push_back(G{t, a, b, c});
    L r = (L)(gates.size() - 1) * 2;
    gh[k] = r;
    return r;
}
static L inp() { gates.push_back(G{0, 0, 0, 0}); return (L)(gates.size() - 1) * 2; }
static inline L neg(L a) { return a ^ 1; }
static L gAnd(L a, L b) {
    if (a == F || b == F || a == neg(b)) return F;
    if (a == T || a == b) return b;
    if (b == T) return a;
    if (a > b) std::swap(a, b);
    return mk(1, a, b, 0);
}
static L gOr(L a, L b) { return neg(gAnd(neg(a), neg(b))); }
static L gXor(L a, L b) {
    if (a == b) return F;
    if (a == neg(b)) return T;
    if (a == F) return b;
    if (b == F) return a;
    if (a == T) return neg(b);
    if (b == T) return neg(a);
    L s = (a & 1) ^ (b & 1);
    a &= ~1u; b &= ~1u;
    if (a > b) std::swap(a, b);
    return mk(2, a, b, 0) ^ s;
}
static L gIte(L c, L a, L b) {
    if (c == T) return a;
    if (c == F) return b;
    if (a == b) return a;
    if (c & 1) { c ^= 1; std::swap(a, b); }
    if (a == T || a == c) return gOr(c, b);
    if (a == F || a == neg(c)) return gAnd(neg(c), b);
    if (b == T || b == neg(c)) return gOr(neg(c), a);
    if (b == F || b == c) return gAnd(c, a);
    if (a == neg(b)) return gXor(c, b);
    L s = a & 1;
    if (s) { a ^= 1; b ^= 1; }
    return mk(3, c, a, b) ^ s;
}
static L gMaj(L a, L b, L c) {
    if (a > b) std::swap(a, b);
    if (b > c) std::swap(b, c);
    if (a > b) std::swap(a, b);
    if (a == b) return a;
    if (b == c) return b;
    if (a == neg(b)) return c;
    if (b == neg(c)) return a;
    if (a == T) return gOr(b, c);
    if (a == F) return gAnd(b, c);
    return mk(4, a, b, c);
}
typedef std::vector<L> Bits;
static std::unordered_map<uint32_t, Bits> memo;
static Bits cbits(unsigned w, u128 v) { Bits r(w); for (unsigned i = 0; i < w; i++) r[i] = ((v >> i) & 1) ? T : F; return r; }
static Bits add(const Bits& a, const Bits& b, L c) {
    Bits r(a.size());
    for (size_t i = 0; i < a.size(); i++) {
        r[i] = gXor(gXor(a[i], b[i]), c);
        c = gMaj(a[i], b[i], c);
    }
    return r;
}
static Bits notB(Bits a) { for (auto& x : a) x = neg(x); return a; }
static L ult(const Bits& a, const Bits& b) { // a < b : borrow of a - b
    L br = F;
    for (size_t i = 0; i < a.size(); i++) br = gMaj(neg(a[i]), b[i], br);
    return br;
}
static L slt(Bits a, Bits b) { a.back() = neg(a.back()); b.back() = neg(b.back()); return ult(a, b); }
static L eq(const Bits& a, const Bits& b) {
    // balanced and of xnor
    std::vector<L> v;
    for (size_t i = 0; i < a.size(); i++) v.push_back(neg(gXor(a[i], b[i])));
    while (v.size() > 1) { std::vector<L> n; for (size_t i = 0; i + 1 < v.size(); i += 2) n.push_back(gAnd(v[i], v[i + 1])); if (v.size() & 1) n.push_back(v.back()); v.swap(n); }
    return v[0];
}
static Bits mul(const Bits& a, const Bits& b) {
    size_t w = a.size();
    // use the operand with more constant-false bits as multiplier
    auto cost = [](const Bits& x) { int n = 0; for (L l : x) n += l != F; return n; };
    const Bits &m = cost(a) < cost(b) ? a : b, &n = cost(a) < cost(b) ? b : a;
    bool allConst = true;
    for (L l : m) if (l != T && l != F) allConst = false;
    Bits r = cbits(w, 0);
    if (allConst) {
        // canonical signed digit
        std::vector<int> d(w + 1, 0);
        int c = 0;
        for (size_t i = 0; i < w; i++) {
            int x = (m[i] == T) + c;
            int nx = i + 1 < w ? (m[i + 1] == T) : 0;
            if (x == 0) { c = 0; }
            else if (x == 2) { c = 1; }
            else { if (nx) { d[i] = -1; c = 1; } else { d[i] = 1; c = 0; } }
        }
        for (size_t i = 0; i < w; i++) if (d[i]) {
            Bits s(w, F);
            for (size_t j = i; j < w; j++) s[j] = n[j - i];
            r = d[i] > 0 ? add(r, s, F) : add(r, notB(s), T);
        }
        return r;
    }
    for (size_t i = 0; i < w; i++) {
        if (m[i] == F) continue;
        Bits s(w, F);
        for (size_t j = i; j < w; j++) s[j] = gAnd(n[j - i], m[i]);
        r = add(r, s, F);
    }
    return r;
}
struct Unsup {};
static const Bits& blast(E e);
static Bits shiftSym(Bits v, const Bits& s, int dir, L fill) { // dir 0 left, 1 right
    size_t w = v.size();
    unsigned k = 0;
    while ((1u << k) < w) k++;
    L big = F;
    for (size_t i = 0; i < s.size(); i++) {
        if (i < k) {
            size_t n = (size_t)1 << i;
            Bits r(w);
            for (size_t j = 0; j < w; j++) {
                L sh = dir == 0 ? (j >= n ? v[j - n] : F) : (j + n < w ? v[j + n] : fill);
                r[j] = gIte(s[i], sh, v[j]);
            }
            v = r;
        } else big = gOr(big, s[i]);
    }
    // amounts in [w, 2^k) are handled by the stages
    for (auto& x : v) x = gIte(big, fill, x);
    return v;
}
static Bits blast1(E e) {
    unsigned w = e->width;
    switch (e->op) {
    case Op::Const: return cbits(w, e->k);
    case Op::Var: case Op::Sel: { Bits r(w); for (auto& x : r) x = inp(); return r; }
    case Op::Add: return add(blast(e->a), blast(e->b), F);
    case Op::Mul: return mul(blast(e->a), blast(e->b));
    case Op::And: { Bits r = blast(e->a); const Bits& b = blast(e->b); for (unsigned i = 0; i < w; i++) r[i] = gAnd(r[i], b[i]); return r; }
    case Op::Or: { Bits r = blast(e->a); const Bits& b = blast(e->b); for (unsigned i = 0; i < w; i++) r[i] = gOr(r[i], b[i]); return r; }
    case Op::Xor: { Bits r = blast(e->a); const Bits& b = blast(e->b); for (unsigned i = 0; i < w; i++) r[i] = gXor(r[i], b[i]); return r; }
    case Op::Shl: { Bits a = blast(e->a); return shiftSym(a, blast(e->b), 0, F); }
    case Op::LShr: { Bits a = blast(e->a); return shiftSym(a, blast(e->b), 1, F); }
    case Op::AShr: { Bits a = blast(e->a); return shiftSym(a, blast(e->b), 1, a.back()); }
    case Op::Concat: { Bits r = blast(e->b); const Bits& h = blast(e->a); r.insert(r.end(), h.begin(), h.end()); return r; }
    case Op::Extract: { const Bits& a = blast(e->a); return Bits(a.begin() + (size_t)e->k, a.begin() + (size_t)e->k + w); }
    case Op::ZExt: { Bits r = blast(e->a); r.resize(w, F); return r; }
    case Op::SExt: { Bits r = blast(e->a); L s = r.back(); r.resize(w, s); return r; }
    case Op::Ite: { L c = blast(e->a)[0]; Bits r = blast(e->b); const Bits& b = blast(e->c); for (unsigned i = 0; i < w; i++) r[i] = gIte(c, r[i], b[i]); return r; }
    case Op::Eq: { Bits a = blast(e->a); return {eq(a, blast(e->b))}; }
    case Op::Ult: { Bits a = blast(e->a); return {ult(a, blast(e->b))}; }
    case Op::Ule: { Bits a = blast(e->a); return {neg(ult(blast(e->b), a))}; }
    case Op::Slt: { Bits a = blast(e->a); return {slt(a, blast(e->b))}; }
    case Op::Sle: { Bits a = blast(e->a); return {neg(slt(blast(e->b), a))}; }
    case Op::UDiv: case Op::URem: {
        if (w > 16 && !(e->b->op == Op::Const)) throw Unsup();
        // restoring division; division by zero: quotient all ones, remainder = dividend (SMT-LIB)
        Bits a = blast(e->a), b = blast(e->b);
        // narrow by known leading zeros of the dividend
        size_t n = w;
        while (n > 1 && a[n - 1] == F) n--;
        Bits q(w, F), r(w + 1, F), bb = b;
        bb.push_back(F);
        for (size_t i = n; i-- > 0;) {
            for (size_t j = w; j > 0; j--) r[j] = r[j - 1];
            r[0] = a[i];
            L ge = neg(ult(r, bb));
            q[i] = ge;
            Bits d = add(r, notB(bb), T);
            for (size_t j = 0; j <= w; j++) r[j] = gIte(ge, d[j], r[j]);
        }
        r.resize(w);
        L z = eq(b, cbits(w, 0));
        if (z != F) { for (auto& x : q) x = gOr(x, z); for (size_t i = 0; i < w; i++) r[i] = gIte(z, a[i], r[i]); }
        return e->op == Op::UDiv ? q : r; }
    default: throw Unsup();
    }
}
static const Bits& blast(E e) {
    auto it = memo.find(e->id);
    if (it != memo.end()) return it->second;
    Bits b = blast1(e);
    return memo[e->id] = b;
}
using namespace Minisat;
int satSolve(const std::vector<E>& cs, const std::vector<E>& acks, const std::vector<E>& vars, const std::vector<E>& sels,
             int timeoutMs, Model* model, std::vector<int>* core) {
    std::vector<L> as, ak;
    try {
        for (E c : cs) as.push_back(blast(c)[0]);
        for (E c : acks) ak.push_back(blast(c)[0]);
        if (model) { for (E v : vars) blast(v); for (E v : sels) { blast(v); blast(v->a); } }
    } catch (Unsup&) { return -1; }
    for (size_t i = 0; i < as.size(); i++) if (as[i] == F) { if (core) *core = {(int)i}; return 0; }
    static Solver* dummy = nullptr; (void)dummy;
    Solver s;
    std::unordered_map<uint32_t, int> vm; // gate -> minisat var
    vm.reserve(4096);
    std::vector<uint32_t> st;
    auto need = [&](L l) -> Lit {
        uint32_t g = l >> 1;
        auto it = vm.find(g);
        if (it == vm.end()) { int v = s.newVar(); vm[g] = v; st.push_back(g); return mkLit(v, l & 1); }
        return mkLit(it->second, l & 1);
    };
    Minisat::vec<Lit> assume;
    for (L l : as) if (l != T) assume.push(need(l));
    for (L l : ak) { if (l == T) continue; s.addClause(need(l)); }
    while (!st.empty()) {
        uint32_t g = st.back(); st.pop_back();
        G x = gates[g];
        Lit o = mkLit(vm[g], false);
        if (g == 0) { s.addClause(o); continue; }
        if (x.t == 1) { Lit a = need(x.a), b = need(x.b); s.addClause(~o, a); s.addClause(~o, b); s.addClause(o, ~a, ~b); }
        else if (x.t == 2) { Lit a = need(x.a), b = need(x.b); s.addClause(~o, a, b); s.addClause(~o, ~a, ~b); s.addClause(o, ~a, b); s.addClause(o, a, ~b); }
        else if (x.t == 3) {
            Lit c = need(x.a), a = need(x.b), b = need(x.c);
            s.addClause(~c, ~a, o); s.addClause(~c, a, ~o); s.addClause(c, ~b, o); s.addClause(c, b, ~o);
            s.addClause(~a, ~b, o); s.addClause(a, b, ~o);
        } else if (x.t == 4) {
            Lit a = need(x.a), b = need(x.b), c = need(x.c);
            s.addClause(~a, ~b, o); s.addClause(~a, ~c, o); s.addClause(~b, ~c, o);
            s.addClause(a, b, ~o); s.addClause(a, c, ~o); s.addClause(b, c, ~o);
        }
    }
    auto t0 = std::chrono::steady_clock::now();
    lbool r = l_Undef;
    int64_t budget = 2000;
    while (true) {
        s.setConfBudget(budget);
        r = s.solveLimited(assume);
        if (r != l_Undef) break;
        if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() * 1000 > timeoutMs) break;
    }
    if (r == l_Undef) return -1;
    if (r == l_False) {
        if (core) {
            core->clear();
            for (size_t i = 0; i < as.size(); i++) {
                if (as[i] == T) continue;
                Lit l = need(as[i]);
                for (int j = 0; j < s.conflict.size(); j++) if (s.conflict[j] == ~l) { core->push_back((int)i); break; }
            }
        }
        return 0;
    }
    if (model) {
        auto bit = [&](L l) -> int {
            if (l == T) return 1;
            if (l == F) return 0;
            auto it = vm.find(l >> 1);
            int v = 0;
            if (it != vm.end()) v = s.model[it->second] == l_True;
            return v ^ (l & 1);
        };
        for (E v : vars) { const Bits& b = blast(v); u128 x = 0; for (size_t i = 0; i < b.size(); i++) if (bit(b[i])) x |= (u128)1 << i; model->vars[v->sym] = x; }
        model->memo.clear();
        std::vector<E> ss = sels;
        std::sort(ss.begin(), ss.end(), [](E x, E y) { return x->id < y->id; });
        for (E v : ss) {
            u128 idx;
            model->memo.clear();
            if (!evalE(v->a, *model, idx)) return -1;
            const Bits& b = blast(v);
            uint8_t x = 0; for (size_t i = 0; i < b.size(); i++) if (bit(b[i])) x |= 1 << i;
            // an array cell whose value does not influence the formula may be missing from the cone; keep the first value
            auto& arr = model->arrays[v->sym];
            bool inCone = false; for (L l : b) if (vm.count(l >> 1)) inCone = true;
            if (inCone || !arr.count((uint64_t)idx)) arr[(uint64_t)idx] = x;
        }
        model->memo.clear();
    }
    return 1;
}
