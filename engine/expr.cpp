#include "expr.h"
#include <algorithm>
#include <cassert>
#include <cmath>
#include <cstring>
#include <sstream>
#include <deque>

static std::deque<Node> arena;
struct KeyHash {
    size_t operator()(const Node* n) const {
        size_t h = (size_t)n->op * 1000003u + n->width;
        auto mix = [&](size_t v) { h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); };
        mix(n->a ? n->a->id : 0); mix(n->b ? n->b->id : 0); mix(n->c ? n->c->id : 0);
        mix((size_t)n->k); mix((size_t)(n->k >> 64)); mix(n->sym);
        return h;
    }
};
struct KeyEq {
    bool operator()(const Node* x, const Node* y) const {
        return x->op == y->op && x->width == y->width && x->a == y->a && x->b == y->b && x->c == y->c &&
                x->k == y->k && x->sym == y->sym;
    }
};
static std::unordered_map<const Node*, const Node*, KeyHash, KeyEq>& table() {
    static std::unordered_map<const Node*, const Node*, KeyHash, KeyEq> t;
    return t;
}
static std::vector<std::string> symNames(1, "");
static std::unordered_map<std::string, uint32_t> symIds;

uint32_t symOf(const std::string& name) {
    auto it = symIds.find(name);
    if (it != symIds.end()) return it->second;
    uint32_t id = symNames.size();
    symNames.push_back(name);
    symIds[name] = id;
    return id;
}
const std::string& symName(uint32_t s) { return symNames[s]; }
size_t nodeCount() { return arena.size(); }

u128 maskOf(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static int64_t sgn(u128 v, unsigned w) {
    if (w < 64) { uint64_t x = (uint64_t)v << (64 - w); return (int64_t)x >> (64 - w); }
    return (int64_t)(uint64_t)v;
}
static __int128 sgn128(u128 v, unsigned w) {
    if (w < 128) { u128 x = v << (128 - w); return (__int128)x >> (128 - w); }
    return (__int128)v;
}

static void ranges(Node& n) {
    u128 m = maskOf(n.width);
    n.umin = 0; n.umax = m; n.tz = 0;
    auto add = [&]() {};
    (void)add;
    switch (n.op) {
    case Op::Const: n.umin = n.umax = n.k; { unsigned t = 0; if (n.k == 0) t = n.width; else while (!((n.k >> t) & 1)) t++; n.tz = t; } break;
    case Op::Add: {
        u128 hi = n.a->umax + n.b->umax;
        if (hi <= m && hi >= n.a->umax) { n.umin = n.a->umin + n.b->umin; n.umax = hi; }
        n.tz = std::min(n.a->tz, n.b->tz);
        break; }
    case Op::Mul: {
        if (n.a->umax != 0 && n.b->umax <= m / n.a->umax) { n.umin = n.a->umin * n.b->umin; n.umax = n.a->umax * n.b->umax; }
        else if (n.a->umax == 0) { n.umin = n.umax = 0; }
        n.tz = std::min<unsigned>(n.width, n.a->tz + n.b->tz);
        break; }
    case Op::UDiv: if (n.b->umin > 0) { n.umax = n.a->umax / n.b->umin; n.umin = n.a->umin / n.b->umax; } break;
    case Op::URem: if (n.b->umin > 0) { n.umax = std::min(n.a->umax, n.b->umax - 1); } break;
    case Op::And: n.umax = std::min(n.a->umax, n.b->umax); n.tz = std::max(n.a->tz, n.b->tz); break;
    case Op::Or: { n.umin = std::max(n.a->umin, n.b->umin); u128 x = n.a->umax | n.b->umax; // round up to all ones
        u128 r = x; for (int s = 1; s < 128; s <<= 1) r |= r >> s; n.umax = r & m; n.tz = std::min(n.a->tz, n.b->tz); break; }
    case Op::Xor: { u128 r = n.a->umax | n.b->umax; for (int s = 1; s < 128; s <<= 1) r |= r >> s; n.umax = r & m; n.tz = std::min(n.a->tz, n.b->tz); break; }
    case Op::Shl: if (isC(n.b)) { unsigned s = n.b->k >= n.width ? n.width : (unsigned)n.b->k; if (s < n.width && n.a->umax <= (m >> s)) { n.umin = n.a->umin << s; n.umax = n.a->umax << s; } n.tz = std::min<unsigned>(n.width, n.a->tz + s); } else n.tz = n.a->tz; break;
    case Op::LShr: if (isC(n.b)) { unsigned s = n.b->k >= n.width ? n.width : (unsigned)n.b->k; if (s < 128) { n.umin = n.a->umin >> s; n.umax = n.a->umax >> s; } else n.umax = 0; if (n.a->tz > s) n.tz = n.a->tz - s; } else n.umax = n.a->umax; break;
    case Op::Concat: n.umin = (n.a->umin << n.b->width) | n.b->umin; n.umax = (n.a->umax << n.b->width) | n.b->umax; n.tz = n.b->tz == n.b->width ? n.b->width + n.a->tz : n.b->tz; break;
    case Op::Extract: { unsigned lo = (unsigned)n.k; if (n.a->umax >> lo <= m) { n.umin = n.a->umin >> lo; n.umax = n.a->umax >> lo; } if (n.a->tz > lo) n.tz = std::min<unsigned>(n.a->tz - lo, n.width); break; }
    case Op::ZExt: n.umin = n.a->umin; n.umax = n.a->umax; n.tz = n.a->tz == n.a->width ? n.width : n.a->tz; break;
    case Op::SExt: if (!(n.a->umax >> (n.a->width - 1))) { n.umin = n.a->umin; n.umax = n.a->umax; } n.tz = n.a->tz; break;
    case Op::Ite: n.umin = std::min(n.b->umin, n.c->umin); n.umax = std::max(n.b->umax, n.c->umax); n.tz = std::min(n.b->tz, n.c->tz); break;
    default: break;
    }
}

static E intern(Node n) {
    auto it = table().find(&n);
    if (it != table().end()) return it->second;
    n.id = arena.size() + 1;
    ranges(n);
    arena.push_back(n);
    const Node* p = &arena.back();
    table()[p] = p;
    if (p->op != Op::Const && p->umin == p->umax && p->op != Op::Var && p->op != Op::Sel) {
        // value fully determined by range analysis
        return mkConst(p->width, p->umin);
    }
    return p;
}
static E mk(Op op, unsigned w, E a = nullptr, E b = nullptr, E c = nullptr, u128 k = 0, uint32_t sym = 0) {
    Node n; n.op = op; n.width = w; n.a = a; n.b = b; n.c = c; n.k = k; n.sym = sym; n.id = 0;
    return intern(n);
}
E mkConst(unsigned w, u128 v) { return mk(Op::Const, w, nullptr, nullptr, nullptr, v & maskOf(w)); }
E mkBool(bool b) { static E t = mkConst(1, 1), f = mkConst(1, 0); return b ? t : f; }
E mkVar(unsigned w, const std::string& name) { return mk(Op::Var, w, nullptr, nullptr, nullptr, 0, symOf(name)); }
E mkSel(uint32_t s, E idx) { return mk(Op::Sel, 8, idx, nullptr, nullptr, 0, s); }

// ---- linear forms -------------------------------------------------------------------------
struct Lin { std::vector<std::pair<E, u128>> t; u128 k = 0; };
static void linAddTerm(Lin& l, E t, u128 c, u128 m) {
    for (auto& p : l.t) if (p.first == t) { p.second = (p.second + c) & m; return; }
    l.t.push_back({t, c & m});
}
static bool linCollect(E e, u128 coef, Lin& l, u128 m, int depth) {
    if (l.t.size() > 24) return false;
    if (isC(e)) { l.k = (l.k + coef * e->k) & m; return true; }
    if (depth > 0) {
        if (e->op == Op::Add) return linCollect(e->a, coef, l, m, depth - 1) && linCollect(e->b, coef, l, m, depth - 1);
        if (e->op == Op::Mul && isC(e->b)) return linCollect(e->a, coef * e->b->k & m, l, m, depth - 1);
        if (e->op == Op::Shl && isC(e->b) && e->b->k < e->width) return linCollect(e->a, (coef << (unsigned)e->b->k) & m, l, m, depth - 1);
    }
    linAddTerm(l, e, coef, m);
    return true;
}
static E linBuild(Lin& l, unsigned w) {
    u128 m = maskOf(w);
    std::sort(l.t.begin(), l.t.end(), [](auto& x, auto& y) { return x.first->id < y.first->id; });
    E r = nullptr;
    for (auto& p : l.t) {
        if ((p.second & m) == 0) continue;
        E t;
        u128 c = p.second & m;
        if (c == 1) t = p.first;
        else t = mk(Op::Mul, w, p.first, mkConst(w, c));
        r = r ? mk(Op::Add, w, r, t) : t;
    }
    if (!r) return mkConst(w, l.k);
    if ((l.k & m) == 0) return r;
    return mk(Op::Add, w, r, mkConst(w, l.k));
}
static E linOp(E a, u128 ca, E b, u128 cb) {
    unsigned w = a->width;
    u128 m = maskOf(w);
    Lin l;
    if (linCollect(a, ca, l, m, 30) && linCollect(b, cb, l, m, 30)) return linBuild(l, w);
    E bb = (cb & m) == 1 ? b : mk(Op::Mul, w, b, mkConst(w, cb));
    E aa = (ca & m) == 1 ? a : mk(Op::Mul, w, a, mkConst(w, ca));
    return mk(Op::Add, w, aa, bb);
}
bool splitDiff(E a, E b, E& pos, E& neg) {
    unsigned w = a->width;
    if (w > 64) return false;
    u128 m = maskOf(w), half = (u128)1 << (w - 1);
    Lin l;
    if (!linCollect(a, 1, l, m, 30) || !linCollect(b, m, l, m, 30)) return false;
    pos = mkConst(w, 0); neg = mkConst(w, 0);
    for (auto& p : l.t) {
        u128 c = p.second & m;
        if (!c) continue;
        if (c < half) pos = mkAdd(pos, mkMul(p.first, mkConst(w, c)));
        else neg = mkAdd(neg, mkMul(p.first, mkConst(w, (m - c + 1) & m)));
    }
    u128 k = l.k & m;
    if (k < half) pos = mkAdd(pos, mkConst(w, k)); else neg = mkAdd(neg, mkConst(w, (m - k + 1) & m));
    return true;
}
bool constDiff(E a, E b, uint64_t& d) {
    if (a == b) { d = 0; return true; }
    E s = mkSub(a, b);
    if (isC(s)) { d = cval(s); return true; }
    return false;
}
E mkAdd(E a, E b) {
    if (a->width == 1) return mkXor(a, b);
    if (isC(a) && isC(b)) return mkConst(a->width, a->k + b->k);
    if (isC(a) && a->k == 0) return b;
    if (isC(b) && b->k == 0) return a;
    return linOp(a, 1, b, 1);
}
E mkSub(E a, E b) {
    if (a == b) return mkConst(a->width, 0);
    if (a->width == 1) return mkXor(a, b);
    if (isC(a) && isC(b)) return mkConst(a->width, a->k - b->k);
    if (isC(b) && b->k == 0) return a;
    return linOp(a, 1, b, maskOf(a->width));
}
E mkNeg(E a) { return mkSub(mkConst(a->width, 0), a); }
E mkMul(E a, E b) {
    if (isC(a) && !isC(b)) std::swap(a, b);
    unsigned w = a->width;
    if (w == 1) return mkAnd(a, b);
    if (isC(a) && isC(b)) return mkConst(w, a->k * b->k);
    if (isC(b)) {
        if (b->k == 0) return b;
        if (b->k == 1) return a;
        return linOp(a, b->k, mkConst(w, 0), 1);
    }
    if (a->id > b->id) std::swap(a, b);
    return mk(Op::Mul, w, a, b);
}
static bool isPow2(u128 v) { return v && !(v & (v - 1)); }
static unsigned log2u(u128 v) { unsigned r = 0; while (v > 1) { v >>= 1; r++; } return r; }

// e = c * q + r with r->umax < c, without wrap-around; purely syntactic
static bool divSplit(E e, u128 c, E& q, E& r, int depth = 16) {
    unsigned w = e->width;
    u128 m = maskOf(w);
    if (isC(e)) { q = mkConst(w, e->k / c); r = mkConst(w, e->k % c); return true; }
    if (depth == 0 || c > m) return false;
    if (e->op == Op::Add && e->a->umax <= m - e->b->umax) {
        E q1, r1, q2, r2;
        if (!divSplit(e->a, c, q1, r1, depth - 1) || !divSplit(e->b, c, q2, r2, depth - 1)) return false;
        q = mkAdd(q1, q2); r = mkAdd(r1, r2);
        if (isC(r)) { q = mkAdd(q, mkConst(w, r->k / c)); r = mkConst(w, r->k % c); return true; }
        return r1->umax + r2->umax < c;
    }
    if (e->op == Op::Mul && isC(e->b) && e->b->k && e->a->umax <= m / e->b->k) {
        u128 g = std::__gcd((unsigned long long)c, (unsigned long long)e->b->k);
        if (g == c) { q = mkMul(e->a, mkConst(w, e->b->k / c)); r = mkConst(w, 0); return true; }
        E q1, r1;
        if (g == 1 || !divSplit(e->a, c / g, q1, r1, depth - 1) || !isC(r1)) return e->umax < c ? (q = mkConst(w, 0), r = e, true) : false;
        u128 rk = r1->k * e->b->k;
        q = mkAdd(mkMul(q1, mkConst(w, e->b->k / g)), mkConst(w, rk / c)); r = mkConst(w, rk % c);
        return true;
    }
    if (e->op == Op::ZExt) { E q1, r1; if (c > maskOf(e->a->width)) { q = mkConst(w, 0); r = e; return true; } if (!divSplit(e->a, c, q1, r1, depth - 1)) return false; q = mkZExt(q1, w); r = mkZExt(r1, w); return true; }
    if (e->op == Op::Extract && e->k == 0 && e->a->umax <= m) { E q1, r1; if (!divSplit(e->a, c, q1, r1, depth - 1)) return false; q = mkExtract(q1, w - 1, 0); r = mkExtract(r1, w - 1, 0); return true; }
    if (e->op == Op::Concat && isC(e->b) && e->b->width < 60) {
        u128 p = (u128)1 << e->b->width, g = std::__gcd((unsigned long long)c, (unsigned long long)p);
        E q1, r1;
        if (g != 1 && c / g <= maskOf(e->a->width)) {
            if (g == c) { q1 = e->a; r1 = mkConst(e->a->width, 0); }
            else if (!divSplit(e->a, c / g, q1, r1, depth - 1) || !isC(r1)) return false;
            u128 rk = r1->k * p + e->b->k;
            q = mkAdd(mkMul(mkZExt(q1, w), mkConst(w, p / g)), mkConst(w, rk / c)); r = mkConst(w, rk % c);
            return true;
        }
    }
    if (e->umax < c) { q = mkConst(w, 0); r = e; return true; }
    return false;
}
E mkBin(Op op, E a, E b) {
    unsigned w = a->width;
    assert(a->width == b->width);
    u128 m = maskOf(w);
    switch (op) {
    case Op::Add: return mkAdd(a, b);
    case Op::Mul: return mkMul(a, b);
    case Op::And: return mkAnd(a, b);
    case Op::Or: return mkOr(a, b);
    case Op::Xor: return mkXor(a, b);
    case Op::UDiv:
        if (isC(b) && b->k == 1) return a;
        if (isC(a) && isC(b) && b->k) return mkConst(w, a->k / b->k);
        if (isC(b) && isPow2(b->k)) return mkBin(Op::LShr, a, mkConst(w, log2u(b->k)));
        if (isC(b) && a->op == Op::UDiv && isC(a->b) && w <= 64 && a->b->k) return a->b->k * b->k > m ? mkConst(w, 0) : mkBin(Op::UDiv, a->a, mkConst(w, a->b->k * b->k));
        { E q, r; if (isC(b) && b->k && !isC(a) && w <= 64 && divSplit(a, b->k, q, r)) return q; }
        break;
    case Op::URem:
        if (isC(b) && b->k && a->op == Op::URem && isC(a->b) && a->b->k && a->b->k % b->k == 0 && w <= 64) return mkBin(Op::URem, a->a, b);
        if (isC(b) && b->k == 1) return mkConst(w, 0);
        if (isC(a) && isC(b) && b->k) return mkConst(w, a->k % b->k);
        if (isC(b) && isPow2(b->k)) return mkAnd(a, mkConst(w, b->k - 1));
        if (isC(b) && b->k && a->umax < b->k) return a;
        { E q, r; if (isC(b) && b->k && !isC(a) && w <= 64 && divSplit(a, b->k, q, r)) return r; }
        break;
    case Op::SDiv:
        if (isC(a) && isC(b) && b->k) { __int128 x = sgn128(a->k, w), y = sgn128(b->k, w); return mkConst(w, (u128)(x / y)); }
        if (isC(b) && !(b->k >> (w - 1)) && !(a->umax >> (w - 1))) return mkBin(Op::UDiv, a, b);
        break;
    case Op::SRem:
        if (isC(a) && isC(b) && b->k) { __int128 x = sgn128(a->k, w), y = sgn128(b->k, w); return mkConst(w, (u128)(x % y)); }
        if (isC(b) && !(b->k >> (w - 1)) && !(a->umax >> (w - 1))) return mkBin(Op::URem, a, b);
        break;
    case Op::Shl:
        if (isC(b)) {
            if (b->k == 0) return a;
            if (b->k >= w) return mkConst(w, 0);
            if (isC(a)) return mkConst(w, a->k << (unsigned)b->k);
            // canonical: concat(extract(a), 0)
            return mkConcat(mkExtract(a, w - 1 - (unsigned)b->k, 0), mkConst((unsigned)b->k, 0));
        }
        if (isC(a) && a->k == 0) return a;
        break;
    case Op::LShr:
        if (isC(b)) {
            if (b->k == 0) return a;
            if (b->k >= w) return mkConst(w, 0);
            if (isC(a)) return mkConst(w, a->k >> (unsigned)b->k);
            return mkZExt(mkExtract(a, w - 1, (unsigned)b->k), w);
        }
        if (isC(a) && a->k == 0) return a;
        break;
    case Op::AShr:
        if (isC(b)) {
            if (b->k == 0) return a;
            unsigned s = b->k >= w ? w - 1 : (unsigned)b->k;
            if (isC(a)) return mkConst(w, (u128)(sgn128(a->k, w) >> s));
            return mkSExt(mkExtract(a, w - 1, s), w);
        }
        if (!(a->umax >> (w - 1))) return mkBin(Op::LShr, a, b);
        break;
    case Op::Eq: return mkEq(a, b);
    case Op::Ult: return mkUlt(a, b);
    case Op::Ule: return mkUle(a, b);
    case Op::Slt: return mkSlt(a, b);
    case Op::Sle: return mkSle(a, b);
    case Op::Concat: return mkConcat(a, b);
    default: break;
    }
    (void)m;
    return mk(op, w, a, b);
}
E mkAnd(E a, E b) {
    if (a == b) return a;
    if (isC(a) && !isC(b)) std::swap(a, b);
    unsigned w = a->width;
    u128 m = maskOf(w);
    if (isC(b)) {
        if (isC(a)) return mkConst(w, a->k & b->k);
        if (b->k == 0) return b;
        if (b->k == m) return a;
        // and with low mask: zext(extract)
        if (isPow2(b->k + 1)) { unsigned n = log2u(b->k + 1); return mkZExt(mkExtract(a, n - 1, 0), w); }
        // contiguous mask shifted: concat(0, extract, 0)
        unsigned lo = 0; while (!((b->k >> lo) & 1)) lo++;
        u128 sh = b->k >> lo;
        if (isPow2(sh + 1) && lo > 0) {
            unsigned n = log2u(sh + 1);
            E mid = mkExtract(a, lo + n - 1, lo);
            E r = mkConcat(mid, mkConst(lo, 0));
            return mkZExt(r, w);
        }
        // general constant mask with few runs (e.g. clearing a field): split in runs
        std::vector<std::pair<unsigned, unsigned>> runs; // from low: [lo,hi] with bit value
        unsigned i = 0; int nr = 0;
        E r = nullptr;
        unsigned pos = 0;
        u128 k = b->k;
        std::vector<E> parts;
        while (pos < w) { unsigned s = pos; bool v = (k >> pos) & 1; while (pos < w && (bool)((k >> pos) & 1) == v) pos++; nr++; parts.push_back(v ? mkExtract(a, pos - 1, s) : mkConst(pos - s, 0)); if (nr > 6) break; }
        (void)i;
        if (nr <= 6) { r = parts[0]; for (size_t j = 1; j < parts.size(); j++) r = mkConcat(parts[j], r); return r; }
    }
    if (w == 1) {
        // x & !x
        if (a->op == Op::Xor && isC(a->b) && a->a == b) return mkBool(false);
        if (b->op == Op::Xor && isC(b->b) && b->a == a) return mkBool(false);
    }
    if (a->id > b->id) std::swap(a, b);
    return mk(Op::And, w, a, b);
}
// number of low bits that are possibly nonzero
static unsigned activeBits(E e) { unsigned n = 0; u128 v = e->umax; while (v) { n++; v >>= 1; } return n; }
E mkOr(E a, E b) {
    if (a == b) return a;
    if (isC(a) && !isC(b)) std::swap(a, b);
    unsigned w = a->width;
    u128 m = maskOf(w);
    if (isC(b)) {
        if (isC(a)) return mkConst(w, a->k | b->k);
        if (b->k == 0) return a;
        if (b->k == m) return b;
    }
    if (w == 1) {
        if (a->op == Op::Xor && isC(a->b) && a->a == b) return mkBool(true);
        if (b->op == Op::Xor && isC(b->b) && b->a == a) return mkBool(true);
    } else {
        // disjoint parts: high part has >= n trailing zeros and the low part fits n bits => concat
        for (int s = 0; s < 2; s++) {
            unsigned n = activeBits(b);
            if (n < w && n > 0 && a->tz >= n) return mkConcat(mkExtract(a, w - 1, n), mkExtract(b, n - 1, 0));
            std::swap(a, b);
        }
    }
    if (a->id > b->id) std::swap(a, b);
    return mk(Op::Or, w, a, b);
}
E mkXor(E a, E b) {
    unsigned w = a->width;
    if (a == b) return mkConst(w, 0);
    if (isC(a) && !isC(b)) std::swap(a, b);
    if (isC(b)) {
        if (isC(a)) return mkConst(w, a->k ^ b->k);
        if (b->k == 0) return a;
        if (a->op == Op::Xor && isC(a->b)) return mkXor(a->a, mkConst(w, a->b->k ^ b->k));
        if (w == 1) { // boolean not
            if (a->op == Op::Ult) return mkUle(a->b, a->a);
            if (a->op == Op::Ule) return mkUlt(a->b, a->a);
            if (a->op == Op::Slt) return mkSle(a->b, a->a);
            if (a->op == Op::Sle) return mkSlt(a->b, a->a);
        }
        return mk(Op::Xor, w, a, b);
    }
    if (a->id > b->id) std::swap(a, b);
    return mk(Op::Xor, w, a, b);
}
E mkNot(E a) { return mkXor(a, mkConst(a->width, maskOf(a->width))); }
E mkConcat(E hi, E lo) {
    unsigned w = hi->width + lo->width;
    assert(w <= 128);
    if (isC(hi) && isC(lo)) return mkConst(w, (hi->k << lo->width) | lo->k);
    if (isC(hi) && hi->k == 0) return mkZExt(lo, w);
    if (hi->op == Op::Extract && lo->op == Op::Extract && hi->a == lo->a && (unsigned)hi->k == (unsigned)lo->k + lo->width)
        return mkExtract(hi->a, (unsigned)hi->k + hi->width - 1, (unsigned)lo->k);
    if (hi->op == Op::Extract && (hi->a->op == Op::Add || hi->a->op == Op::Mul) && (unsigned)hi->k == lo->width && lo->op != Op::Concat && mkExtract(hi->a, lo->width - 1, 0) == lo)
        return mkExtract(hi->a, (unsigned)hi->k + hi->width - 1, 0);
    if (hi->op == Op::ZExt) return mkZExt(mkConcat(hi->a, lo), w);
    // right-assoc: concat(concat(x,y),z) -> concat(x, concat(y,z))
    if (hi->op == Op::Concat) return mkConcat(hi->a, mkConcat(hi->b, lo));
    if (lo->op == Op::Concat && hi->op == Op::Extract && lo->a->op == Op::Extract && hi->a == lo->a->a && (unsigned)hi->k == (unsigned)lo->a->k + lo->a->width)
        return mkConcat(mkExtract(hi->a, (unsigned)hi->k + hi->width - 1, (unsigned)lo->a->k), lo->b);
    if (lo->op == Op::Concat && isC(hi) && isC(lo->a)) return mkConcat(mkConst(hi->width + lo->a->width, (hi->k << lo->a->width) | lo->a->k), lo->b);
    if (hi->op == Op::Ite && lo->op == Op::Ite && hi->a == lo->a) return mkIte(hi->a, mkConcat(hi->b, lo->b), mkConcat(hi->c, lo->c));
    return mk(Op::Concat, w, hi, lo);
}
E mkExtract(E a, unsigned hi, unsigned lo) {
    assert(hi < a->width && lo <= hi);
    unsigned w = hi - lo + 1;
    if (w == a->width) return a;
    if (isC(a)) return mkConst(w, a->k >> lo);
    switch (a->op) {
    case Op::Extract: return mkExtract(a->a, hi + (unsigned)a->k, lo + (unsigned)a->k);
    case Op::Concat:
        if (lo >= a->b->width) return mkExtract(a->a, hi - a->b->width, lo - a->b->width);
        if (hi < a->b->width) return mkExtract(a->b, hi, lo);
        return mkConcat(mkExtract(a->a, hi - a->b->width, 0), mkExtract(a->b, a->b->width - 1, lo));
    case Op::ZExt:
        if (lo >= a->a->width) return mkConst(w, 0);
        if (hi < a->a->width) return mkExtract(a->a, hi, lo);
        return mkZExt(mkExtract(a->a, a->a->width - 1, lo), w);
    case Op::SExt:
        if (hi < a->a->width) return mkExtract(a->a, hi, lo);
        if (lo < a->a->width) return mkSExt(mkExtract(a->a, a->a->width - 1, lo), w);
        break;
    case Op::And: return mkAnd(mkExtract(a->a, hi, lo), mkExtract(a->b, hi, lo));
    case Op::Or: return mkOr(mkExtract(a->a, hi, lo), mkExtract(a->b, hi, lo));
    case Op::Xor: return mkXor(mkExtract(a->a, hi, lo), mkExtract(a->b, hi, lo));
    case Op::Ite: if (isC(a->b) || isC(a->c) || a->b->op == Op::Concat || a->c->op == Op::Concat || a->b->op == Op::ZExt || a->c->op == Op::ZExt) return mkIte(a->a, mkExtract(a->b, hi, lo), mkExtract(a->c, hi, lo)); break;
    case Op::Add:
    case Op::Mul:
        if (lo == 0) return a->op == Op::Add ? mkAdd(mkExtract(a->a, hi, 0), mkExtract(a->b, hi, 0)) : mkMul(mkExtract(a->a, hi, 0), mkExtract(a->b, hi, 0));
        if (a->op == Op::Mul && !isC(a->b)) break;
        {
            // T + k with t trailing zeros in T: no carry out of the low t bits
            Lin l; u128 m = maskOf(a->width);
            if (linCollect(a, 1, l, m, 30) && !l.t.empty()) {
                unsigned t = a->width;
                for (auto& p : l.t) { unsigned c = 0; while (c < a->width && !((p.second >> c) & 1)) c++; t = std::min<unsigned>(t, c + p.first->tz); }
                if (t > lo) t = lo;
                if (t > 0) {
                    unsigned nw = a->width - t;
                    E r = mkConst(nw, l.k >> t);
                    for (auto& p : l.t) {
                        unsigned c = 0; while (c < t && !((p.second >> c) & 1)) c++;
                        // coef = 2^c * c', term has at least t - c trailing zeros
                        E x = mkExtract(p.first, a->width - 1, t - c);
                        x = x->width > nw ? mkExtract(x, nw - 1, 0) : x;
                        r = mkAdd(r, mkMul(x, mkConst(nw, p.second >> c)));
                    }
                    return mkExtract(r, hi - t, lo - t);
                }
                // T + B with lo trailing zeros in T, B not wrapping around: (T + B) >> lo = (T >> lo) + (B >> lo)
                Lin lt, lb; u128 bmax = l.k & maskOf(lo); bool ok = true;
                auto tzOf = [&](const std::pair<E, u128>& p) { unsigned c = 0; while (c < a->width && !((p.second >> c) & 1)) c++; return c + p.first->tz; };
                unsigned nt = 0;
                for (auto& p : l.t) {
                    if (tzOf(p) >= lo) { nt++; continue; }
                    if (p.second > m / 2 || p.first->umax > m / p.second || p.first->umax * p.second > m - bmax) { ok = false; break; }
                    bmax += p.first->umax * p.second;
                }
                if (ok && (nt > 0 || (l.k >> lo) != 0)) {
                    unsigned nw = a->width - lo;
                    E r = mkConst(nw, l.k >> lo), B = mkConst(a->width, l.k & maskOf(lo));
                    for (auto& p : l.t) {
                        if (tzOf(p) < lo) { B = mkAdd(B, mkMul(p.first, mkConst(a->width, p.second))); continue; }
                        unsigned c = 0; while (c < lo && !((p.second >> c) & 1)) c++;
                        E x = mkExtract(p.first, a->width - 1, lo - c);
                        x = x->width > nw ? mkExtract(x, nw - 1, 0) : x;
                        r = mkAdd(r, mkMul(x, mkConst(nw, p.second >> c)));
                    }
                    r = mkAdd(r, bmax <= maskOf(lo) ? mkConst(nw, 0) : mkExtract(B, a->width - 1, lo));
                    return mkExtract(r, hi - lo, 0);
                }
            }
        }
        break;
    default: break;
    }
    if (hi == a->width - 1 && lo > 0) {}
    return mk(Op::Extract, w, a, nullptr, nullptr, lo);
}
E mkZExt(E a, unsigned w) {
    if (w == a->width) return a;
    assert(w > a->width);
    if (isC(a)) return mkConst(w, a->k);
    if (a->op == Op::ZExt) return mkZExt(a->a, w);
    if (a->op == Op::Add && a->a->umax + a->b->umax <= maskOf(a->width) && a->a->umax + a->b->umax >= a->a->umax) return mkAdd(mkZExt(a->a, w), mkZExt(a->b, w));
    if (a->op == Op::Mul && isC(a->b) && a->a->umax <= maskOf(a->width) / a->b->k) return mkMul(mkZExt(a->a, w), mkConst(w, a->b->k));
    return mk(Op::ZExt, w, a);
}
E mkSExt(E a, unsigned w) {
    if (w == a->width) return a;
    assert(w > a->width);
    if (isC(a)) return mkConst(w, (u128)sgn128(a->k, a->width));
    if (!(a->umax >> (a->width - 1))) return mkZExt(a, w);
    if (a->op == Op::SExt) return mkSExt(a->a, w);
    return mk(Op::SExt, w, a);
}
E mkTrunc(E a, unsigned w) { return mkExtract(a, w - 1, 0); }
E mkIte(E c, E a, E b) {
    if (isTrue(c)) return a;
    if (isFalse(c)) return b;
    if (a == b) return a;
    if (c->op == Op::Xor && isC(c->b)) return mkIte(c->a, b, a);
    if (a->width == 1) {
        if (isTrue(a) && isFalse(b)) return c;
        if (isFalse(a) && isTrue(b)) return mkNot(c);
        if (isTrue(a)) return mkOr(c, b);
        if (isFalse(a)) return mkAnd(mkNot(c), b);
        if (isTrue(b)) return mkOr(mkNot(c), a);
        if (isFalse(b)) return mkAnd(c, a);
    }
    if (a->op == Op::Ite && a->a == c) a = a->b;
    if (b->op == Op::Ite && b->a == c) b = b->c;
    if (a == b) return a;
    return mk(Op::Ite, a->width, c, a, b);
}
E mkEq(E a, E b) {
    if (a == b) return mkBool(true);
    assert(a->width == b->width);
    if (isC(a) && isC(b)) return mkBool(a->k == b->k);
    if (a->umax < b->umin || b->umax < a->umin) return mkBool(false);
    if (isC(a)) std::swap(a, b);
    if (a->width == 1) {
        if (isC(b)) return b->k ? a : mkNot(a);
        return mkNot(mkXor(a, b));
    }
    if (isC(b)) {
        if (a->op == Op::ZExt) { if (b->k >> a->a->width) return mkBool(false); return mkEq(a->a, mkConst(a->a->width, b->k)); }
        if (a->op == Op::Ite) {
            if (isC(a->b) && isC(a->c)) {
                bool x = a->b->k == b->k, y = a->c->k == b->k;
                if (x && y) return mkBool(true);
                if (x) return a->a;
                if (y) return mkNot(a->a);
                return mkBool(false);
            }
            if (isC(a->b)) return a->b->k == b->k ? mkOr(a->a, mkEq(a->c, b)) : mkAnd(mkNot(a->a), mkEq(a->c, b));
            if (isC(a->c)) return a->c->k == b->k ? mkOr(mkNot(a->a), mkEq(a->b, b)) : mkAnd(a->a, mkEq(a->b, b));
        }
        if (a->op == Op::Concat) return mkAnd(mkEq(a->a, mkConst(a->a->width, b->k >> a->b->width)), mkEq(a->b, mkConst(a->b->width, b->k)));
        if (a->op == Op::Add && isC(a->b)) return mkEq(a->a, mkConst(a->width, b->k - a->b->k));
        if (a->op == Op::Xor && isC(a->b)) return mkEq(a->a, mkConst(a->width, b->k ^ a->b->k));
    } else {
        if (a->op == Op::ZExt && b->op == Op::ZExt && a->a->width == b->a->width) return mkEq(a->a, b->a);
        if (a->op == Op::SExt && b->op == Op::SExt && a->a->width == b->a->width) return mkEq(a->a, b->a);
        if (a->op == Op::Add || b->op == Op::Add) {
            E d = mkSub(a, b);
            if (isC(d)) return mkBool(d->k == 0);
        }
    }
    if (!isC(b) && a->id > b->id) std::swap(a, b);
    return mk(Op::Eq, 1, a, b);
}
E mkUlt(E a, E b) {
    if (a == b) return mkBool(false);
    if (isC(a) && isC(b)) return mkBool(a->k < b->k);
    if (a->umax < b->umin) return mkBool(true);
    if (a->umin >= b->umax) return mkBool(false);
    if (isC(b) && b->k == 1) return mkEq(a, mkConst(a->width, 0));
    if (a->op == Op::ZExt && b->op == Op::ZExt && a->a->width == b->a->width) return mkUlt(a->a, b->a);
    if (a->op == Op::ZExt && isC(b) && !(b->k >> a->a->width)) return mkUlt(a->a, mkConst(a->a->width, b->k));
    if (b->op == Op::ZExt && isC(a) && !(a->k >> b->a->width)) return mkUlt(mkConst(b->a->width, a->k), b->a);
    return mk(Op::Ult, 1, a, b);
}
E mkUle(E a, E b) {
    if (a == b) return mkBool(true);
    if (isC(a) && isC(b)) return mkBool(a->k <= b->k);
    if (a->umax <= b->umin) return mkBool(true);
    if (a->umin > b->umax) return mkBool(false);
    if (isC(b) && b->k == 0) return mkEq(a, b);
    if (a->op == Op::ZExt && b->op == Op::ZExt && a->a->width == b->a->width) return mkUle(a->a, b->a);
    return mk(Op::Ule, 1, a, b);
}
E mkSlt(E a, E b) {
    if (a == b) return mkBool(false);
    unsigned w = a->width;
    if (isC(a) && isC(b)) return mkBool(sgn128(a->k, w) < sgn128(b->k, w));
    bool pa = !(a->umax >> (w - 1)), pb = !(b->umax >> (w - 1));
    if (pa && pb) return mkUlt(a, b);
    bool na = (a->umin >> (w - 1)) & 1, nb = (b->umin >> (w - 1)) & 1;
    if (na && pb) return mkBool(true);
    if (pa && nb) return mkBool(false);
    if (a->op == Op::SExt && b->op == Op::SExt && a->a->width == b->a->width) return mkSlt(a->a, b->a);
    return mk(Op::Slt, 1, a, b);
}
E mkSle(E a, E b) {
    if (a == b) return mkBool(true);
    unsigned w = a->width;
    if (isC(a) && isC(b)) return mkBool(sgn128(a->k, w) <= sgn128(b->k, w));
    bool pa = !(a->umax >> (w - 1)), pb = !(b->umax >> (w - 1));
    if (pa && pb) return mkUle(a, b);
    bool na = (a->umin >> (w - 1)) & 1, nb = (b->umin >> (w - 1)) & 1;
    if (na && pb) return mkBool(true);
    if (pa && nb) return mkBool(false);
    if (a->op == Op::SExt && b->op == Op::SExt && a->a->width == b->a->width) return mkSle(a->a, b->a);
    return mk(Op::Sle, 1, a, b);
}

// ---- floating point: constants are folded with the host's IEEE arithmetic -------------------
static double toD(u128 v, unsigned w) { if (w == 32) { uint32_t x = (uint32_t)v; float f; memcpy(&f, &x, 4); return f; } uint64_t x = (uint64_t)v; double d; memcpy(&d, &x, 8); return d; }
static float toF(u128 v) { uint32_t x = (uint32_t)v; float f; memcpy(&f, &x, 4); return f; }
static u128 fromF(float f) { uint32_t x; memcpy(&x, &f, 4); return x; }
static u128 fromD(double f) { uint64_t x; memcpy(&x, &f, 8); return x; }
static bool foldFp(Op op, unsigned w, u128 a, unsigned wa, u128 b, u128& out) {
    switch (op) {
    case Op::FAdd: out = w == 32 ? fromF(toF(a) + toF(b)) : fromD(toD(a, 64) + toD(b, 64)); return true;
    case Op::FSub: out = w == 32 ? fromF(toF(a) - toF(b)) : fromD(toD(a, 64) - toD(b, 64)); return true;
    case Op::FMul: out = w == 32 ? fromF(toF(a) * toF(b)) : fromD(toD(a, 64) * toD(b, 64)); return true;
    case Op::FDiv: out = w == 32 ? fromF(toF(a) / toF(b)) : fromD(toD(a, 64) / toD(b, 64)); return true;
    case Op::FEq: out = toD(a, wa) == toD(b, wa); return true;
    case Op::FLt: out = toD(a, wa) < toD(b, wa); return true;
    case Op::FLe: out = toD(a, wa) <= toD(b, wa); return true;
    case Op::FNan: out = toD(a, wa) != toD(a, wa); return true;
    case Op::FNeg: out = a ^ ((u128)1 << (w - 1)); return true;
    case Op::FCvt: out = w == 64 ? fromD((double)toF(a)) : fromF((float)toD(a, 64)); return true;
    case Op::SIToF: { int64_t s = sgn(a, wa); out = w == 32 ? fromF((float)s) : fromD((double)s); return true; }
    case Op::UIToF: { uint64_t s = (uint64_t)a; out = w == 32 ? fromF((float)s) : fromD((double)s); return true; }
    case Op::FToSI: { double d = toD(a, wa); if (!(d > -9.3e18 && d < 9.2e18)) return false; out = (u128)(uint64_t)(int64_t)d & maskOf(w); return true; }
    case Op::FToUI: { double d = toD(a, wa); if (!(d > -1 && d < 1.8e19)) return false; out = (u128)(uint64_t)d & maskOf(w); return true; }
    default: return false;
    }
}
E mkFp(Op op, unsigned w, E a, E b) {
    if (isC(a) && (!b || isC(b))) { u128 o; if (foldFp(op, w, a->k, a->width, b ? b->k : 0, o)) return mkConst(w, o); }
    return mk(op, w, a, b);
}
static bool isFpOp(Op op) { return op >= Op::FAdd && op <= Op::FIsInt; }
static std::unordered_map<uint32_t, bool> fpMemo;
bool containsFp(E e) {
    auto it = fpMemo.find(e->id);
    if (it != fpMemo.end()) return it->second;
    bool r = isFpOp(e->op) || (e->a && containsFp(e->a)) || (e->b && containsFp(e->b)) || (e->c && containsFp(e->c));
    fpMemo[e->id] = r;
    return r;
}

static std::unordered_map<uint32_t, std::vector<uint32_t>> symMemo;
const std::vector<uint32_t>& symsOf(E e) {
    auto it = symMemo.find(e->id);
    if (it != symMemo.end()) return it->second;
    std::vector<uint32_t> r;
    auto merge = [&](E x) { if (!x) return; const auto& s = symsOf(x); std::vector<uint32_t> t; std::set_union(r.begin(), r.end(), s.begin(), s.end(), std::back_inserter(t)); r.swap(t); };
    merge(e->a); merge(e->b); merge(e->c);
    if (e->op == Op::Var || e->op == Op::Sel) { auto p = std::lower_bound(r.begin(), r.end(), e->sym); if (p == r.end() || *p != e->sym) r.insert(p, e->sym); }
    return symMemo[e->id] = std::move(r);
}

bool evalE(E e, const Model& m, u128& out) {
    if (isC(e)) { out = e->k; return true; }
    auto it = m.memo.find(e->id);
    if (it != m.memo.end()) { out = it->second; return true; }
    u128 a = 0, b = 0, r = 0;
    unsigned w = e->width;
    u128 mk_ = maskOf(w);
    switch (e->op) {
    case Op::Var: { auto f = m.vars.find(e->sym); r = f == m.vars.end() ? 0 : f->second; break; }
    case Op::Sel: { if (!evalE(e->a, m, a)) return false; auto f = m.arrays.find(e->sym); r = 0; if (f != m.arrays.end()) { auto g = f->second.find((uint64_t)a); if (g != f->second.end()) r = g->second; } break; }
    case Op::Ite: if (!evalE(e->a, m, a)) return false; if (!evalE(a ? e->b : e->c, m, r)) return false; break;
    default: {
        if (!evalE(e->a, m, a)) return false;
        if (e->b && !evalE(e->b, m, b)) return false;
        unsigned wa = e->a->width;
        switch (e->op) {
        case Op::Add: r = a + b; break;
        case Op::Mul: r = a * b; break;
        case Op::UDiv: r = b ? a / b : mk_; break;
        case Op::URem: r = b ? a % b : a; break;
        case Op::SDiv: if (!b) r = sgn128(a, w) < 0 ? 1 : mk_; else r = (u128)(sgn128(a, w) / sgn128(b, w)); break;
        case Op::SRem: if (!b) r = a; else r = (u128)(sgn128(a, w) % sgn128(b, w)); break;
        case Op::And: r = a & b; break;
        case Op::Or: r = a | b; break;
        case Op::Xor: r = a ^ b; break;
        case Op::Shl: r = b >= w ? 0 : a << (unsigned)b; break;
        case Op::LShr: r = b >= w ? 0 : a >> (unsigned)b; break;
        case Op::AShr: r = (u128)(sgn128(a, w) >> (b >= w ? w - 1 : (unsigned)b)); break;
        case Op::Concat: r = (a << e->b->width) | b; break;
        case Op::Extract: r = a >> (unsigned)e->k; break;
        case Op::ZExt: r = a; break;
        case Op::SExt: r = (u128)sgn128(a, wa); break;
        case Op::Eq: r = a == b; break;
        case Op::Ult: r = a < b; break;
        case Op::Ule: r = a <= b; break;
        case Op::Slt: r = sgn128(a, wa) < sgn128(b, wa); break;
        case Op::Sle: r = sgn128(a, wa) <= sgn128(b, wa); break;
        default:
            if (isFpOp(e->op)) { if (!foldFp(e->op, w, a, wa, b, r)) return false; break; }
            return false;
        }
    }
    }
    r &= mk_;
    m.memo[e->id] = r;
    out = r;
    return true;
}

std::string show(E e, int d) {
    std::ostringstream o;
    static const char* names[] = {"const", "var", "sel", "+", "*", "/u", "/s", "%u", "%s", "&", "|", "^", "<<", ">>u", ">>s", "concat", "extract", "zext", "sext", "ite", "==", "<u", "<=u", "<s", "<=s", "fadd", "fsub", "fmul", "fdiv", "feq", "flt", "fle", "fnan", "ftosi", "ftoui", "sitof", "uitof", "fcvt", "fneg", "fisint", "lin"};
    if (isC(e)) { uint64_t v = (uint64_t)e->k; o << v; return o.str(); }
    if (e->op == Op::Var) return symName(e->sym);
    if (d == 0) return "..";
    if (e->op == Op::Sel) return symName(e->sym) + "[" + show(e->a, d - 1) + "]";
    if (e->op == Op::Extract) { o << show(e->a, d - 1) << "[" << (unsigned)e->k + e->width - 1 << ":" << (unsigned)e->k << "]"; return o.str(); }
    o << "(" << names[(int)e->op];
    if (e->a) o << " " << show(e->a, d - 1);
    if (e->b) o << " " << show(e->b, d - 1);
    if (e->c) o << " " << show(e->c, d - 1);
    o << ")";
    return o.str();
}
