#include "lin.h"
#include <algorithm>

static std::vector<LinForm> forms;
static std::map<std::vector<std::pair<uint32_t, i128>>, int> formIdx;
static int intern(const LinForm& f) {
    std::vector<std::pair<uint32_t, i128>> k;
    for (auto& p : f) k.push_back({p.first->id, p.second});
    auto it = formIdx.find(k);
    if (it != formIdx.end()) return it->second;
    forms.push_back(f);
    return formIdx[k] = (int)forms.size() - 1;
}
const LinForm& linForm(int key) { return forms[key]; }

typedef std::map<uint32_t, std::pair<E, i128>> Acc;
static bool collect(E e, i128 coef, Acc& acc, i128& k, int depth) {
    if (acc.size() > 12) return false;
    if (isC(e)) { k += coef * (i128)e->k; return true; }
    if (e->width > 64) return false;
    if (depth > 0) {
        u128 m = maskOf(e->width);
        if (e->op == Op::Add && e->a->umax <= m - e->b->umax) return collect(e->a, coef, acc, k, depth - 1) && collect(e->b, coef, acc, k, depth - 1);
        if (e->op == Op::Mul && isC(e->b) && e->b->k && e->a->umax <= m / e->b->k && e->b->k < ((u128)1 << 40)) return collect(e->a, coef * (i128)e->b->k, acc, k, depth - 1);
        if (e->op == Op::ZExt) return collect(e->a, coef, acc, k, depth - 1);
        if (e->op == Op::Concat && e->b->width < 40) return collect(e->a, coef << e->b->width, acc, k, depth - 1) && collect(e->b, coef, acc, k, depth - 1);
        if (e->op == Op::Shl && isC(e->b) && e->b->k < 40 && e->a->umax <= (m >> (unsigned)e->b->k)) return collect(e->a, coef << (unsigned)e->b->k, acc, k, depth - 1);
    }
    auto& p = acc[e->id];
    p.first = e;
    p.second += coef;
    if (p.second > ((i128)1 << 60) || p.second < -((i128)1 << 60)) return false;
    return true;
}
static i128 fdiv(i128 a, i128 b) { i128 q = a / b; if (a % b != 0 && (a < 0) != (b < 0)) q--; return q; }
static LinFact mkFact(E a, E b, i128 strict) { // a - b + strict <= 0
    LinFact r;
    Acc acc; i128 k = strict;
    if (!collect(a, 1, acc, k, 20) || !collect(b, -1, acc, k, 20)) return r;
    LinForm f;
    i128 g = 0;
    for (auto& p : acc) if (p.second.second) { f.push_back(p.second); i128 x = p.second.second < 0 ? -p.second.second : p.second.second; g = g ? std::__gcd(g, x) : x; }
    if (f.empty()) return r;
    for (auto& p : f) p.second /= g;
    r.ok = true; r.D = fdiv(-k, g); r.key = intern(f);
    return r;
}
static LinFact negF(const LinFact& f) {
    LinFact r;
    if (!f.ok) return r;
    LinForm n = forms[f.key];
    for (auto& p : n) p.second = -p.second;
    r.ok = true; r.D = -f.D - 1; r.key = intern(n);
    return r;
}
static std::unordered_map<uint32_t, LinFact> memo;
LinFact linFact(E c) {
    auto it = memo.find(c->id);
    if (it != memo.end()) return it->second;
    LinFact r;
    if (c->op == Op::Ule) r = mkFact(c->a, c->b, 0);
    else if (c->op == Op::Ult) r = mkFact(c->a, c->b, 1);
    else if (c->op == Op::Xor && c->width == 1 && isTrue(c->b)) r = negF(linFact(c->a));
    return memo[c->id] = r;
}
static i128 ub(const LinForm& f) {
    i128 s = 0;
    for (auto& p : f) s += p.second > 0 ? p.second * (i128)p.first->umax : p.second * (i128)p.first->umin;
    return s;
}
static bool boundable(const LinForm& f) { for (auto& p : f) if (p.first->umax >> 62) if (p.second > 0) return false; return true; }
void LinStore::add(E c) {
    if (c->op == Op::Eq && c->a->width > 1) {
        for (auto f : {mkFact(c->a, c->b, 0), mkFact(c->b, c->a, 0)}) if (f.ok) { auto it = best.find(f.key); if (it == best.end() || f.D < it->second) best[f.key] = f.D; }
        return;
    }
    LinFact f = linFact(c);
    if (!f.ok) return;
    auto it = best.find(f.key);
    if (it == best.end() || f.D < it->second) best[f.key] = f.D;
}
static LinForm sub(const LinForm& a, const LinForm& b) {
    LinForm r;
    size_t i = 0, j = 0;
    while (i < a.size() || j < b.size()) {
        if (j == b.size() || (i < a.size() && a[i].first->id < b[j].first->id)) r.push_back(a[i++]);
        else if (i == a.size() || b[j].first->id < a[i].first->id) { r.push_back({b[j].first, -b[j].second}); j++; }
        else { i128 c = a[i].second - b[j].second; if (c) r.push_back({a[i].first, c}); i++; j++; }
    }
    return r;
}
bool LinStore::implied(E c) const {
    LinFact f = linFact(c);
    if (!f.ok) return false;
    auto it = best.find(f.key);
    if (it != best.end() && it->second <= f.D) return true;
    const LinForm g = forms[f.key];
    if (boundable(g) && ub(g) <= f.D) return true;
    for (auto& kv : best) {
        LinForm d = sub(g, forms[kv.first]);
        if (d.empty()) continue;
        if (d.size() > g.size() + 1) continue;
        if (boundable(d) && ub(d) <= f.D - kv.second) return true;
        i128 gg = 0;
        for (auto& p : d) { i128 x = p.second < 0 ? -p.second : p.second; gg = gg ? std::__gcd(gg, x) : x; }
        for (auto& p : d) p.second /= gg;
        std::vector<std::pair<uint32_t, i128>> k;
        for (auto& p : d) k.push_back({p.first->id, p.second});
        auto fi = formIdx.find(k);
        if (fi == formIdx.end()) continue;
        auto bi = best.find(fi->second);
        if (bi != best.end() && kv.second + gg * bi->second <= f.D) return true;
    }
    return false;
}

int LinStore::decide(E c) const {
    if (isC(c)) return c->k != 0;
    if (c->op == Op::Xor && c->width == 1 && isTrue(c->b)) { int r = decide(c->a); return r < 0 ? r : !r; }
    if (c->op == Op::Ult || c->op == Op::Ule) {
        if (implied(c)) return 1;
        if (implied(mkNot(c))) return 0;
        // modular comparison x - y < n: x and y ordered the right way
        E p, n;
        if (c->op == Op::Ult && splitDiff(c->a, mkConst(c->a->width, 0), p, n) && !(isC(n) && n->k == 0)) {
            // p - n < b: false if p < n (wraps to a huge value; b must be small), or p - n >= b
            u128 big = maskOf(c->a->width) - n->umax;
            if (c->b->umax <= big && implied(mkUlt(p, n))) return 0;
            if (n->umax <= maskOf(n->width) - c->b->umax && implied(mkUle(mkAdd(n, c->b), p))) return 0;
            if (n->umax <= maskOf(n->width) - c->b->umax && implied(mkUle(n, p)) && implied(mkUlt(p, mkAdd(n, c->b)))) return 1;
        }
        return -1;
    }
    if (c->op == Op::Eq && c->a->width > 1 && c->a->width <= 64) {
        E p, n;
        if (!splitDiff(c->a, c->b, p, n)) return -1;
        if (implied(mkUlt(p, n)) || implied(mkUlt(n, p))) return 0;
    }
    return -1;
}
E LinStore::simplify(E e, int depth) const {
    for (int i = 0; i < 200 && e->op == Op::Ite; i++) {
        int d = decide(e->a);
        if (d < 0) {
            if (depth <= 0) return e;
            E b = simplify(e->b, depth - 1), c = simplify(e->c, depth - 1);
            return b == e->b && c == e->c ? e : mkIte(e->a, b, c);
        }
        e = d ? e->b : e->c;
    }
    if (e->op == Op::Concat && depth > 0) {
        E a = simplify(e->a, depth - 1), b = simplify(e->b, depth - 1);
        return a == e->a && b == e->b ? e : mkConcat(a, b);
    }
    return e;
}

// the sum e of non-negative terms, computed in w bits (no wrap there as long as the terms are smaller)
static E widen(E e, unsigned w) {
    if (e->op == Op::Add) return mkAdd(widen(e->a, w), widen(e->b, w));
    if (e->op == Op::Mul && isC(e->b)) return mkMul(mkZExt(e->a, w), mkConst(w, e->b->k));
    return mkZExt(e, w);
}
// e = p - n without wrap, in w bits; null if the facts don't say so
E LinStore::exact(E e, unsigned w) const {
    if (e->op != Op::Add) return mkZExt(e, w);
    E p, n;
    if (!splitDiff(e, mkConst(e->width, 0), p, n)) return nullptr;
    E wp = widen(p, w), wn = widen(n, w);
    if (decide(mkUle(wp, mkConst(w, maskOf(e->width)))) != 1 || decide(mkUle(wn, wp)) != 1) return nullptr;
    return mkSub(wp, wn);
}
E LinStore::simplifyDeep(E e, int& budget, std::unordered_map<uint32_t, E>& memo) const {
    if (isC(e) || e->op == Op::Var || e->op == Op::Sel || budget <= 0) return e;
    auto it = memo.find(e->id);
    if (it != memo.end()) return it->second;
    budget--;
    E r = e;
    if (e->width == 1 && (e->op == Op::Ult || e->op == Op::Ule || (e->op == Op::Eq && e->a->width > 8))) {
        int d = decide(e);
        if (d >= 0) return memo[e->id] = mkBool(d);
    }
    switch (e->op) {
    case Op::Ite: {
        E c = simplifyDeep(e->a, budget, memo);
        if (isC(c)) { r = simplifyDeep(c->k ? e->b : e->c, budget, memo); break; }
        E b = simplifyDeep(e->b, budget, memo), x = simplifyDeep(e->c, budget, memo);
        if (c != e->a || b != e->b || x != e->c) r = mkIte(c, b, x);
        break; }
    case Op::Concat: { E a = simplifyDeep(e->a, budget, memo), b = simplifyDeep(e->b, budget, memo); if (a != e->a || b != e->b) r = mkConcat(a, b); break; }
    case Op::Extract: { E a = simplifyDeep(e->a, budget, memo); if (a != e->a) r = mkExtract(a, (unsigned)e->k + e->width - 1, (unsigned)e->k); break; }
    case Op::ZExt: {
        E a = simplifyDeep(e->a, budget, memo);
        if (a != e->a) r = mkZExt(a, e->width);
        // zext(p - n) = zext(p) - zext(n) if nothing wraps
        if (a->op == Op::Add && e->width <= 64) { E x = exact(a, e->width); if (x) r = simplifyDeep(x, budget, memo); }
        break; }
    case Op::Shl: case Op::LShr: case Op::AShr: { E a = simplifyDeep(e->a, budget, memo), b = simplifyDeep(e->b, budget, memo); if (a != e->a || b != e->b) r = mkBin(e->op, a, b); break; }
    case Op::SExt: { E a = simplifyDeep(e->a, budget, memo); if (a != e->a) r = mkSExt(a, e->width); break; }
    case Op::Add: case Op::Mul: case Op::Slt: case Op::Sle: {
        E a = simplifyDeep(e->a, budget, memo), b = simplifyDeep(e->b, budget, memo);
        if (a == e->a && b == e->b) break;
        r = e->op == Op::Add ? mkAdd(a, b) : e->op == Op::Mul ? mkMul(a, b) : e->op == Op::Slt ? mkSlt(a, b) : mkNot(mkSlt(b, a));
        break; }
    case Op::Eq: case Op::And: case Op::Or: case Op::Xor: case Op::Ult: case Op::Ule: {
        E a = simplifyDeep(e->a, budget, memo), b = simplifyDeep(e->b, budget, memo);
        if (a == e->a && b == e->b && a->op != Op::Add && b->op != Op::Add) break;
        if (a->width > 8 && a->width < 63 && (a->op == Op::Add || b->op == Op::Add) && (e->op == Op::Eq || e->op == Op::Ult || e->op == Op::Ule)) {
            E x = exact(a, 64), y = exact(b, 64);
            if (x && y) {
                E t = e->op == Op::Eq ? mkEq(x, y) : e->op == Op::Ult ? mkUlt(x, y) : mkUle(x, y);
                int d = decide(t);
                if (d >= 0) return memo[e->id] = mkBool(d);
            }
        }
        r = e->op == Op::Eq ? mkEq(a, b) : e->op == Op::And ? mkAnd(a, b) : e->op == Op::Or ? mkOr(a, b) : e->op == Op::Xor ? mkXor(a, b) : e->op == Op::Ult ? mkUlt(a, b) : mkUle(a, b);
        break; }
    default: break;
    }
    return memo[e->id] = r;
}
E LinStore::simplifyAll(E e) const {
    int budget = 300;
    std::unordered_map<uint32_t, E> memo;
    return simplifyDeep(e, budget, memo);
}
