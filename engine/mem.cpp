#include "mem.h"
#include <cassert>
#include <cstdio>
#include <cstdlib>

E objBase(int id) {
    if (id == 0) return c64(0);
    // 16-aligned, non-null, below 2^47
    return mkZExt(mkConcat(mkVar(42, "addr!" + std::to_string(id < 0 ? 1000000 - id : id)), mkConst(4, 0)), 64);
}
E valInt(const Val& v) {
    if (v.k == Val::Ptr) return mkAdd(objBase(v.obj), v.e);
    return v.e;
}
ChainP mkBase(Chain::T t, uint32_t sym) {
    auto c = std::make_shared<Chain>();
    c->t = t; c->sym = sym;
    return c;
}
static E valByte(const Val& v, uint32_t n, unsigned i) {
    E e = valInt(v);
    if (e->width < n * 8) e = mkZExt(e, n * 8);
    if (e->width == 1) e = mkZExt(e, 8);
    return mkExtract(e, i * 8 + 7, i * 8);
}
static const Cell* coverC(const CellMap& m, uint64_t off, uint64_t& start) {
    auto it = m.upper_bound(off);
    if (it == m.begin()) return nullptr;
    --it;
    if (off < it->first + it->second.size) { start = it->first; return &it->second; }
    return nullptr;
}
static E cellsByte(const CellMap& m, E off, E deflt) {
    // symbolic offset over cells
    E r = deflt;
    for (auto& kv : m) {
        for (unsigned i = 0; i < kv.second.size; i++) {
            E c = mkEq(off, c64(kv.first + i));
            if (isFalse(c)) continue;
            r = mkIte(c, valByte(kv.second.v, kv.second.size, i), r);
        }
    }
    return r;
}
E chainByte(const ChainP& ch0, E off) {
    // iterative descent with explicit stack of pending ites
    auto it = ch0->memo.find(off->id);
    if (it != ch0->memo.end()) return it->second;
    std::vector<std::pair<E, E>> pend; // cond, value
    const Chain* ch = ch0.get();
    E base = nullptr;
    while (!base) {
        auto mi = ch->memo.find(off->id);
        if (mi != ch->memo.end()) { base = mi->second; break; }
        switch (ch->t) {
        case Chain::Uninit: base = mkSel(ch->sym, off); break;
        case Chain::Zero: base = mkConst(8, 0); break;
        case Chain::Arr: base = mkSel(ch->sym, ch->arrOff ? mkAdd(off, ch->arrOff) : off); break;
        case Chain::Cells: {
            if (isC(off)) {
                uint64_t st; const Cell* c = coverC(ch->cells, cval(off), st);
                if (c) { base = valByte(c->v, c->size, (unsigned)(cval(off) - st)); break; }
                ch = ch->prev.get();
                break;
            }
            E d = ch->prev ? chainByte(ch->prev, off) : mkConst(8, 0);
            base = cellsByte(ch->cells, off, d);
            break; }
        case Chain::Store: {
            E o = mkSub(off, ch->off);
            if (isC(o)) {
                if (cval(o) < ch->n) base = valByte(ch->v, ch->n, (unsigned)cval(o));
                else ch = ch->prev.get();
                break;
            }
            for (unsigned i = 0; i < ch->n; i++) {
                E c = mkEq(o, c64(i));
                if (isFalse(c)) continue;
                pend.push_back({c, valByte(ch->v, ch->n, i)});
            }
            ch = ch->prev.get();
            break; }
        case Chain::Copy: {
            E o = mkSub(off, ch->off);
            E c = mkUlt(o, ch->len);
            if (isFalse(c)) { ch = ch->prev.get(); break; }
            E b = contentByte(ch->src, mkAdd(ch->srcOff, o));
            if (isTrue(c)) { base = b; break; }
            pend.push_back({c, b});
            ch = ch->prev.get();
            break; }
        case Chain::Fill: {
            E o = mkSub(off, ch->off);
            E c = mkUlt(o, ch->len);
            if (isFalse(c)) { ch = ch->prev.get(); break; }
            if (isTrue(c)) { base = ch->v.e; break; }
            pend.push_back({c, ch->v.e});
            ch = ch->prev.get();
            break; }
        }
    }
    E r = base;
    for (size_t i = pend.size(); i-- > 0;) r = mkIte(pend[i].first, pend[i].second, r);
    ch0->memo[off->id] = r;
    return r;
}
E contentByte(const Content& c, E off) {
    if (isC(off)) {
        uint64_t st; const Cell* x = coverC(c.cells, cval(off), st);
        if (x) return valByte(x->v, x->size, (unsigned)(cval(off) - st));
        return chainByte(c.chain, off);
    }
    E d = chainByte(c.chain, off);
    return c.cells.empty() ? d : cellsByte(c.cells, off, d);
}
static Val fromInt(E e, bool wantPtr) {
    if (!wantPtr) return Val::I(e);
    return Val::P(0, e);
}
// find a value cell exactly covering [off, off+n) in overlay or chain (constant offsets only)
static const Cell* exactC(const Content& c, uint64_t off, uint32_t n) {
    uint64_t st;
    const Cell* x = coverC(c.cells, off, st);
    if (x) return st == off && x->size == n ? x : nullptr;
    // is any byte of the range covered by overlay?
    auto it = c.cells.lower_bound(off);
    if (it != c.cells.end() && it->first < off + n) return nullptr;
    const Chain* ch = c.chain.get();
    static Cell tmp;
    while (ch) {
        switch (ch->t) {
        case Chain::Cells: {
            const Cell* y = coverC(ch->cells, off, st);
            if (y) return st == off && y->size == n ? y : nullptr;
            auto i2 = ch->cells.lower_bound(off);
            if (i2 != ch->cells.end() && i2->first < off + n) return nullptr;
            ch = ch->prev.get();
            break; }
        case Chain::Store: {
            E o = mkSub(c64(off), ch->off);
            if (!isC(o)) return nullptr;
            if (cval(o) == 0 && ch->n == n) { tmp.v = ch->v; tmp.size = n; return &tmp; }
            if (cval(o) < ch->n || (uint64_t)(-(int64_t)cval(o)) < n) return nullptr;
            ch = ch->prev.get();
            break; }
        case Chain::Copy: {
            E o = mkSub(c64(off), ch->off);
            E in = mkAnd(mkUlt(o, ch->len), mkUle(mkAdd(o, c64(n)), ch->len));
            if (isTrue(in)) {
                E so = mkAdd(ch->srcOff, o);
                if (!isC(so)) return nullptr;
                return exactC(ch->src, cval(so), n);
            }
            // disjoint?
            if (isC(ch->off) && isC(ch->len)) {
                uint64_t a = cval(ch->off), l = cval(ch->len);
                if (off + n <= a || a + l <= off) { ch = ch->prev.get(); break; }
            }
            return nullptr; }
        case Chain::Fill:
            if (isC(ch->off) && isC(ch->len)) {
                uint64_t a = cval(ch->off), l = cval(ch->len);
                if (off + n <= a || a + l <= off) { ch = ch->prev.get(); break; }
            }
            return nullptr;
        default: return nullptr;
        }
    }
    return nullptr;
}
Val contentLoadC(const Content& c, uint64_t off, uint32_t n, bool wantPtr) {
    const Cell* x = exactC(c, off, n);
    if (x) {
        if (wantPtr) {
            if (x->v.k == Val::Ptr) return x->v;
            if (x->v.obj) return Val::P(x->v.obj, mkSub(x->v.e, objBase(x->v.obj)));
            return Val::P(0, x->v.e);
        }
        if (x->v.k == Val::Ptr) return Val::I(valInt(x->v), x->v.obj);
        E e = x->v.e;
        if (e->width == n * 8 || e->width == 1) return x->v;
        if (e->width < n * 8) return Val::I(mkZExt(e, n * 8), 0);
    }
    uint64_t st;
    const Cell* y = coverC(c.cells, off, st);
    if (y && off + n <= st + y->size) {
        E e = valInt(y->v);
        if (e->width < y->size * 8) e = mkZExt(e, y->size * 8);
        return fromInt(mkExtract(e, (unsigned)(off - st + n) * 8 - 1, (unsigned)(off - st) * 8), wantPtr);
    }
    E r = nullptr;
    for (uint32_t i = 0; i < n; i++) {
        E b = contentByte(c, c64(off + i));
        r = r ? mkConcat(b, r) : b;
    }
    return fromInt(r, wantPtr);
}
static bool onlyConcreteLayers(const Content& c) {
    const Chain* ch = c.chain.get();
    while (ch) {
        switch (ch->t) {
        case Chain::Cells: ch = ch->prev.get(); break;
        case Chain::Zero: case Chain::Uninit: return true;
        case Chain::Arr: return true;
        case Chain::Store: if (!isC(ch->off)) return false; ch = ch->prev.get(); break;
        case Chain::Copy: case Chain::Fill: if (!isC(ch->off) || !isC(ch->len)) return false; ch = ch->prev.get(); break;
        default: return false;
        }
    }
    return true;
}
Val contentLoad(const Content& c, E off, uint32_t n, bool wantPtr, E objSize, bool& needFork, std::vector<uint64_t>& cands) {
    needFork = false;
    if (isC(off)) return contentLoadC(c, cval(off), n, wantPtr);
    bool pureArr = c.cells.empty() && (c.chain->t == Chain::Arr || c.chain->t == Chain::Uninit || c.chain->t == Chain::Zero) && !wantPtr;
    if (!pureArr && isC(objSize) && onlyConcreteLayers(c)) {
        uint64_t S = cval(objSize);
        unsigned tz = off->tz > 12 ? 12 : off->tz;
        uint64_t step = 1ull << tz;
        if (step < n && (n & (n - 1)) == 0 && n <= 8) {
            // offset congruent to a constant modulo n?
            if (off->op == Op::Add && isC(off->b) && off->a->tz >= 3) step = n;
        }
        uint64_t first = 0;
        if (off->op == Op::Add && isC(off->b)) {
            unsigned t2 = off->a->tz > 12 ? 12 : off->a->tz;
            step = 1ull << t2;
            first = cval(off->b) % step;
        }
        uint64_t lo = (uint64_t)off->umin, hi = (uint64_t)off->umax;
        uint64_t cnt = S / step + 1;
        if (cnt <= 600 && S >= n) {
            for (uint64_t o = first; o + n <= S; o += step) if (o >= lo && o <= hi) cands.push_back(o);
            if (!cands.empty()) {
                std::vector<Val> vs;
                bool anyPtr = false;
                for (uint64_t o : cands) { vs.push_back(contentLoadC(c, o, n, wantPtr)); if (vs.back().k == Val::Ptr && !(vs.back().obj == 0)) anyPtr = true; }
                if (wantPtr || anyPtr) {
                    bool same = true;
                    for (auto& v : vs) if (v.obj != vs[0].obj) same = false;
                    if (!same || vs.size() > 64) { needFork = true; return Val(); }
                    E r = vs.back().e;
                    for (size_t i = vs.size() - 1; i-- > 0;) r = mkIte(mkEq(off, c64(cands[i])), vs[i].e, r);
                    return Val::P(vs[0].obj, r);
                }
                E r = vs.back().e;
                if (r->width == 1) r = mkZExt(r, 8);
                for (size_t i = vs.size() - 1; i-- > 0;) {
                    E x = vs[i].e;
                    if (x->width == 1) x = mkZExt(x, 8);
                    r = mkIte(mkEq(off, c64(cands[i])), x, r);
                }
                return Val::I(r);
            }
        }
    }
    if (wantPtr) {
        // most recent store at exactly this offset?
        if (c.cells.empty()) {
            const Chain* ch = c.chain.get();
            while (ch) {
                if (ch->t == Chain::Store) {
                    E o = mkSub(off, ch->off);
                    if (isC(o) && cval(o) == 0 && ch->n == n) return ch->v.k == Val::Ptr ? ch->v : Val::P(ch->v.obj, ch->v.obj ? mkSub(ch->v.e, objBase(ch->v.obj)) : ch->v.e);
                    if (isC(o) && cval(o) >= ch->n && (uint64_t)(-(int64_t)cval(o)) >= n) { ch = ch->prev.get(); continue; }
                }
                break;
            }
        }
        needFork = true;
        return Val();
    }
    E r = nullptr;
    for (uint32_t i = 0; i < n; i++) {
        E b = contentByte(c, mkAdd(off, c64(i)));
        r = r ? mkConcat(b, r) : b;
    }
    return Val::I(r);
}
static void punch(CellMap& m, uint64_t off, uint64_t n, const Content* /*unused*/) {
    // remove [off, off+n) from cells, splitting partially covered ones into bytes
    auto it = m.lower_bound(off);
    if (it != m.begin()) {
        auto p = std::prev(it);
        if (p->first + p->second.size > off) it = p;
    }
    std::vector<std::pair<uint64_t, Cell>> add;
    while (it != m.end() && it->first < off + n) {
        uint64_t s = it->first; Cell c = it->second;
        for (unsigned i = 0; i < c.size; i++)
            if (s + i < off || s + i >= off + n) add.push_back({s + i, Cell{Val::I(valByte(c.v, c.size, i)), 1}});
        it = m.erase(it);
    }
    for (auto& a : add) m[a.first] = a.second;
}
void contentStoreC(Content& c, uint64_t off, uint32_t n, const Val& v) {
    punch(c.cells, off, n, nullptr);
    c.cells[off] = Cell{v, n};
}
void contentFlush(Content& c) {
    if (c.cells.empty()) return;
    auto ch = std::make_shared<Chain>();
    ch->t = Chain::Cells;
    ch->cells = std::move(c.cells);
    c.cells.clear();
    ch->prev = c.chain;
    c.chain = ch;
}
void contentStore(Content& c, E off, uint32_t n, const Val& v) {
    if (isC(off)) { contentStoreC(c, cval(off), n, v); return; }
    contentFlush(c);
    auto ch = std::make_shared<Chain>();
    ch->t = Chain::Store;
    ch->off = off; ch->n = n; ch->v = v;
    ch->prev = c.chain;
    c.chain = ch;
}
void contentCopy(Content& dst, E dOff, const Content& src, E sOff, E len) {
    if (isC(len) && cval(len) == 0) return;
    if (isC(len) && isC(dOff) && isC(sOff) && cval(len) <= 4096) {
        uint64_t d = cval(dOff), s = cval(sOff), l = cval(len);
        // cell-wise copy where possible
        bool simple = src.chain->t != Chain::Store || true;
        if (simple) {
            std::vector<std::pair<uint64_t, Cell>> add;
            uint64_t o = 0;
            bool ok = true;
            while (o < l) {
                uint64_t st;
                const Cell* c = coverC(src.cells, s + o, st);
                if (c && st == s + o && o + c->size <= l) { add.push_back({d + o, *c}); o += c->size; continue; }
                if (c) { Val b = Val::I(valByte(c->v, c->size, (unsigned)(s + o - st))); add.push_back({d + o, Cell{b, 1}}); o++; continue; }
                // chain: look for cells below
                const Cell* x = nullptr;
                for (uint32_t n : {8u, 4u, 2u}) if (o + n <= l && (x = exactC(src, s + o, n))) { add.push_back({d + o, *x}); o += n; break; }
                if (x) continue;
                if (l > 256) { ok = false; break; }
                add.push_back({d + o, Cell{Val::I(contentByte(src, c64(s + o))), 1}});
                o++;
            }
            if (ok) {
                punch(dst.cells, d, l, nullptr);
                for (auto& a : add) dst.cells[a.first] = a.second;
                return;
            }
        }
    }
    contentFlush(dst);
    auto ch = std::make_shared<Chain>();
    ch->t = Chain::Copy;
    ch->off = dOff; ch->len = len; ch->src = src; ch->srcOff = sOff;
    ch->prev = dst.chain;
    dst.chain = ch;
}
void contentFill(Content& dst, E dOff, E byte, E len) {
    if (isC(len) && cval(len) == 0) return;
    if (isC(len) && isC(dOff) && cval(len) <= 64) {
        uint64_t d = cval(dOff), l = cval(len);
        punch(dst.cells, d, l, nullptr);
        uint64_t o = 0;
        while (o < l) {
            uint32_t n = 1;
            for (uint32_t x : {8u, 4u, 2u}) if (o + x <= l && (d + o) % x == 0) { n = x; break; }
            E v = byte;
            for (uint32_t i = 1; i < n; i++) v = mkConcat(byte, v);
            dst.cells[d + o] = Cell{Val::I(v), n};
            o += n;
        }
        return;
    }
    contentFlush(dst);
    auto ch = std::make_shared<Chain>();
    ch->t = Chain::Fill;
    ch->off = dOff; ch->len = len; ch->v = Val::I(byte);
    ch->prev = dst.chain;
    dst.chain = ch;
}
