// Differential test of the expression simplifier: random terms built over variables (simplified eagerly) and
// evaluated must equal the same operations performed on constants.
#include "expr.h"
#include "lin.h"
#include "sat.h"
#include <cstdio>
#include <cstdlib>
#include <random>
int main(int argc, char** argv) {
    long n = argc > 1 ? atol(argv[1]) : 100000;
    std::mt19937_64 g(argc > 2 ? atol(argv[2]) : 1);
    auto rnd = [&](uint64_t k) { return g() % k; };
    auto interesting = [&](unsigned w) -> u128 {
        switch (rnd(6)) { case 0: return rnd(16); case 1: return (u128)1 << rnd(w); case 2: return ((u128)1 << rnd(w)) - 1; case 3: return maskOf(w) - rnd(16); case 4: return rnd(1000); default: return ((u128)g() << 64 | g()); }
    };
    long bad = 0, blasts = 0;
    for (long it = 0; it < n; it++) {
        Model m;
        std::vector<std::pair<E, E>> v; // symbolic, concrete
        std::string desc;
        static const unsigned W[] = {1, 3, 5, 8, 13, 16, 28, 32, 40, 64};
        for (int i = 0; i < 4; i++) {
            unsigned w = W[rnd(10)];
            char nm[40]; snprintf(nm, sizeof nm, "v%u_%d", w, i);
            E x = mkVar(w, nm); u128 val = interesting(w) & maskOf(w);
            m.vars[x->sym] = val;
            v.push_back({x, mkConst(w, val)});
        }
        for (int i = 0; i < 3; i++) { unsigned w = W[rnd(10)]; E c = mkConst(w, interesting(w)); v.push_back({c, c}); }
        int steps = 3 + rnd(14);
        for (int s = 0; s < steps; s++) {
            auto a = v[rnd(v.size())], b = v[rnd(v.size())];
            if (rnd(2) && v.size() > 8) a = v[v.size() - 1 - rnd(3)];
            unsigned k = rnd(16);
            std::pair<E, E> r;
            auto widen = [&](std::pair<E, E>& x, unsigned w) { if (x.first->width < w) { x = {mkZExt(x.first, w), mkZExt(x.second, w)}; } else if (x.first->width > w) x = {mkTrunc(x.first, w), mkTrunc(x.second, w)}; };
            unsigned w = a.first->width;
            if (k < 9) {
                if (rnd(2)) { unsigned t = rnd(2) ? 64 : 32; widen(a, t); w = t; }
                widen(b, w);
                static const Op ops[] = {Op::Add, Op::Mul, Op::And, Op::Or, Op::Xor, Op::UDiv, Op::URem, Op::Shl, Op::LShr, Op::AShr};
                Op o = ops[rnd(10)];
                if (rnd(3) == 0) o = Op::Add;
                if (o == Op::Mul || o == Op::UDiv || o == Op::URem || ((o == Op::Shl || o == Op::LShr || o == Op::AShr) && rnd(3))) { u128 cv = (o == Op::Shl || o == Op::LShr || o == Op::AShr) ? rnd(w) : 1 + rnd(rnd(2) ? 70 : 600); E c = mkConst(w, cv); b = {c, c}; if (isC(c) && c->k == 0) continue; }
                r = {mkBin(o, a.first, b.first), mkBin(o, a.second, b.second)};
            } else if (k == 9) { widen(b, w); r = {mkSub(a.first, b.first), mkSub(a.second, b.second)}; }
            else if (k == 10) { unsigned hi = rnd(w), lo = rnd(hi + 1); r = {mkExtract(a.first, hi, lo), mkExtract(a.second, hi, lo)}; }
            else if (k == 11) { if (w + b.first->width > 64) continue; r = {mkConcat(a.first, b.first), mkConcat(a.second, b.second)}; }
            else if (k == 12) { unsigned t = w + rnd(65 - std::min(w, 64u)); if (t == w) continue; r = rnd(2) ? std::make_pair(mkZExt(a.first, t), mkZExt(a.second, t)) : std::make_pair(mkSExt(a.first, t), mkSExt(a.second, t)); }
            else if (k == 13) { widen(b, w); auto c = v[rnd(v.size())]; widen(c, 1); r = {mkIte(c.first, a.first, b.first), mkIte(c.second, a.second, b.second)}; }
            else { widen(b, w); switch (rnd(5)) { case 0: r = {mkEq(a.first, b.first), mkEq(a.second, b.second)}; break; case 1: r = {mkUlt(a.first, b.first), mkUlt(a.second, b.second)}; break; case 2: r = {mkUle(a.first, b.first), mkUle(a.second, b.second)}; break; case 3: r = {mkSlt(a.first, b.first), mkSlt(a.second, b.second)}; break; default: r = {mkSle(a.first, b.first), mkSle(a.second, b.second)}; } }
            if (!isC(r.second)) { printf("not folded: %s\n", show(r.second).c_str()); bad++; continue; }
            u128 x;
            m.memo.clear();
            if (!evalE(r.first, m, x)) { printf("not evaluated\n"); continue; }
            if (r.first->width != r.second->width || x != r.second->k) {
                printf("MISMATCH iter %ld: %s  from %s , %s : got %llx want %llx\n", it, show(r.first, 10).c_str(), show(a.first, 8).c_str(), show(b.first, 8).c_str(), (unsigned long long)x, (unsigned long long)r.second->k);
                if (++bad > 5) return 1;
                break;
            }
            if (x < r.first->umin || x > r.first->umax || (r.first->tz && (x & (((u128)1 << r.first->tz) - 1)) != 0)) { printf("RANGE iter %ld: %s\n", it, show(r.first, 10).c_str()); if (++bad > 5) return 1; break; }
            v.push_back(r);
            if (!isC(r.first) && rnd(8) == 0) { // the bit-blaster: with the variables fixed, the term has that value
                std::vector<E> cs, vars, none;
                for (auto& p : v) if (p.first->op == Op::Var) { cs.push_back(mkEq(p.first, p.second)); vars.push_back(p.first); }
                E eq = mkEq(r.first, r.second);
                std::vector<int> core; Model mm;
                cs.push_back(eq);
                int s1 = satSolve(cs, none, vars, none, 5000, &mm, &core);
                cs.back() = mkNot(eq);
                int s2 = satSolve(cs, none, vars, none, 5000, &mm, &core);
                blasts++;
                if (s1 == 0 || s2 == 1) { printf("BLAST iter %ld: %s (%d %d)\n", it, show(r.first, 10).c_str(), s1, s2); if (++bad > 5) return 1; }
            }
            // linear facts implied by true facts must be true
            if (r.first->width == 1) {
                LinStore ls; int used = 0;
                for (auto& p : v) if (p.first->width == 1 && !isC(p.first) && p.first != r.first) { ls.add(p.second->k ? p.first : mkNot(p.first)); used++; }
                int d = ls.decide(r.first);
                if (d >= 0 && d != (int)x) { printf("LIN iter %ld: %s decided %d\n", it, show(r.first, 10).c_str(), d); if (++bad > 5) return 1; }
                E sp = ls.simplify(v[v.size() - 2].first, 24);
                u128 y; m.memo.clear();
                if (evalE(sp, m, y) && y != v[v.size() - 2].second->k) { printf("SIMPLIFY iter %ld\n", it); if (++bad > 5) return 1; }
            }
        }
    }
    printf("%ld iterations, %ld bit-blast checks, %ld bad\n", n, blasts, bad);
    return bad ? 1 : 0;
}
