#include "solver.h"
#include "sat.h"
#include <algorithm>
#include <z3++.h>
#include <chrono>
#include <fstream>
#include <sstream>
#include <iostream>
#include <unordered_set>
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
#include <sys/wait.h>
#include <signal.h>
#include <fcntl.h>
#include <poll.h>

SolverStats gStats;
std::string gTmpDir = "/tmp";
int gFeasTimeoutMs = 5000, gOblTimeoutMs = 15000, gExtTimeoutS = 60;

static z3::context& ctx() { static z3::context* c = new z3::context(); return *c; }
static std::unordered_map<uint32_t, z3::expr>& memo() { static auto* m = new std::unordered_map<uint32_t, z3::expr>(); return *m; }

static z3::expr bvc(unsigned w, u128 v) {
    if (w <= 64) return ctx().bv_val((uint64_t)v, w);
    z3::expr hi = ctx().bv_val((uint64_t)(v >> 64), w - 64), lo = ctx().bv_val((uint64_t)v, 64);
    return z3::concat(hi, lo);
}
static z3::sort fps(unsigned w) { return w == 32 ? ctx().fpa_sort(8, 24) : ctx().fpa_sort(11, 53); }
static z3::expr toFp(z3::expr e, unsigned w) { return z3::expr(ctx(), Z3_mk_fpa_to_fp_bv(ctx(), e, fps(w))); }
static z3::expr rm() { return z3::expr(ctx(), Z3_mk_fpa_rne(ctx())); }
static z3::expr rtz() { return z3::expr(ctx(), Z3_mk_fpa_rtz(ctx())); }

static z3::expr tr(E e);
static z3::expr asBv(E e) { // bv view also for booleans
    z3::expr x = tr(e);
    if (e->width == 1) return z3::ite(x, ctx().bv_val(1, 1), ctx().bv_val(0, 1));
    return x;
}
// result of an FP op as bits: fresh constrained variable is avoided by fp -> ieee_bv (z3 extension; NaN is canonical)
static z3::expr fpBits(z3::expr f) { return z3::expr(ctx(), Z3_mk_fpa_to_ieee_bv(ctx(), f)); }

static z3::expr tr(E e) {
    auto it = memo().find(e->id);
    if (it != memo().end()) return it->second;
    z3::context& c = ctx();
    auto fin = [&](z3::expr x) { memo().insert({e->id, x}); return x; };
    bool b1 = e->width == 1;
    switch (e->op) {
    case Op::Const: return fin(b1 ? c.bool_val(e->k == 1) : bvc(e->width, e->k));
    case Op::Var: return fin(b1 ? c.bool_const(symName(e->sym).c_str()) : c.bv_const(symName(e->sym).c_str(), e->width));
    case Op::Sel: return fin(c.bv_const(("sel!" + std::to_string(e->id)).c_str(), 8));
    case Op::Add: case Op::Mul: case Op::UDiv: case Op::SDiv: case Op::URem: case Op::SRem: case Op::Shl: case Op::LShr: case Op::AShr:
    case Op::Ult: case Op::Ule: case Op::Slt: case Op::Sle:
        if (e->a->width == 1) {
            z3::expr x = asBv(e->a), y = asBv(e->b), one = c.bv_val(1, 1);
            switch (e->op) {
            case Op::Add: return fin(x + y == one);
            case Op::Mul: return fin(x * y == one);
            case Op::UDiv: return fin(z3::udiv(x, y) == one);
            case Op::SDiv: return fin(x / y == one);
            case Op::URem: return fin(z3::urem(x, y) == one);
            case Op::SRem: return fin(z3::srem(x, y) == one);
            case Op::Shl: return fin(z3::shl(x, y) == one);
            case Op::LShr: return fin(z3::lshr(x, y) == one);
            case Op::AShr: return fin(z3::ashr(x, y) == one);
            case Op::Ult: return fin(z3::ult(x, y));
            case Op::Ule: return fin(z3::ule(x, y));
            case Op::Slt: return fin(x < y);
            default: return fin(x <= y);
            }
        }
        break;
    default: break;
    }
    switch (e->op) {
    case Op::Add: return fin(tr(e->a) + tr(e->b));
    case Op::Mul: return fin(tr(e->a) * tr(e->b));
    case Op::UDiv: return fin(z3::udiv(tr(e->a), tr(e->b)));
    case Op::SDiv: return fin(tr(e->a) / tr(e->b));
    case Op::URem: return fin(z3::urem(tr(e->a), tr(e->b)));
    case Op::SRem: return fin(z3::srem(tr(e->a), tr(e->b)));
    case Op::And: return fin(b1 ? (tr(e->a) && tr(e->b)) : (tr(e->a) & tr(e->b)));
    case Op::Or: return fin(b1 ? (tr(e->a) || tr(e->b)) : (tr(e->a) | tr(e->b)));
    case Op::Xor:
        if (b1) { if (isTrue(e->b)) return fin(!tr(e->a)); return fin(tr(e->a) != tr(e->b)); }
        if (isC(e->b) && e->b->k == maskOf(e->width)) return fin(~tr(e->a));
        return fin(tr(e->a) ^ tr(e->b));
    case Op::Shl: return fin(z3::shl(tr(e->a), tr(e->b)));
    case Op::LShr: return fin(z3::lshr(tr(e->a), tr(e->b)));
    case Op::AShr: return fin(z3::ashr(tr(e->a), tr(e->b)));
    case Op::Concat: return fin(z3::concat(asBv(e->a), asBv(e->b)));
    case Op::Extract: {
        z3::expr x = tr(e->a).extract((unsigned)e->k + e->width - 1, (unsigned)e->k);
        if (b1) return fin(x == c.bv_val(1, 1));
        return fin(x); }
    case Op::ZExt: return fin(z3::zext(asBv(e->a), e->width - e->a->width));
    case Op::SExt: return fin(z3::sext(asBv(e->a), e->width - e->a->width));
    case Op::Ite: return fin(z3::ite(tr(e->a), tr(e->b), tr(e->c)));
    case Op::Eq: return fin(tr(e->a) == tr(e->b));
    case Op::Ult: return fin(z3::ult(tr(e->a), tr(e->b)));
    case Op::Ule: return fin(z3::ule(tr(e->a), tr(e->b)));
    case Op::Slt: return fin(tr(e->a) < tr(e->b));
    case Op::Sle: return fin(tr(e->a) <= tr(e->b));
    case Op::FAdd: return fin(fpBits(z3::expr(c, Z3_mk_fpa_add(c, rm(), toFp(tr(e->a), e->width), toFp(tr(e->b), e->width)))));
    case Op::FSub: return fin(fpBits(z3::expr(c, Z3_mk_fpa_sub(c, rm(), toFp(tr(e->a), e->width), toFp(tr(e->b), e->width)))));
    case Op::FMul: return fin(fpBits(z3::expr(c, Z3_mk_fpa_mul(c, rm(), toFp(tr(e->a), e->width), toFp(tr(e->b), e->width)))));
    case Op::FDiv: return fin(fpBits(z3::expr(c, Z3_mk_fpa_div(c, rm(), toFp(tr(e->a), e->width), toFp(tr(e->b), e->width)))));
    case Op::FEq: return fin(z3::expr(c, Z3_mk_fpa_eq(c, toFp(tr(e->a), e->a->width), toFp(tr(e->b), e->a->width))));
    case Op::FLt: return fin(z3::expr(c, Z3_mk_fpa_lt(c, toFp(tr(e->a), e->a->width), toFp(tr(e->b), e->a->width))));
    case Op::FLe: return fin(z3::expr(c, Z3_mk_fpa_leq(c, toFp(tr(e->a), e->a->width), toFp(tr(e->b), e->a->width))));
    case Op::FNan: return fin(z3::expr(c, Z3_mk_fpa_is_nan(c, toFp(tr(e->a), e->a->width))));
    case Op::FNeg: return fin(tr(e->a) ^ bvc(e->width, (u128)1 << (e->width - 1)));
    case Op::FCvt: return fin(fpBits(z3::expr(c, Z3_mk_fpa_to_fp_float(c, rm(), toFp(tr(e->a), e->a->width), fps(e->width)))));
    case Op::SIToF: return fin(fpBits(z3::expr(c, Z3_mk_fpa_to_fp_signed(c, rm(), asBv(e->a), fps(e->width)))));
    case Op::UIToF: return fin(fpBits(z3::expr(c, Z3_mk_fpa_to_fp_unsigned(c, rm(), asBv(e->a), fps(e->width)))));
    case Op::FToSI: return fin(z3::expr(c, Z3_mk_fpa_to_sbv(c, rtz(), toFp(tr(e->a), e->a->width), e->width)));
    case Op::FToUI: return fin(z3::expr(c, Z3_mk_fpa_to_ubv(c, rtz(), toFp(tr(e->a), e->a->width), e->width)));
    default: break;
    }
    std::cerr << "tr: unsupported op\n";
    abort();
}

static void collect(E e, std::unordered_set<uint32_t>& seen, std::vector<E>& sels, std::vector<E>& vars) {
    if (!e || !seen.insert(e->id).second) return;
    collect(e->a, seen, sels, vars);
    collect(e->b, seen, sels, vars);
    collect(e->c, seen, sels, vars);
    if (e->op == Op::Sel) sels.push_back(e);
    else if (e->op == Op::Var) vars.push_back(e);
}

// ---------------- external portfolio --------------------------------------------------------
static std::string runExternal(const std::string& smt, bool fp, std::string& who, std::string& out) {
    static int n = 0;
    std::string base = gTmpDir + "/q" + std::to_string(getpid()) + "_" + std::to_string(n++);
    std::string file = base + ".smt2";
    { std::ofstream f(file); f << smt; }
    struct P { pid_t pid; int fd; std::string name, buf; bool done; };
    std::vector<P> ps;
    auto launch = [&](const char* name, std::vector<std::string> args) {
        int p[2];
        if (pipe(p)) return;
        pid_t pid = fork();
        if (pid == 0) {
            dup2(p[1], 1);
            int dn = open("/dev/null", O_WRONLY);
            dup2(dn, 2);
            close(p[0]); close(p[1]);
            std::vector<char*> a;
            for (auto& s : args) a.push_back((char*)s.c_str());
            a.push_back(nullptr);
            execvp(a[0], a.data());
            _exit(127);
        }
        close(p[1]);
        ps.push_back({pid, p[0], name, "", false});
    };
    launch("z3-5.3", {"z3-new", "-T:" + std::to_string(gExtTimeoutS), file});
    launch("cvc5-1.1.2", {"cvc5", "--lang=smt2", "--produce-models", "--tlimit=" + std::to_string(gExtTimeoutS * 1000), "--bv-sat-solver=cadical", file});
    (void)fp;
    std::string verdict = "unknown";
    auto t0 = std::chrono::steady_clock::now();
    while (true) {
        std::vector<pollfd> pf;
        for (auto& p : ps) if (!p.done) pf.push_back({p.fd, POLLIN, 0});
        if (pf.empty()) break;
        poll(pf.data(), pf.size(), 1000);
        for (auto& q : pf) if (q.revents) for (auto& p : ps) if (p.fd == q.fd && !p.done) {
            char b[65536];
            ssize_t r = read(p.fd, b, sizeof b);
            if (r > 0) p.buf.append(b, r);
            else {
                p.done = true;
                if (verdict == "unknown") {
                    if (p.buf.rfind("unsat", 0) == 0) { verdict = "unsat"; who = p.name; out = p.buf; }
                    else if (p.buf.rfind("sat", 0) == 0) { verdict = "sat"; who = p.name; out = p.buf; }
                }
            }
        }
        if (verdict != "unknown") break;
        if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > gExtTimeoutS + 5) break;
    }
    for (auto& p : ps) { kill(p.pid, SIGKILL); waitpid(p.pid, nullptr, 0); close(p.fd); }
    unlink(file.c_str());
    return verdict;
}

static u128 parseBv(const std::string& s) {
    if (s == "true") return 1;
    if (s == "false") return 0;
    u128 v = 0;
    if (s.rfind("#x", 0) == 0) { for (size_t i = 2; i < s.size(); i++) v = v * 16 + (isdigit(s[i]) ? s[i] - '0' : tolower(s[i]) - 'a' + 10); }
    else if (s.rfind("#b", 0) == 0) { for (size_t i = 2; i < s.size(); i++) v = v * 2 + (s[i] - '0'); }
    return v;
}

bool gUseSat = true;
int gSatObMs = 10000, gSatFeMs = 3000;
static std::unordered_map<uint32_t, std::vector<std::vector<uint32_t>>> gCores;
Res solve(const std::vector<E>& constraints, E extra, Model* model, bool obligation, std::string* backend, bool slice) {
    gStats.queries++;
    if (isFalse(extra)) return Res::Unsat;
    {   // known unsatisfiable cores
        auto it = gCores.find(extra->id);
        if (it != gCores.end() && !it->second.empty()) {
            std::unordered_set<uint32_t> ids;
            for (E x : constraints) ids.insert(x->id);
            for (auto& k : it->second) {
                bool all = true;
                for (uint32_t i : k) if (!ids.count(i)) { all = false; break; }
                if (all) {
                    gStats.unsat++;
                    if (obligation) gStats.byBackend["core cache"]++;
                    if (backend) *backend = "core cache";
                    return Res::Unsat;
                }
            }
        }
    }
    auto t0 = std::chrono::steady_clock::now();
    // slicing
    std::vector<E> use;
    use.push_back(extra);
    if (slice) {
        std::unordered_set<uint32_t> syms(symsOf(extra).begin(), symsOf(extra).end());
        std::vector<char> in(constraints.size(), 0);
        bool ch = true;
        while (ch) {
            ch = false;
            for (size_t i = 0; i < constraints.size(); i++) if (!in[i]) {
                bool hit = false;
                for (auto s : symsOf(constraints[i])) if (syms.count(s)) { hit = true; break; }
                if (hit) { in[i] = 1; ch = true; for (auto s : symsOf(constraints[i])) syms.insert(s); }
            }
        }
        for (size_t i = 0; i < constraints.size(); i++) if (in[i]) use.push_back(constraints[i]);
    } else {
        for (E x : constraints) use.push_back(x);
    }
    std::unordered_set<uint32_t> seen;
    std::vector<E> sels, vars;
    bool fp = false;
    for (E e : use) { collect(e, seen, sels, vars); fp = fp || containsFp(e); }
    // Ackermann constraints
    std::vector<E> acks;
    std::map<uint32_t, std::vector<E>> byArr;
    for (E s : sels) byArr[s->sym].push_back(s);
    for (auto& kv : byArr) {
        auto& v = kv.second;
        for (size_t i = 0; i < v.size(); i++) for (size_t j = i + 1; j < v.size(); j++) {
            E eq = mkEq(v[i]->a, v[j]->a);
            if (isFalse(eq)) continue;
            acks.push_back(mkOr(mkNot(eq), mkEq(v[i], v[j])));
        }
    }
    // index equalities may mention further selects (nested); the Ackermann set is closed because indices were collected
    int to = obligation ? gOblTimeoutMs : gFeasTimeoutMs;
    if (!fp && gUseSat) {
        std::vector<int> core;
        if (getenv("VP_TRACE")) { std::cerr << "query n=" << use.size() << " sels " << sels.size() << "\n"; for (E e : use) std::cerr << "    " << show(e, 14).substr(0, 600) << "\n"; }
        int r = satSolve(use, acks, vars, sels, obligation ? gSatObMs : gSatFeMs, model, obligation || true ? &core : nullptr);
        double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
        if (r >= 0) {
            gStats.time += dt;
            if (r) gStats.sat++; else {
                gStats.unsat++;
                std::vector<uint32_t> k;
                for (int i : core) if (i > 0) k.push_back(use[i]->id);
                std::sort(k.begin(), k.end());
                auto& v = gCores[extra->id];
                if (v.size() < 64) v.push_back(std::move(k));
            }
            if (obligation) { gStats.byBackend["minisat"]++; gStats.timeByBackend["minisat"] += dt; }
            if (backend) *backend = "minisat";
            if (getenv("VP_SLOW") && dt > atof(getenv("VP_SLOW"))) std::cerr << "slow sat " << dt << " r=" << r << " n=" << use.size() << " sels " << sels.size() << " " << show(extra, getenv("VP_DEPTH")?atoi(getenv("VP_DEPTH")):4).substr(0, 900) << "\n";
            if (getenv("VP_PC") && getenv("VP_SLOW") && dt > atof(getenv("VP_SLOW"))) for (size_t i = 1; i < use.size(); i++) std::cerr << "      " << show(use[i], 8).substr(0, 300) << "\n";
            return r ? Res::Sat : Res::Unsat;
        }
        if (model) { model->vars.clear(); model->arrays.clear(); model->memo.clear(); }
    }
    z3::context& c = ctx();
    std::vector<z3::expr> as;
    Res res = Res::Unknown;
    std::string who = "z3-4.8.12";
    bool built = false;
    try {
        for (E e : use) as.push_back(tr(e));
        for (E e : acks) as.push_back(tr(e));
        built = true;
        z3::solver s = fp ? z3::solver(c) : z3::tactic(c, "qfbv").mk_solver();
        z3::params p(c);
        p.set("timeout", (unsigned)to);
        s.set(p);
        for (auto& a : as) s.add(a);
        auto r = s.check();
        if (r == z3::unsat) res = Res::Unsat;
        else if (r == z3::sat) {
            res = Res::Sat;
            if (model) {
                z3::model m = s.get_model();
                auto val = [&](E e) -> u128 {
                    z3::expr v = m.eval(tr(e), true);
                    if (e->width == 1) return v.is_true();
                    if (e->width <= 64) { uint64_t u = 0; Z3_get_numeral_uint64(c, v, &u); return u; }
                    std::string str = v.get_decimal_string(0);
                    u128 x = 0; for (char ch : str) if (isdigit(ch)) x = x * 10 + (ch - '0');
                    return x;
                };
                for (E v : vars) model->vars[v->sym] = val(v);
                model->memo.clear();
                for (E sl : sels) { z3::expr iv = m.eval(tr(sl->a), true); uint64_t idx = 0; Z3_get_numeral_uint64(c, iv, &idx); model->arrays[sl->sym][idx] = (uint8_t)val(sl); }
            }
        }
    } catch (z3::exception& ex) {
        if (getenv("VP_DEBUG")) std::cerr << "z3 exception: " << ex.msg() << "\n";
        res = Res::Unknown;
    }
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    gStats.time += dt;
    if (getenv("VP_SLOW") && dt > atof(getenv("VP_SLOW"))) {
        std::cerr << "slow z3 " << dt << " sels " << sels.size() << " " << show(extra, getenv("VP_DEPTH")?atoi(getenv("VP_DEPTH")):4).substr(0, 900) << "\n";
        if (getenv("VP_PC")) for (size_t i = 1; i < use.size(); i++) std::cerr << "      " << show(use[i], 8).substr(0, 300) << "\n";
    }
    if (res == Res::Unknown && built && obligation && gExtTimeoutS > 0) {
        z3::solver s(c);
        for (auto& a : as) s.add(a);
        std::string smt = "(set-option :produce-models true)\n(set-logic " + std::string(fp ? "QF_BVFP" : "QF_BV") + ")\n" + s.to_smt2();
        // replace (check-sat) tail
        std::ostringstream gv;
        std::vector<E> want;
        for (E v : vars) want.push_back(v);
        for (E v : sels) want.push_back(v);
        if (!want.empty()) {
            gv << "(get-value (";
            for (E v : want) { z3::expr x = tr(v); gv << x << " "; }
            gv << "))\n";
        }
        auto te = std::chrono::steady_clock::now();
        std::string out;
        std::string v = runExternal(smt + gv.str(), fp, who, out);
        double de = std::chrono::duration<double>(std::chrono::steady_clock::now() - te).count();
        gStats.extTime += de;
        dt += de;
        if (v == "unsat") res = Res::Unsat;
        else if (v == "sat") {
            res = Res::Sat;
            if (model) {
                // parse ((name val) (name val) ...)
                size_t pos = out.find('(');
                std::map<std::string, u128> vals;
                std::string t = pos == std::string::npos ? "" : out.substr(pos);
                std::vector<std::string> toks;
                std::string cur;
                bool bar = false;
                for (char ch : t) {
                    if (ch == '|') { bar = !bar; continue; }
                    if (!bar && (isspace(ch) || ch == '(' || ch == ')')) { if (!cur.empty()) { toks.push_back(cur); cur.clear(); } }
                    else cur += ch;
                }
                for (size_t i = 0; i + 1 < toks.size(); i += 2) vals[toks[i]] = parseBv(toks[i + 1]);
                for (E e : vars) model->vars[e->sym] = vals[symName(e->sym)];
                model->memo.clear();
                std::sort(sels.begin(), sels.end(), [](E x, E y) { return x->id < y->id; });
                for (E e : sels) { u128 idx; model->memo.clear(); if (evalE(e->a, *model, idx)) model->arrays[e->sym][(uint64_t)idx] = (uint8_t)vals["sel!" + std::to_string(e->id)]; }
                model->memo.clear();
            }
        }
    }
    if (res == Res::Sat) gStats.sat++; else if (res == Res::Unsat) gStats.unsat++; else gStats.unknown++;
    if (obligation) { gStats.byBackend[who]++; gStats.timeByBackend[who] += dt; }
    if (backend) *backend = who;
    return res;
}
