// Contract verifier over LLVM IR: executes a contract function symbolically along every feasible path and
// turns each assertion, memory access, undefined-behaviour check and escape into a proof obligation.
#include "expr.h"
#include "solver.h"
#include "mem.h"
#include "lin.h"
#include <regex>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <iostream>
#include <fstream>
#include <sstream>
#include <chrono>
#include <deque>
#include <set>
#include <cstring>
#include <algorithm>
#include <pthread.h>
#include <sys/resource.h>
#include <unistd.h>

using namespace llvm;
typedef std::string Str;

static bool gDebug = false;
static double now() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
static double gT0;
static Module* M;
static const DataLayout* DL;

// ------------------------------------------------------------------ options
static int optUnroll = 400;
static double optTime = 600;
static uint64_t optMaxPaths = 2000000;
static int optShard = 0, optShards = 1;
static uint64_t optMaxNodes = 60000000;

// ------------------------------------------------------------------ function numbering
struct FuncInfo {
    Function* f;
    std::unordered_map<const Value*, int> num;
    int n = 0;
    std::unordered_map<const BasicBlock*, int> bbNum;
    Str name, pretty;
};
static std::unordered_map<const Function*, FuncInfo*> gFi;
static FuncInfo* fiOf(Function* f) {
    auto& p = gFi[f];
    if (!p) {
        p = new FuncInfo();
        p->f = f;
        for (auto& a : f->args()) p->num[&a] = p->n++;
        int b = 0;
        for (auto& bb : *f) {
            p->bbNum[&bb] = b++;
            for (auto& i : bb) if (!i.getType()->isVoidTy()) p->num[&i] = p->n++;
        }
        p->name = f->getName().str();
        p->pretty = demangle(p->name);
    }
    return p;
}

// ------------------------------------------------------------------ state
struct RetAct { int kind = 0; int a = 0; };   // 1: free exception object a after destructor
struct Frame {
    FuncInfo* fi = nullptr;
    BasicBlock* bb = nullptr;
    BasicBlock::iterator it;
    std::vector<Val> regs;
    std::vector<int> allocas;
    std::vector<uint16_t> visits;
    std::vector<RetAct> acts;
};
struct ExcRec { int obj = 0; Str ti; Val dtor; int handlers = 0; bool rethrown = false; };
struct Nondet { Str name; int occ; E e; };
struct BufRec { Str name; int obj; uint32_t sym; E size; };
struct Forall { // for all t with t < n (unsigned): a[aOff+t] == b[bOff+t]  (or: a[aOff+t] != byte if neq)
    Content a, b; E aOff, bOff, n; bool neq; E byte;
};
struct State {
    std::vector<Frame> fr;
    std::map<int, ObjP> mem;
    std::vector<E> pc;
    std::vector<uint32_t> implied;
    LinStore lin;
    Model model; bool modelOk = true;
    std::vector<std::shared_ptr<ExcRec>> caught;
    std::map<int, std::shared_ptr<ExcRec>> excs;     // by exception object id
    std::vector<Nondet> nondets;
    std::vector<BufRec> bufs;
    std::map<Str, int> occ;
    std::vector<Str> trace;
    std::vector<E> ghosts;
    std::vector<Forall> foralls;
    int nextObj = 100000;
    int symCount = 0;
    bool shardUsed = false;
    uint64_t steps = 0;
    bool done = false;
};
typedef std::unique_ptr<State> StateP;
static std::vector<StateP> gWork;

// ------------------------------------------------------------------ bookkeeping
struct Oblig {
    Str id, kind, func, loc, name;
    uint64_t checks = 0, trivial = 0, proved = 0, failed = 0, unknown = 0;
};
static std::map<Str, Oblig> gObl;
struct Failure { Str ob; Str detail; std::vector<std::pair<std::pair<Str, int>, std::pair<unsigned, u128>>> nd; struct B { Str name; uint64_t size; std::map<uint64_t, uint8_t> bytes; }; std::vector<B> bufs; bool modelOk; Str path; };
static std::vector<Failure> gFails;
static std::map<Str, uint64_t> gIncomplete;
static std::map<Str, uint64_t> gCovers;
static std::set<Str> gFuncs, gTrusted, gReplaced, gBounds;
static uint64_t gPaths = 0, gForks = 0;
static std::set<Str> gUnknownObl;

static Str locOf(const Instruction* I) {
    if (!I) return "?";
    if (auto& d = I->getDebugLoc()) {
        auto* sc = d->getScope();
        Str f = sc->getFilename().str();
        size_t p = f.find("src/zserio/");
        if (p != Str::npos) f = f.substr(p + 4);
        else { size_t q = f.rfind('/'); if (q != Str::npos) f = f.substr(q + 1); }
        return f + ":" + std::to_string(d.getLine());
    }
    return "?";
}
static void incomplete(const Str& why) { gIncomplete[why]++; if (gDebug) std::cerr << "INCOMPLETE " << why << "\n"; }

struct PathEnd {};

// ------------------------------------------------------------------ path condition
static bool inPc(State& s, E c) {
    for (E x : s.pc) if (x == c) return true;
    for (uint32_t i : s.implied) if (i == c->id) return true;
    return false;
}
static bool modelHolds(const Model& m, const std::vector<E>& pc, E extra) {
    u128 v;
    if (extra && (!evalE(extra, m, v) || v == 0)) return false;
    for (E x : pc) if (!evalE(x, m, v) || v == 0) return false;
    return true;
}
static void mergeModel(Model& dst, const Model& src) {
    for (auto& kv : src.vars) dst.vars[kv.first] = kv.second;
    for (auto& kv : src.arrays) { auto& d = dst.arrays[kv.first]; for (auto& b : kv.second) d[b.first] = b.second; }
    dst.memo.clear();
}
static void pushPc(State& s, E c) {
    if (isTrue(c)) return;
    if (c->op == Op::And && c->width == 1) { pushPc(s, c->a); pushPc(s, c->b); return; }
    for (E x : s.pc) if (x == c) return;
    s.pc.push_back(c);
    s.lin.add(c);
}
static uint64_t gLinUsed = 0;
static bool linImplied(State& s, E c) {
    if (c->op == Op::And && c->width == 1) return linImplied(s, c->a) && linImplied(s, c->b);
    if (c->op == Op::Or && c->width == 1) return linImplied(s, c->a) || linImplied(s, c->b);
    if (isTrue(c) || inPc(s, c)) return true;
    return s.lin.implied(c);
}
// is c possible? on Sat the merged model is stored in m
static Res possible(State& s, E c, Model& m, bool obl, Str* be = nullptr) {
    if (isFalse(c)) return Res::Unsat;
    Model part;
    bool slice = s.modelOk;
    Res r = solve(s.pc, c, &part, obl, be, slice);
    if (r == Res::Sat) {
        m = s.model;
        if (slice) mergeModel(m, part); else m = part;
        m.memo.clear();
    }
    return r;
}
// adds c; returns false if it makes the path infeasible
static bool assume(State& s, E c) {
    if (isTrue(c)) return true;
    if (isFalse(c)) return false;
    if (inPc(s, c)) return true;
    u128 v;
    if (s.modelOk && evalE(c, s.model, v) && v) { pushPc(s, c); return true; }
    Model m;
    Res r = possible(s, c, m, false);
    if (r == Res::Unsat) return false;
    pushPc(s, c);
    if (r == Res::Sat && modelHolds(m, s.pc, nullptr)) { s.model = m; s.modelOk = true; }
    else s.modelOk = false;
    return true;
}
// decide a condition; forks if both sides are feasible. The forked state re-executes the current instruction.
static bool decide(State& s, E c) {
    if (isC(c)) return c->k != 0;
    if (inPc(s, c)) return true;
    E nc = mkNot(c);
    if (inPc(s, nc)) return false;
    if (linImplied(s, c)) { s.implied.push_back(c->id); return true; }
    if (linImplied(s, nc)) { s.implied.push_back(nc->id); return false; }
    {
        E c2 = s.lin.simplifyAll(c);
        if (isC(c2)) { gLinUsed++; s.implied.push_back(c2->k ? c->id : nc->id); return c2->k != 0; }
        if (c2 != c) { bool r = decide(s, c2); s.implied.push_back(r ? c->id : nc->id); return r; }
    }
    u128 v;
    bool known = s.modelOk && evalE(c, s.model, v);
    Model mo;
    if (known) {
        E other = v ? nc : c, mine = v ? c : nc;
        Res r = possible(s, other, mo, false);
        if (r == Res::Unsat) { s.implied.push_back(mine->id); return v != 0; }
        auto o = std::make_unique<State>(s);
        pushPc(*o, other);
        if (r == Res::Sat && modelHolds(mo, o->pc, nullptr)) { o->model = mo; o->modelOk = true; } else o->modelOk = false;
        gWork.push_back(std::move(o));
        gForks++;
        pushPc(s, mine);
        return v != 0;
    }
    Model m1, m2;
    Res r1 = possible(s, c, m1, false);
    if (r1 == Res::Unsat) { s.implied.push_back(nc->id); return false; }
    Res r2 = possible(s, nc, m2, false);
    if (r2 == Res::Unsat) { s.implied.push_back(c->id); return true; }
    auto o = std::make_unique<State>(s);
    pushPc(*o, nc);
    if (r2 == Res::Sat && modelHolds(m2, o->pc, nullptr)) { o->model = m2; o->modelOk = true; } else o->modelOk = false;
    gWork.push_back(std::move(o));
    gForks++;
    pushPc(s, c);
    if (r1 == Res::Sat && modelHolds(m1, s.pc, nullptr)) { s.model = m1; s.modelOk = true; } else s.modelOk = false;
    return true;
}
static void recordFailure(State& s, const Str& ob, const Model& m, bool ok, const Str& detail) {
    int same = 0;
    for (auto& f : gFails) if (f.ob == ob) same++;
    if (same >= 4) return;
    Failure f;
    f.ob = ob; f.modelOk = ok; f.detail = detail;
    for (auto& n : s.nondets) { u128 v = 0; evalE(n.e, m, v); f.nd.push_back({{n.name, n.occ}, {n.e->width, v}}); }
    for (auto& b : s.bufs) {
        Failure::B x; x.name = b.name; u128 v = 0; evalE(b.size, m, v); x.size = (uint64_t)v;
        auto it = m.arrays.find(b.sym);
        if (it != m.arrays.end()) for (auto& kv : it->second) x.bytes[kv.first] = kv.second;
        f.bufs.push_back(x);
    }
    for (auto& fr : s.fr) f.path += (f.path.empty() ? "" : " > ") + fr.fi->pretty.substr(0, 80);
    gFails.push_back(f);
}
// try to find a model with small inputs for replay
static void shrinkModel(State& s, E neg, Model& m) {
    for (uint64_t lim : {16ull, 64ull, 512ull, 65536ull}) {
        E x = neg;
        bool any = false;
        for (auto& b : s.bufs) if (!isC(b.size)) { x = mkAnd(x, mkUle(b.size, c64(lim))); any = true; }
        if (!any) return;
        u128 v; 
        if (evalE(x, m, v) && v) return;
        Model m2;
        Model part;
        if (solve(s.pc, x, &part, false, nullptr, false) == Res::Sat) { if (modelHolds(part, s.pc, x)) { m = part; return; } }
    }
}
static Oblig& obl(State& s, const Instruction* I, const Str& kind, const Str& name) {
    Frame& f = s.fr.back();
    Str loc = locOf(I);
    Str id = kind + "|" + f.fi->pretty.substr(0, 160) + "|" + loc + "|" + name;
    Oblig& o = gObl[id];
    if (o.id.empty()) { o.id = id; o.kind = kind; o.func = f.fi->pretty; o.loc = loc; o.name = name; }
    return o;
}
// proof obligation: pc => c. Afterwards c is assumed. Returns false if the path ends here.
static bool check(State& s, const Instruction* I, E c, const Str& kind, const Str& name) {
    Oblig& o = obl(s, I, kind, name);
    o.checks++;
    if (isTrue(c)) { o.trivial++; o.proved++; return true; }
    if (inPc(s, c)) { o.trivial++; o.proved++; return true; }
    if (linImplied(s, c)) { o.proved++; gStats.byBackend["linear facts"]++; s.implied.push_back(c->id); return true; }
    E orig = c;
    c = s.lin.simplifyAll(c);
    if (isTrue(c)) { o.proved++; gStats.byBackend["linear facts"]++; s.implied.push_back(orig->id); return true; }
    E nc = mkNot(c);
    u128 v;
    Model m;
    Res r;
    Str be;
    bool known = s.modelOk && evalE(nc, s.model, v) && v;
    if (known) { r = Res::Sat; m = s.model; }
    else if (isFalse(c)) {
        // path feasibility itself may be uncertain
        if (s.modelOk) { r = Res::Sat; m = s.model; }
        else { Model part; r = solve(s.pc, mkBool(true), &part, true, &be, false); if (r == Res::Sat) m = part; }
    } else r = possible(s, nc, m, true, &be);
    if (r == Res::Unsat) { o.proved++; s.implied.push_back(c->id); return !isFalse(c); }
    if (r == Res::Sat) {
        o.failed++;
        int same = 0;
        for (auto& f : gFails) if (f.ob == o.id) same++;
        if (same < 4) {
            bool ok = modelHolds(m, s.pc, nc);
            if (ok) shrinkModel(s, nc, m);
            recordFailure(s, o.id, m, ok, show(c, 5).substr(0, 400));
        }
    } else { o.unknown++; gUnknownObl.insert(o.id); }
    if (isFalse(c)) return false;
    return assume(s, c);
}
// failure that is unconditional on this path
static void fail(State& s, const Instruction* I, const Str& kind, const Str& name) {
    check(s, I, mkBool(false), kind, name);
    throw PathEnd();
}

// ------------------------------------------------------------------ objects and globals
static std::unordered_map<const GlobalVariable*, int> gGlobId;
static std::vector<GlobalVariable*> gGlobs;
static std::unordered_map<const Function*, int> gFnId;
static std::vector<Function*> gFns;
static std::unordered_map<int, ObjP> gConstGlob;

static int fnId(Function* f) {
    auto it = gFnId.find(f);
    if (it != gFnId.end()) return it->second;
    gFns.push_back(f);
    int id = -(int)gFns.size();
    gFnId[f] = id;
    return id;
}
static int globId(GlobalVariable* g) {
    auto it = gGlobId.find(g);
    if (it != gGlobId.end()) return it->second;
    gGlobs.push_back(g);
    int id = (int)gGlobs.size();
    gGlobId[g] = id;
    return id;
}
static E fresh(State& s, unsigned w, const Str& n) { return mkVar(w, n + "!" + std::to_string(s.symCount++)); }

static Val constVal(State& s, const Constant* c);
static void initCells(State& s, Content& c, uint64_t off, const Constant* k) {
    Type* t = k->getType();
    if (isa<ConstantAggregateZero>(k)) return;
    if (isa<UndefValue>(k)) return;
    if (auto* cds = dyn_cast<ConstantDataSequential>(k)) {
        uint64_t es = DL->getTypeAllocSize(cds->getElementType());
        for (unsigned i = 0; i < cds->getNumElements(); i++) {
            Val v;
            if (cds->getElementType()->isIntegerTy()) v = Val::I(mkConst(es * 8, cds->getElementAsInteger(i)));
            else v = Val::I(mkConst(es * 8, cds->getElementAsAPFloat(i).bitcastToAPInt().getZExtValue()));
            contentStoreC(c, off + i * es, es, v);
        }
        return;
    }
    if (auto* cs = dyn_cast<ConstantStruct>(k)) {
        auto* sl = DL->getStructLayout(cs->getType());
        for (unsigned i = 0; i < cs->getNumOperands(); i++) initCells(s, c, off + sl->getElementOffset(i), cs->getOperand(i));
        return;
    }
    if (auto* ca = dyn_cast<ConstantArray>(k)) {
        uint64_t es = DL->getTypeAllocSize(ca->getType()->getElementType());
        for (unsigned i = 0; i < ca->getNumOperands(); i++) initCells(s, c, off + i * es, ca->getOperand(i));
        return;
    }
    Val v = constVal(s, k);
    contentStoreC(c, off, (uint32_t)DL->getTypeStoreSize(t), v);
}
static ObjP makeGlobal(State& s, int id) {
    GlobalVariable* g = gGlobs[id - 1];
    auto o = std::make_shared<Obj>();
    o->id = id; o->kind = OK::Global; o->name = g->getName().str();
    Type* t = g->getValueType();
    o->size = c64(t->isSized() ? (uint64_t)DL->getTypeAllocSize(t) : 0);
    o->writable = !g->isConstant();
    if (g->hasInitializer()) {
        o->c.chain = mkBase(Chain::Zero);
        initCells(s, o->c, 0, g->getInitializer());
    } else {
        o->size = c64(65536);
        o->c.chain = mkBase(Chain::Uninit, symOf("extern!" + o->name));
    }
    return o;
}
static Obj& getObj(State& s, int id) {
    auto it = s.mem.find(id);
    if (it != s.mem.end()) return *it->second;
    if (id > 0 && id <= (int)gGlobs.size()) {
        auto& k = gConstGlob[id];
        if (!k) k = makeGlobal(s, id);
        if (!k->writable) return *k;
        auto& p = s.mem[id];
        p = k;
        return *p;
    }
    throw std::runtime_error("no object " + std::to_string(id));
}
static Obj& mutObj(State& s, int id) {
    getObj(s, id);
    auto it = s.mem.find(id);
    if (it == s.mem.end()) return *gConstGlob[id];
    if (it->second.use_count() > 1) it->second = std::make_shared<Obj>(*it->second);
    return *it->second;
}
static int newObj(State& s, OK kind, E size, const Str& name, ChainP base = nullptr) {
    int id = s.nextObj++;
    auto o = std::make_shared<Obj>();
    o->id = id; o->kind = kind; o->size = size; o->name = name;
    o->c.chain = base ? base : mkBase(Chain::Uninit, symOf("uninit!" + std::to_string(id)));
    s.mem[id] = o;
    return id;
}

// ------------------------------------------------------------------ constants and operands
static Val zeroOf(Type* t) {
    if (t->isIntegerTy()) return Val::I(mkConst(t->getIntegerBitWidth(), 0));
    if (t->isPointerTy()) return Val::P(0, c64(0));
    if (t->isFloatTy()) return Val::I(mkConst(32, 0));
    if (t->isDoubleTy()) return Val::I(mkConst(64, 0));
    if (auto* st = dyn_cast<StructType>(t)) { std::vector<Val> v; for (auto* e : st->elements()) v.push_back(zeroOf(e)); return Val::A(v); }
    if (auto* at = dyn_cast<ArrayType>(t)) { std::vector<Val> v(at->getNumElements(), zeroOf(at->getElementType())); return Val::A(v); }
    throw std::runtime_error("zeroOf type");
}
static Val freshOf(State& s, Type* t, const Str& nm) {
    if (t->isIntegerTy()) return Val::I(fresh(s, t->getIntegerBitWidth(), nm));
    if (t->isPointerTy()) return Val::P(0, fresh(s, 64, nm));
    if (t->isFloatTy()) return Val::I(fresh(s, 32, nm));
    if (t->isDoubleTy()) return Val::I(fresh(s, 64, nm));
    if (auto* st = dyn_cast<StructType>(t)) { std::vector<Val> v; for (auto* e : st->elements()) v.push_back(freshOf(s, e, nm)); return Val::A(v); }
    if (auto* at = dyn_cast<ArrayType>(t)) { std::vector<Val> v; for (uint64_t i = 0; i < at->getNumElements(); i++) v.push_back(freshOf(s, at->getElementType(), nm)); return Val::A(v); }
    throw std::runtime_error("freshOf type");
}
static u128 apToU128(const APInt& a) {
    u128 v = a.extractBitsAsZExtValue(std::min(64u, a.getBitWidth()), 0);
    if (a.getBitWidth() > 64) v |= (u128)a.extractBitsAsZExtValue(a.getBitWidth() - 64, 64) << 64;
    return v;
}
static Val castVal(State& s, unsigned opc, const Val& v, Type* from, Type* to);
static Val binVal(State& s, const Instruction* I, unsigned opc, const Val& a, const Val& b);
static Val gepVal(State& s, const GEPOperator* g, std::function<Val(const Value*)> get) {
    Val base = get(g->getPointerOperand());
    E off = base.e;
    for (auto ti = gep_type_begin(g), te = gep_type_end(g); ti != te; ++ti) {
        const Value* idx = ti.getOperand();
        if (StructType* st = ti.getStructTypeOrNull()) {
            unsigned i = (unsigned)cast<ConstantInt>(idx)->getZExtValue();
            off = mkAdd(off, c64(DL->getStructLayout(st)->getElementOffset(i)));
        } else {
            uint64_t es = DL->getTypeAllocSize(ti.getIndexedType());
            E ie = get(idx).e;
            if (ie->width < 64) ie = mkSExt(ie, 64);
            else if (ie->width > 64) ie = mkTrunc(ie, 64);
            off = mkAdd(off, mkMul(ie, c64(es)));
        }
    }
    return Val::P(base.obj, off);
}
static Val constVal(State& s, const Constant* c) {
    Type* t = c->getType();
    if (auto* ci = dyn_cast<ConstantInt>(c)) return Val::I(mkConst(t->getIntegerBitWidth(), apToU128(ci->getValue())));
    if (auto* cf = dyn_cast<ConstantFP>(c)) {
        if (!t->isFloatTy() && !t->isDoubleTy()) throw std::runtime_error("fp constant type");
        return Val::I(mkConst(t->isFloatTy() ? 32 : 64, cf->getValueAPF().bitcastToAPInt().getZExtValue()));
    }
    if (isa<ConstantPointerNull>(c)) return Val::P(0, c64(0));
    if (isa<ConstantAggregateZero>(c)) return zeroOf(t);
    if (isa<UndefValue>(c)) return freshOf(s, t, "undef");
    if (auto* f = dyn_cast<Function>(c)) return Val::P(fnId(const_cast<Function*>(f)), c64(0));
    if (auto* g = dyn_cast<GlobalVariable>(c)) return Val::P(globId(const_cast<GlobalVariable*>(g)), c64(0));
    if (auto* ga = dyn_cast<GlobalAlias>(c)) return constVal(s, ga->getAliasee());
    if (auto* cs = dyn_cast<ConstantStruct>(c)) { std::vector<Val> v; for (auto& o : cs->operands()) v.push_back(constVal(s, cast<Constant>(o))); return Val::A(v); }
    if (auto* ca = dyn_cast<ConstantArray>(c)) { std::vector<Val> v; for (auto& o : ca->operands()) v.push_back(constVal(s, cast<Constant>(o))); return Val::A(v); }
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { std::vector<Val> v; for (unsigned i = 0; i < cd->getNumElements(); i++) v.push_back(constVal(s, cd->getElementAsConstant(i))); return Val::A(v); }
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
        auto get = [&](const Value* v) { return constVal(s, cast<Constant>(v)); };
        if (auto* g = dyn_cast<GEPOperator>(ce)) return gepVal(s, g, get);
        if (ce->isCast()) return castVal(s, ce->getOpcode(), get(ce->getOperand(0)), ce->getOperand(0)->getType(), t);
        if (Instruction::isBinaryOp(ce->getOpcode())) return binVal(s, nullptr, ce->getOpcode(), get(ce->getOperand(0)), get(ce->getOperand(1)));
    }
    std::string str; raw_string_ostream os(str); c->print(os);
    throw std::runtime_error("constant " + str.substr(0, 100));
}
static Val opVal(State& s, Frame& f, const Value* v) {
    if (auto* c = dyn_cast<Constant>(v)) return constVal(s, c);
    auto it = f.fi->num.find(v);
    if (it == f.fi->num.end()) throw std::runtime_error("operand kind");
    const Val& r = f.regs[it->second];
    if (r.k == Val::None) throw std::runtime_error("undefined register in " + f.fi->pretty);
    return r;
}
static void setReg(Frame& f, const Value* v, const Val& x) { f.regs[f.fi->num.at(v)] = x; }

static int provOf(E e) { // object whose base address occurs linearly in e
    const auto& sy = symsOf(e);
    int found = 0;
    for (uint32_t x : sy) {
        const Str& n = symName(x);
        if (n.compare(0, 5, "addr!") == 0) { int id = atoi(n.c_str() + 5); if (found && found != id) return 0; found = id; }
    }
    return found;
}
static Val castVal(State& s, unsigned opc, const Val& v, Type* from, Type* to) {
    switch (opc) {
    case Instruction::Trunc: return Val::I(mkTrunc(v.e, to->getIntegerBitWidth()));
    case Instruction::ZExt: return Val::I(mkZExt(v.e, to->getIntegerBitWidth()));
    case Instruction::SExt: return Val::I(mkSExt(v.e, to->getIntegerBitWidth()));
    case Instruction::PtrToInt: {
        E e = valInt(v);
        unsigned w = to->getIntegerBitWidth();
        if (w < 64) return Val::I(mkTrunc(e, w));
        return Val::I(w > 64 ? mkZExt(e, w) : e, v.obj); }
    case Instruction::IntToPtr: {
        E e = v.e;
        if (e->width < 64) e = mkZExt(e, 64); else if (e->width > 64) e = mkTrunc(e, 64);
        int p = v.obj ? v.obj : provOf(e);
        if (p) return Val::P(p, mkSub(e, objBase(p)));
        return Val::P(0, e); }
    case Instruction::BitCast: return v;
    case Instruction::FPToSI: return Val::I(mkFp(Op::FToSI, to->getIntegerBitWidth(), v.e));
    case Instruction::FPToUI: return Val::I(mkFp(Op::FToUI, to->getIntegerBitWidth(), v.e));
    case Instruction::SIToFP: return Val::I(mkFp(Op::SIToF, to->isFloatTy() ? 32 : 64, v.e));
    case Instruction::UIToFP: return Val::I(mkFp(Op::UIToF, to->isFloatTy() ? 32 : 64, v.e));
    case Instruction::FPExt: case Instruction::FPTrunc:
        if (!(to->isFloatTy() || to->isDoubleTy()) || !(from->isFloatTy() || from->isDoubleTy())) throw std::runtime_error("fp type");
        return Val::I(mkFp(Op::FCvt, to->isFloatTy() ? 32 : 64, v.e));
    }
    throw std::runtime_error("cast");
}
static Val binVal(State& s, const Instruction* I, unsigned opc, const Val& a, const Val& b) {
    int prov = 0;
    if (opc == Instruction::Add) prov = a.obj && !b.obj ? a.obj : (!a.obj ? b.obj : 0);
    if (opc == Instruction::Sub) prov = a.obj && !b.obj ? a.obj : 0;
    E x = a.e, y = b.e;
    switch (opc) {
    case Instruction::Add: return Val::I(mkAdd(x, y), prov);
    case Instruction::Sub: return Val::I(mkSub(x, y), prov);
    case Instruction::Mul: return Val::I(mkMul(x, y));
    case Instruction::UDiv: return Val::I(mkBin(Op::UDiv, x, y));
    case Instruction::SDiv: return Val::I(mkBin(Op::SDiv, x, y));
    case Instruction::URem: return Val::I(mkBin(Op::URem, x, y));
    case Instruction::SRem: return Val::I(mkBin(Op::SRem, x, y));
    case Instruction::And: return Val::I(mkAnd(x, y));
    case Instruction::Or: return Val::I(mkOr(x, y));
    case Instruction::Xor: return Val::I(mkXor(x, y));
    case Instruction::Shl: return Val::I(mkBin(Op::Shl, x, y));
    case Instruction::LShr: return Val::I(mkBin(Op::LShr, x, y));
    case Instruction::AShr: return Val::I(mkBin(Op::AShr, x, y));
    case Instruction::FAdd: return Val::I(mkFp(Op::FAdd, x->width, x, y));
    case Instruction::FSub: return Val::I(mkFp(Op::FSub, x->width, x, y));
    case Instruction::FMul: return Val::I(mkFp(Op::FMul, x->width, x, y));
    case Instruction::FDiv: return Val::I(mkFp(Op::FDiv, x->width, x, y));
    }
    throw std::runtime_error("binop");
}
static E ptrEq(State& s, const Val& a, const Val& b) {
    if (a.obj == b.obj) return mkEq(a.e, b.e);
    if (a.obj == 0 || b.obj == 0) {
        const Val& n = a.obj == 0 ? a : b;
        const Val& o = a.obj == 0 ? b : a;
        if (isC(n.e) && cval(n.e) < 4096) return mkBool(false);
        return mkEq(n.e, valInt(o));
    }
    return mkBool(false);
}
static E icmp(State& s, CmpInst::Predicate p, const Val& a, const Val& b) {
    if (a.k == Val::Ptr || b.k == Val::Ptr) {
        if (p == CmpInst::ICMP_EQ) return ptrEq(s, a, b);
        if (p == CmpInst::ICMP_NE) return mkNot(ptrEq(s, a, b));
        if (a.obj == b.obj) {
            switch (p) {
            case CmpInst::ICMP_ULT: return mkUlt(a.e, b.e);
            case CmpInst::ICMP_ULE: return mkUle(a.e, b.e);
            case CmpInst::ICMP_UGT: return mkUlt(b.e, a.e);
            case CmpInst::ICMP_UGE: return mkUle(b.e, a.e);
            default: break;
            }
        }
        // distinct objects: fixed layout, later objects at higher addresses (null lowest)
        bool lt = (unsigned)a.obj < (unsigned)b.obj;
        switch (p) {
        case CmpInst::ICMP_ULT: case CmpInst::ICMP_ULE: return mkBool(lt);
        case CmpInst::ICMP_UGT: case CmpInst::ICMP_UGE: return mkBool(!lt);
        default: break;
        }
    }
    E x = valInt(a), y = valInt(b);
    switch (p) {
    case CmpInst::ICMP_EQ: return mkEq(x, y);
    case CmpInst::ICMP_NE: return mkNot(mkEq(x, y));
    case CmpInst::ICMP_ULT: return mkUlt(x, y);
    case CmpInst::ICMP_ULE: return mkUle(x, y);
    case CmpInst::ICMP_UGT: return mkUlt(y, x);
    case CmpInst::ICMP_UGE: return mkUle(y, x);
    case CmpInst::ICMP_SLT: return mkSlt(x, y);
    case CmpInst::ICMP_SLE: return mkSle(x, y);
    case CmpInst::ICMP_SGT: return mkSlt(y, x);
    case CmpInst::ICMP_SGE: return mkSle(y, x);
    default: throw std::runtime_error("icmp");
    }
}
static E fcmp(CmpInst::Predicate p, E x, E y) {
    E eq = mkFp(Op::FEq, 1, x, y), lt = mkFp(Op::FLt, 1, x, y), gt = mkFp(Op::FLt, 1, y, x);
    E un = mkOr(mkFp(Op::FNan, 1, x), mkFp(Op::FNan, 1, y));
    switch (p) {
    case CmpInst::FCMP_FALSE: return mkBool(false);
    case CmpInst::FCMP_TRUE: return mkBool(true);
    case CmpInst::FCMP_OEQ: return eq;
    case CmpInst::FCMP_OGT: return gt;
    case CmpInst::FCMP_OGE: return mkOr(gt, eq);
    case CmpInst::FCMP_OLT: return lt;
    case CmpInst::FCMP_OLE: return mkOr(lt, eq);
    case CmpInst::FCMP_ONE: return mkOr(lt, gt);
    case CmpInst::FCMP_ORD: return mkNot(un);
    case CmpInst::FCMP_UNO: return un;
    case CmpInst::FCMP_UEQ: return mkOr(un, eq);
    case CmpInst::FCMP_UGT: return mkOr(un, gt);
    case CmpInst::FCMP_UGE: return mkOr(un, mkOr(gt, eq));
    case CmpInst::FCMP_ULT: return mkOr(un, lt);
    case CmpInst::FCMP_ULE: return mkOr(un, mkOr(lt, eq));
    case CmpInst::FCMP_UNE: return mkNot(eq);
    default: throw std::runtime_error("fcmp");
    }
}

// ------------------------------------------------------------------ memory access with obligations
static E sizeOfObj(const Obj& o) { return o.size; }
static void access(State& s, const Instruction* I, const Val& p, E n, bool write, const char* what) {
    if (isC(n) && cval(n) == 0) return;
    if (p.obj <= 0) {
        // invalid pointer: fine only if n == 0
        if (!check(s, I, mkEq(n, c64(0)), "memory", Str(what) + ": null or invalid pointer")) throw PathEnd();
        return;
    }
    Obj& o = getObj(s, p.obj);
    if (!o.alive) { if (!check(s, I, mkEq(n, c64(0)), "memory", Str(what) + ": use after free")) throw PathEnd(); return; }
    if (write && !o.writable) { if (!check(s, I, mkEq(n, c64(0)), "memory", Str(what) + ": write to constant")) throw PathEnd(); return; }
    E sz = sizeOfObj(o);
    E in;
    if (p.e->umax <= maskOf(64) - n->umax) in = mkUle(mkAdd(p.e, n), sz);
    else in = mkAnd(mkUle(n, sz), mkUle(p.e, mkSub(sz, n)));
    if (!isC(n)) in = mkOr(mkEq(n, c64(0)), in);
    if (!check(s, I, in, "memory", Str(what) + ": inside object bounds")) throw PathEnd();
}
static Val loadT(State& s, const Instruction* I, const Val& p, Type* t, bool chk = true);
static Val loadScalar(State& s, const Instruction* I, const Val& p, Type* t) {
    uint32_t n = (uint32_t)DL->getTypeStoreSize(t);
    bool wp = t->isPointerTy();
    if (p.obj <= 0) throw PathEnd();
    Obj& o = getObj(s, p.obj);
    bool nf; std::vector<uint64_t> cands;
    Val v = contentLoad(o.c, p.e, n, wp, o.size, nf, cands);
    if (nf) {
        for (size_t i = 0; i < cands.size(); i++) {
            if (decide(s, mkEq(p.e, c64(cands[i])))) return contentLoadC(getObj(s, p.obj).c, cands[i], n, wp);
        }
        // concretise through models
        u128 cv;
        if (s.modelOk && evalE(p.e, s.model, cv)) {
            s.steps += 1000;
            if (decide(s, mkEq(p.e, c64((uint64_t)cv)))) return contentLoadC(getObj(s, p.obj).c, (uint64_t)cv, n, wp);
        }
        incomplete("pointer load at symbolic offset in " + s.fr.back().fi->pretty);
        throw PathEnd();
    }
    if (!wp && v.k == Val::Int && !isC(p.e)) v.e = s.lin.simplify(v.e, 24);
    if (!wp) {
        unsigned w = t->isIntegerTy() ? t->getIntegerBitWidth() : n * 8;
        if (v.e->width > w) v = Val::I(mkTrunc(v.e, w));
        else if (v.e->width < w) v = Val::I(mkZExt(v.e, w));
    } else if (v.obj == 0 && !isC(v.e)) {
        int pr = provOf(v.e);
        if (pr) v = Val::P(pr, mkSub(v.e, objBase(pr)));
    }
    return v;
}
static Val loadT(State& s, const Instruction* I, const Val& p, Type* t, bool chk) {
    if (chk) access(s, I, p, c64(DL->getTypeStoreSize(t)), false, "read");
    if (auto* st = dyn_cast<StructType>(t)) {
        std::vector<Val> v; auto* sl = DL->getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); i++) v.push_back(loadT(s, I, Val::P(p.obj, mkAdd(p.e, c64(sl->getElementOffset(i)))), st->getElementType(i), false));
        return Val::A(v);
    }
    if (auto* at = dyn_cast<ArrayType>(t)) {
        std::vector<Val> v; uint64_t es = DL->getTypeAllocSize(at->getElementType());
        for (uint64_t i = 0; i < at->getNumElements(); i++) v.push_back(loadT(s, I, Val::P(p.obj, mkAdd(p.e, c64(i * es))), at->getElementType(), false));
        return Val::A(v);
    }
    if (!(t->isIntegerTy() || t->isPointerTy() || t->isFloatTy() || t->isDoubleTy())) throw std::runtime_error("load type");
    return loadScalar(s, I, p, t);
}
static void storeT(State& s, const Instruction* I, const Val& p, Type* t, const Val& v, bool chk = true) {
    if (chk) access(s, I, p, c64(DL->getTypeStoreSize(t)), true, "write");
    if (auto* st = dyn_cast<StructType>(t)) {
        auto* sl = DL->getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); i++) storeT(s, I, Val::P(p.obj, mkAdd(p.e, c64(sl->getElementOffset(i)))), st->getElementType(i), (*v.agg)[i], false);
        return;
    }
    if (auto* at = dyn_cast<ArrayType>(t)) {
        uint64_t es = DL->getTypeAllocSize(at->getElementType());
        for (uint64_t i = 0; i < at->getNumElements(); i++) storeT(s, I, Val::P(p.obj, mkAdd(p.e, c64(i * es))), at->getElementType(), (*v.agg)[i], false);
        return;
    }
    if (p.obj <= 0) throw PathEnd();
    Obj& o = mutObj(s, p.obj);
    Val x = v;
    if (x.k == Val::Int && x.e->width == 1) x = Val::I(mkZExt(x.e, 8));
    uint32_t n = (uint32_t)DL->getTypeStoreSize(t);
    if (x.k == Val::Int && x.e->width < n * 8) x = Val::I(mkZExt(x.e, n * 8));
    contentStore(o.c, p.e, n, x);
}

// ------------------------------------------------------------------ type info matching
static std::map<Str, Str> gStdBase = {
    {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt13runtime_error", "_ZTISt9exception"},
    {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"},
    {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"},
    {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"},
    {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"},
    {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"},
    {"_ZTISt19bad_optional_access", "_ZTISt9exception"}, {"_ZTISt18bad_variant_access", "_ZTISt9exception"},
    {"_ZTISt12bad_any_cast", "_ZTISt8bad_cast"}, {"_ZTISt10bad_typeid", "_ZTISt9exception"},
};
static void tiBases(const Str& n, std::set<Str>& out) {
    if (!out.insert(n).second) return;
    GlobalVariable* g = M->getGlobalVariable(n, true);
    if (g && g->hasInitializer()) {
        if (auto* cs = dyn_cast<ConstantStruct>(g->getInitializer()))
            for (unsigned i = 2; i < cs->getNumOperands(); i++)
                if (auto* b = dyn_cast<GlobalVariable>(cs->getOperand(i)->stripPointerCasts())) tiBases(b->getName().str(), out);
    }
    auto it = gStdBase.find(n);
    if (it != gStdBase.end()) tiBases(it->second, out);
}
static bool tiMatch(const Str& thrown, const Str& want) {
    static std::map<Str, std::set<Str>> memo;
    auto& st = memo[thrown];
    if (st.empty()) tiBases(thrown, st);
    return st.count(want) != 0;
}
static std::vector<Str> gTiIds;
static int tiId(const Str& n) {
    for (size_t i = 0; i < gTiIds.size(); i++) if (gTiIds[i] == n) return (int)i + 1;
    gTiIds.push_back(n);
    return (int)gTiIds.size();
}

// ------------------------------------------------------------------ control transfer
static void enterBlock(State& s, BasicBlock* to) {
    Frame& f = s.fr.back();
    BasicBlock* from = f.bb;
    // phis in parallel
    std::vector<std::pair<const Value*, Val>> ph;
    for (auto& I : *to) {
        auto* p = dyn_cast<PHINode>(&I);
        if (!p) break;
        const Value* in = p->getIncomingValueForBlock(from);
        Val v;
        if (isa<UndefValue>(in)) v = freshOf(s, in->getType(), "undef"); else v = opVal(s, f, in);
        ph.push_back({p, v});
    }
    for (auto& x : ph) setReg(f, x.first, x.second);
    f.bb = to;
    f.it = to->getFirstNonPHIIt();
    auto& c = f.visits[f.fi->bbNum[to]];
    if (++c > optUnroll) { incomplete("loop bound " + std::to_string(optUnroll) + " in " + f.fi->pretty.substr(0, 120)); throw PathEnd(); }
}
static void killFrame(State& s) {
    for (int a : s.fr.back().allocas) s.mem.erase(a);
    s.fr.pop_back();
}
static void pushCall(State& s, Function* fn, std::vector<Val> args) {
    if (s.fr.size() > 400) { incomplete("recursion depth in " + demangle(fn->getName().str())); throw PathEnd(); }
    FuncInfo* fi = fiOf(fn);
    Frame f;
    f.fi = fi;
    f.regs.resize(fi->n);
    f.visits.resize(fi->bbNum.size(), 0);
    unsigned i = 0;
    for (auto& a : fn->args()) {
        if (i < args.size()) {
            if (a.hasByValAttr()) {
                Type* t = a.getParamByValType();
                E n = c64(DL->getTypeAllocSize(t));
                int id = newObj(s, OK::Stack, n, "byval");
                f.allocas.push_back(id);
                if (args[i].obj > 0) contentCopy(mutObj(s, id).c, c64(0), getObj(s, args[i].obj).c, args[i].e, n);
                f.regs[i] = Val::P(id, c64(0));
            } else f.regs[i] = args[i];
        }
        i++;
    }
    f.bb = &fn->getEntryBlock();
    f.it = f.bb->begin();
    if (fi->pretty.find("zserio::") != Str::npos) gFuncs.insert(fi->pretty);
    s.fr.push_back(std::move(f));
}
// finish the current call instruction in the top frame with a result
static void finishCall(State& s, const Val& r) {
    Frame& f = s.fr.back();
    Instruction* I = &*f.it;
    if (!I->getType()->isVoidTy()) setReg(f, I, r);
    if (auto* inv = dyn_cast<InvokeInst>(I)) enterBlock(s, inv->getNormalDest());
    else ++f.it;
}
static void unwind(State& s, int excObj) {
    auto ex = s.excs.at(excObj);
    while (true) {
        if (s.fr.empty()) throw PathEnd();
        Frame& f = s.fr.back();
        Instruction* I = &*f.it;
        auto* inv = dyn_cast<InvokeInst>(I);
        if (inv) {
            LandingPadInst* lp = inv->getLandingPadInst();
            int sel = 0; bool hit = lp->isCleanup();
            for (unsigned i = 0; i < lp->getNumClauses(); i++) {
                Constant* cl = lp->getClause(i);
                if (lp->isCatch(i)) {
                    if (isa<ConstantPointerNull>(cl)) { sel = tiId(""); hit = true; break; }
                    Str n = cl->stripPointerCasts()->getName().str();
                    if (tiMatch(ex->ti, n)) { sel = tiId(n); hit = true; break; }
                } else { hit = true; sel = -1; break; }
            }
            if (hit) {
                enterBlock(s, inv->getUnwindDest());
                Frame& f2 = s.fr.back();
                // phis done; the landing pad is the first non-phi
                Instruction* L = &*f2.it;
                setReg(f2, L, Val::A({Val::P(excObj, c64(0)), Val::I(mkConst(32, (uint32_t)sel))}));
                ++f2.it;
                return;
            }
        }
        if (s.fr.size() == 1) {
            fail(s, I, "exception", "uncaught exception " + demangle(ex->ti.compare(0, 4, "_ZTI") == 0 ? "_Z" + ex->ti.substr(4) : ex->ti) + " (" + ex->ti + ")");
        }
        if (f.fi->f->doesNotThrow() && !f.fi->f->getName().starts_with("__vp")) {
            fail(s, I, "exception", "exception leaves noexcept function " + f.fi->pretty);
        }
        killFrame(s);
    }
}
static void throwBuiltin(State& s, const Str& ti) {
    int id = newObj(s, OK::Exc, c64(64), "exc");
    auto ex = std::make_shared<ExcRec>();
    ex->obj = id; ex->ti = ti; ex->dtor = Val::P(0, c64(0));
    s.excs[id] = ex;
    unwind(s, id);
}

// ------------------------------------------------------------------ strings in constant memory
static Str readCStr(State& s, const Val& p) {
    Str r;
    if (p.obj <= 0 || !isC(p.e)) return "?";
    Obj& o = getObj(s, p.obj);
    for (uint64_t i = cval(p.e); i < 65536; i++) {
        E b = contentByte(o.c, c64(i));
        if (!isC(b)) return r + "?";
        if (b->k == 0) break;
        r += (char)(uint8_t)b->k;
    }
    return r;
}
static E byteAt(State& s, const Val& p, E i) {
    if (p.obj <= 0) throw PathEnd();
    return contentByte(getObj(s, p.obj).c, mkAdd(p.e, i));
}
static void instForall(State& s, const Forall& f, E t) {
    E in = mkUlt(t, f.n);
    if (isFalse(in)) return;
    E x = contentByte(f.a, mkAdd(f.aOff, t));
    E y = f.neq ? f.byte : contentByte(f.b, mkAdd(f.bOff, t));
    E eq = mkEq(x, y);
    if (f.neq) eq = mkNot(eq);
    E c = mkOr(mkNot(in), eq);
    if (!assume(s, c)) throw PathEnd();
}
static void addForall(State& s, const Forall& f) {
    s.foralls.push_back(f);
    std::set<uint32_t> done;
    for (E g : s.ghosts)
        for (E t : {g, mkSub(g, f.aOff), f.bOff ? mkSub(g, f.bOff) : g})
            if (done.insert(t->id).second) instForall(s, f, t);
}
static void addGhost(State& s, E g) {
    s.ghosts.push_back(g);
    auto fs = s.foralls;
    for (auto& f : fs) {
        std::set<uint32_t> done;
        for (E t : {g, mkSub(g, f.aOff), f.bOff ? mkSub(g, f.bOff) : g})
            if (done.insert(t->id).second) instForall(s, f, t);
    }
}

#include "builtins.inc"

// ------------------------------------------------------------------ instructions
static Function* trapCallee(BasicBlock* bb) {
    if (!isa<UnreachableInst>(bb->getTerminator())) return nullptr;
    for (auto& I : *bb) if (auto* c = dyn_cast<CallInst>(&I)) if (auto* f = c->getCalledFunction()) {
        auto n = f->getName();
        if (n.starts_with("llvm.ubsantrap") || n == "llvm.trap" || n.contains("__glibcxx_assert_fail")) return f;
        if (!n.starts_with("llvm.dbg")) return nullptr;
    }
    return nullptr;
}
static const char* ubsanName(uint64_t k) {
    static const char* n[] = {"add overflow", "builtin unreachable", "cfi check", "divrem overflow", "dynamic type cache miss", "float cast overflow", "function type mismatch", "implicit conversion", "invalid builtin", "invalid objc cast", "load invalid value", "missing return", "mul overflow", "negate overflow", "nullability arg", "nullability return", "nonnull arg", "nonnull return", "out of bounds", "pointer overflow", "shift out of bounds", "sub overflow", "type mismatch", "alignment assumption", "vla bound"};
    return k < sizeof(n) / sizeof(n[0]) ? n[k] : "trap";
}
static Str trapName(BasicBlock* bb) {
    for (auto& I : *bb) if (auto* c = dyn_cast<CallInst>(&I)) if (auto* f = c->getCalledFunction()) {
        if (f->getName().starts_with("llvm.ubsantrap")) return ubsanName(cast<ConstantInt>(c->getArgOperand(0))->getZExtValue());
        if (f->getName().contains("__glibcxx_assert_fail")) return "library precondition";
    }
    return "trap";
}
static Instruction* trapLoc(BasicBlock* bb, Instruction* dflt) {
    if (dflt->getDebugLoc()) return dflt;
    for (auto& I : *bb) if (I.getDebugLoc()) return &I;
    return dflt;
}

static void step(State& s) {
    Frame& f = s.fr.back();
    Instruction* I = &*f.it;
    s.steps++;
    auto op = [&](unsigned i) { return opVal(s, f, I->getOperand(i)); };
    switch (I->getOpcode()) {
    case Instruction::Alloca: {
        auto* a = cast<AllocaInst>(I);
        E n = op(0).e;
        if (n->width < 64) n = mkZExt(n, 64);
        int id = newObj(s, OK::Stack, mkMul(n, c64(DL->getTypeAllocSize(a->getAllocatedType()))), a->getName().str());
        s.fr.back().allocas.push_back(id);
        setReg(s.fr.back(), I, Val::P(id, c64(0)));
        ++f.it; return; }
    case Instruction::Load: {
        Val v = loadT(s, I, op(0), I->getType());
        setReg(s.fr.back(), I, v);
        ++s.fr.back().it; return; }
    case Instruction::Store: {
        Val p = op(1);
        storeT(s, I, p, I->getOperand(0)->getType(), op(0));
        ++f.it; return; }
    case Instruction::GetElementPtr: {
        if (I->getType()->isVectorTy()) throw std::runtime_error("vector gep");
        setReg(f, I, gepVal(s, cast<GEPOperator>(I), [&](const Value* v) { return opVal(s, f, v); }));
        ++f.it; return; }
    case Instruction::ICmp: setReg(f, I, Val::I(icmp(s, cast<CmpInst>(I)->getPredicate(), op(0), op(1)))); ++f.it; return;
    case Instruction::FCmp: setReg(f, I, Val::I(fcmp(cast<CmpInst>(I)->getPredicate(), op(0).e, op(1).e))); ++f.it; return;
    case Instruction::FNeg: { E x = op(0).e; setReg(f, I, Val::I(mkXor(x, mkConst(x->width, (u128)1 << (x->width - 1))))); ++f.it; return; }
    case Instruction::Select: {
        E c = op(0).e;
        if (isC(c)) { setReg(f, I, c->k ? op(1) : op(2)); ++f.it; return; }
        Val a = op(1), b = op(2);
        if (a.k == Val::Int && a.obj == 0 && b.obj == 0) { setReg(f, I, Val::I(mkIte(c, a.e, b.e))); ++f.it; return; }
        if (a.k == Val::Ptr && a.obj == b.obj) { setReg(f, I, Val::P(a.obj, mkIte(c, a.e, b.e))); ++f.it; return; }
        if (a.k == Val::Int) { setReg(f, I, Val::I(mkIte(c, a.e, b.e), a.obj == b.obj ? a.obj : 0)); ++f.it; return; }
        bool d = decide(s, c);
        setReg(s.fr.back(), I, d ? a : b);
        ++s.fr.back().it; return; }
    case Instruction::ExtractValue: {
        Val v = op(0);
        for (unsigned i : cast<ExtractValueInst>(I)->indices()) { Val t = (*v.agg)[i]; v = t; }
        setReg(f, I, v); ++f.it; return; }
    case Instruction::InsertValue: {
        auto* iv = cast<InsertValueInst>(I);
        Val agg = op(0), x = op(1);
        std::function<Val(const Val&, unsigned)> ins = [&](const Val& a, unsigned d) -> Val {
            if (d == iv->getNumIndices()) return x;
            std::vector<Val> v = *a.agg;
            v[iv->getIndices()[d]] = ins(v[iv->getIndices()[d]], d + 1);
            return Val::A(v);
        };
        setReg(f, I, ins(agg, 0)); ++f.it; return; }
    case Instruction::Freeze: setReg(f, I, op(0)); ++f.it; return;
    case Instruction::Br: {
        auto* b = cast<BranchInst>(I);
        if (b->isUnconditional()) { enterBlock(s, b->getSuccessor(0)); return; }
        E c = op(0).e;
        BasicBlock *t = b->getSuccessor(0), *e = b->getSuccessor(1);
        if (trapCallee(e)) { if (!check(s, trapLoc(e, I), c, "ub", trapName(e))) throw PathEnd(); enterBlock(s, t); return; }
        if (trapCallee(t)) { if (!check(s, trapLoc(t, I), mkNot(c), "ub", trapName(t))) throw PathEnd(); enterBlock(s, e); return; }
        bool d = decide(s, c);
        enterBlock(s, d ? t : e);
        return; }
    case Instruction::Switch: {
        auto* sw = cast<SwitchInst>(I);
        E v = op(0).e;
        for (auto& cs : sw->cases()) {
            E c = mkEq(v, mkConst(v->width, apToU128(cs.getCaseValue()->getValue())));
            if (isFalse(c)) continue;
            if (decide(s, c)) { enterBlock(s, cs.getCaseSuccessor()); return; }
        }
        enterBlock(s, sw->getDefaultDest());
        return; }
    case Instruction::Unreachable: fail(s, I, "ub", "unreachable code reached"); return;
    case Instruction::Ret: {
        Val r;
        if (I->getNumOperands()) r = op(0);
        auto acts = f.acts;
        if (s.fr.size() == 1) { s.done = true; return; }
        killFrame(s);
        for (auto& a : acts) {
            if (a.kind == 1) { s.mem.erase(a.a); s.excs.erase(a.a); }
        }
        finishCall(s, r);
        return; }
    case Instruction::Resume: {
        Val v = op(0);
        int id = (*v.agg)[0].obj;
        // the frame is left
        if (s.fr.size() == 1) { fail(s, I, "exception", "uncaught exception " + s.excs.at(id)->ti); }
        if (f.fi->f->doesNotThrow()) fail(s, I, "exception", "exception leaves noexcept function");
        killFrame(s);
        unwind(s, id);
        return; }
    case Instruction::Call: case Instruction::Invoke: {
        auto* cb = cast<CallBase>(I);
        if (cb->isInlineAsm()) {
            if (I->getType()->isVoidTy()) { finishCall(s, Val()); return; }
            incomplete("inline assembly in " + f.fi->pretty); throw PathEnd();
        }
        Function* fn = cb->getCalledFunction();
        if (!fn) {
            Value* cv = cb->getCalledOperand()->stripPointerCasts();
            if (auto* ga = dyn_cast<GlobalAlias>(cv)) fn = dyn_cast<Function>(ga->getAliasee()->stripPointerCasts());
            else fn = dyn_cast<Function>(cv);
        }
        if (!fn) {
            Val p = opVal(s, f, cb->getCalledOperand());
            if (p.obj >= 0) {
                if (p.obj == 0 && isC(p.e) && cval(p.e) == 0) fail(s, I, "memory", "call through null function pointer");
                incomplete("indirect call in " + f.fi->pretty); throw PathEnd();
            }
            fn = gFns[-p.obj - 1];
        }
        if (fn->getName().starts_with("llvm.dbg")) { ++f.it; return; }
        std::vector<Val> args;
        for (auto& a : cb->args()) {
            if (a->getType()->isMetadataTy()) { args.push_back(Val()); continue; }
            args.push_back(opVal(s, f, a));
        }
        doCall(s, I, fn, args);
        return; }
    default:
        if (auto* c = dyn_cast<CastInst>(I)) {
            setReg(f, I, castVal(s, c->getOpcode(), op(0), c->getSrcTy(), c->getDestTy()));
            ++f.it; return;
        }
        if (I->isBinaryOp()) {
            Val a = op(0), b = op(1);
            unsigned oc = I->getOpcode();
            if (oc == Instruction::UDiv || oc == Instruction::SDiv || oc == Instruction::URem || oc == Instruction::SRem)
                if (!check(s, I, mkNot(mkEq(b.e, mkConst(b.e->width, 0))), "ub", "division by zero")) throw PathEnd();
            setReg(s.fr.back(), I, binVal(s, I, oc, a, b));
            ++s.fr.back().it; return;
        }
        if (auto* sw = dyn_cast<AtomicRMWInst>(I)) {
            Val p = op(0), v = op(1);
            Val old = loadT(s, I, p, I->getType());
            E n = nullptr;
            switch (sw->getOperation()) {
            case AtomicRMWInst::Add: n = mkAdd(old.e, v.e); break;
            case AtomicRMWInst::Sub: n = mkSub(old.e, v.e); break;
            case AtomicRMWInst::Xchg: n = v.e; break;
            default: throw std::runtime_error("atomicrmw");
            }
            storeT(s, I, p, I->getType(), Val::I(n));
            setReg(s.fr.back(), I, old);
            ++s.fr.back().it; return;
        }
        if (isa<FenceInst>(I)) { ++f.it; return; }
        throw std::runtime_error(Str("instruction ") + I->getOpcodeName());
    }
}

static Str jstr(const Str& s) {
    Str r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}
static Str u128s(u128 v) { if (!v) return "0"; Str r; while (v) { r.insert(r.begin(), '0' + (int)(v % 10)); v /= 10; } return r; }

static void writeOut(const Str& out, const Str& entry) {
    std::ofstream o(out + ".tmp");
    o << "{\n\"entry\":" << jstr(entry) << ",\n\"paths\":" << gPaths << ",\"forks\":" << gForks << ",\"wall\":" << now() - gT0 << ",\"nodes\":" << nodeCount() << ",\n";
    o << "\"incomplete\":{"; bool first = true;
    for (auto& k : gIncomplete) { o << (first ? "" : ",") << jstr(k.first) << ":" << k.second; first = false; }
    o << "},\n\"covers\":{"; first = true;
    for (auto& k : gCovers) { o << (first ? "" : ",") << jstr(k.first) << ":" << k.second; first = false; }
    auto setOut = [&](const char* n, const std::set<Str>& st) { o << "},\n\"" << n << "\":["; bool f1 = true; for (auto& k : st) { o << (f1 ? "" : ",") << jstr(k); f1 = false; } o << "],\"_" << n << "\":{"; };
    setOut("functions", gFuncs); setOut("trusted", gTrusted); setOut("replaced", gReplaced); setOut("bounds", gBounds);
    o << "},\n\"solver\":{\"queries\":" << gStats.queries << ",\"sat\":" << gStats.sat << ",\"unsat\":" << gStats.unsat << ",\"unknown\":" << gStats.unknown << ",\"time\":" << gStats.time << ",\"ext_time\":" << gStats.extTime << ",\"backends\":{";
    first = true;
    for (auto& k : gStats.byBackend) { o << (first ? "" : ",") << jstr(k.first) << ":[" << k.second << "," << gStats.timeByBackend[k.first] << "]"; first = false; }
    o << "}},\n\"obligations\":[";
    first = true;
    for (auto& k : gObl) {
        auto& b = k.second;
        o << (first ? "\n" : ",\n") << "{\"id\":" << jstr(b.id) << ",\"kind\":" << jstr(b.kind) << ",\"func\":" << jstr(b.func) << ",\"loc\":" << jstr(b.loc) << ",\"name\":" << jstr(b.name)
          << ",\"checks\":" << b.checks << ",\"trivial\":" << b.trivial << ",\"proved\":" << b.proved << ",\"failed\":" << b.failed << ",\"unknown\":" << b.unknown << "}";
        first = false;
    }
    o << "],\n\"failures\":["; first = true;
    for (auto& f : gFails) {
        o << (first ? "\n" : ",\n") << "{\"ob\":" << jstr(f.ob) << ",\"model_ok\":" << (f.modelOk ? "true" : "false") << ",\"detail\":" << jstr(f.detail) << ",\"stack\":" << jstr(f.path) << ",\"nondet\":[";
        bool f1 = true;
        for (auto& n : f.nd) { o << (f1 ? "" : ",") << "[" << jstr(n.first.first) << "," << n.first.second << "," << n.second.first << ",\"" << u128s(n.second.second) << "\"]"; f1 = false; }
        o << "],\"buffers\":["; f1 = true;
        for (auto& b : f.bufs) {
            o << (f1 ? "" : ",") << "{\"name\":" << jstr(b.name) << ",\"size\":\"" << b.size << "\",\"bytes\":["; f1 = false;
            bool f2 = true;
            for (auto& x : b.bytes) { o << (f2 ? "" : ",") << "[\"" << x.first << "\"," << (int)x.second << "]"; f2 = false; }
            o << "]}";
        }
        o << "]}"; first = false;
    }
    o << "]\n}\n";
    o.close();
    rename((out + ".tmp").c_str(), out.c_str());
}

static void runPath(StateP s) {
    try {
        while (!s->done) {
            step(*s);
            if ((s->steps & 0xfff) == 0 && now() - gT0 > optTime) { incomplete("time limit"); throw PathEnd(); }
        }
    } catch (PathEnd&) {
    } catch (std::runtime_error& e) {
        incomplete(Str("unsupported: ") + e.what() + " in " + (s->fr.empty() ? "?" : s->fr.back().fi->pretty.substr(0, 120)));
    }
    gPaths++;
}

struct Args { Str bc, entry, out; };
static void* mainThread(void* ap) {
    Args& a = *(Args*)ap;
    LLVMContext C;
    SMDiagnostic err;
    auto mod = parseIRFile(a.bc, err, C);
    if (!mod) { std::cerr << "cannot parse " << a.bc << "\n"; _exit(3); }
    M = mod.get();
    DL = &M->getDataLayout();
    Function* fn = M->getFunction(a.entry);
    if (!fn || fn->isDeclaration()) { std::cerr << "no entry " << a.entry << "\n"; _exit(3); }
    gT0 = now();
    initBuiltins();
    auto s = std::make_unique<State>();
    // static initialisers first (concrete)
    std::vector<Function*> ctors;
    if (auto* gc = M->getGlobalVariable("llvm.global_ctors"))
        if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer()))
            for (auto& o : ca->operands()) if (auto* f2 = dyn_cast<Function>(cast<ConstantStruct>(o)->getOperand(1)->stripPointerCasts())) ctors.push_back(f2);
    for (auto* c : ctors) {
        auto t = std::make_unique<State>(*s);
        pushCall(*t, c, {});
        bool ok = true;
        try { while (!t->done) step(*t); } catch (PathEnd&) { ok = false; } catch (std::runtime_error& e) { ok = false; if (gDebug) std::cerr << "ctor: " << e.what() << "\n"; }
        gWork.clear();
        if (ok) { t->fr.clear(); t->done = false; t->steps = 0; s = std::move(t); }
        else gTrusted.insert("static initialiser skipped: " + demangle(c->getName().str()));
    }
    gIncomplete.clear(); gObl.clear(); gFails.clear(); gFuncs.clear(); gUnknownObl.clear();
    s->fr.clear();
    pushCall(*s, fn, {});
    gWork.push_back(std::move(s));
    double lastOut = now();
    while (!gWork.empty()) {
        StateP t = std::move(gWork.back());
        gWork.pop_back();
        runPath(std::move(t));
        if (now() - gT0 > optTime) { if (!gWork.empty()) incomplete("time limit"); break; }
        if (gPaths > optMaxPaths) { incomplete("path limit"); break; }
        if (nodeCount() > optMaxNodes) { incomplete("memory limit"); break; }
        if (now() - lastOut > 20) { writeOut(a.out + ".partial", a.entry); lastOut = now(); if (gDebug) std::cerr << "paths " << gPaths << " work " << gWork.size() << " queries " << gStats.queries << " nodes " << nodeCount() << "\n"; }
    }
    writeOut(a.out, a.entry);
    unlink((a.out + ".partial").c_str());
    std::cout << a.entry << ": paths " << gPaths << ", obligations " << gObl.size() << ", failures " << gFails.size() << ", undecided " << gUnknownObl.size() << ", incomplete " << gIncomplete.size() << ", queries " << gStats.queries << ", " << now() - gT0 << "s\n";
    std::cout.flush();
    _exit(0);
}
int main(int argc, char** argv) {
    static Args a;
    std::vector<Str> pos;
    for (int i = 1; i < argc; i++) {
        Str x = argv[i];
        auto val = [&](const char* k) -> const char* { size_t n = strlen(k); return x.compare(0, n, k) == 0 ? x.c_str() + n : nullptr; };
        if (auto* v = val("--unroll=")) optUnroll = atoi(v);
        else if (auto* v = val("--time=")) optTime = atof(v);
        else if (auto* v = val("--max-paths=")) optMaxPaths = atoll(v);
        else if (auto* v = val("--tmp=")) gTmpDir = v;
        else if (auto* v = val("--shard=")) { sscanf(v, "%d/%d", &optShard, &optShards); }
        else if (auto* v = val("--feas-ms=")) gFeasTimeoutMs = atoi(v);
        else if (auto* v = val("--obl-ms=")) gOblTimeoutMs = atoi(v);
        else if (auto* v = val("--ext-s=")) gExtTimeoutS = atoi(v);
        else if (x == "--debug") gDebug = true;
        else pos.push_back(x);
    }
    if (pos.size() != 3) { std::cerr << "usage: vpexec module.bc entry out.json [options]\n"; return 2; }
    a.bc = pos[0]; a.entry = pos[1]; a.out = pos[2];
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, (size_t)2 << 30);
    pthread_t t;
    if (pthread_create(&t, &at, mainThread, &a)) { std::cerr << "thread\n"; return 2; }
    pthread_join(t, nullptr);
    return 0;
}
