// Library model: allocation, memory intrinsics, exception ABI, the contract API.
typedef std::function<void(State&, Instruction*, Function*, std::vector<Val>&)> Builtin;
static std::unordered_map<Str, Builtin> gBuiltins;
static bool gKeepMessages = false;

static void doCopy(State& s, Instruction* I, const Val& d, const Val& src, E n, const char* what) {
    if (isC(n) && cval(n) == 0) return;
    access(s, I, src, n, false, what);
    access(s, I, d, n, true, what);
    if (d.obj <= 0 || src.obj <= 0) return;      // n == 0 on this path
    Content sc = getObj(s, src.obj).c;
    contentCopy(mutObj(s, d.obj).c, d.e, sc, src.e, n);
}
static void doFill(State& s, Instruction* I, const Val& d, E b, E n) {
    if (isC(n) && cval(n) == 0) return;
    access(s, I, d, n, true, "memset");
    if (d.obj <= 0) return;
    contentFill(mutObj(s, d.obj).c, d.e, b, n);
}
static E to64(E e) { return e->width < 64 ? mkZExt(e, 64) : (e->width > 64 ? mkTrunc(e, 64) : e); }

static void doNew(State& s, Instruction* I, E n, int kind, bool nothrow) {
    if (kind != 3 || !isC(n)) {
        E big = mkUlt(c64(1ull << 47), n);
        if (decide(s, big)) {
            if (nothrow || kind == 3) { finishCall(s, Val::P(0, c64(0))); return; }
            throwBuiltin(s, "_ZTISt9bad_alloc");
            return;
        }
    }
    int id = newObj(s, OK::Heap, n, "heap");
    s.mem[id]->newKind = (uint8_t)kind;
    finishCall(s, Val::P(id, c64(0)));
}
static void doDelete(State& s, Instruction* I, const Val& p, int kind, E size) {
    if (p.obj == 0) {
        if (!check(s, I, mkEq(p.e, c64(0)), "memory", "free of a pointer that was not allocated")) throw PathEnd();
        finishCall(s, Val()); return;
    }
    if (p.obj < 0) fail(s, I, "memory", "free of a function");
    Obj& o = getObj(s, p.obj);
    if (o.kind != OK::Heap) fail(s, I, "memory", "free of memory that is not heap memory");
    if (!o.alive) fail(s, I, "memory", "double free");
    if (!check(s, I, mkEq(p.e, c64(0)), "memory", "free of an interior pointer")) throw PathEnd();
    if (o.newKind != kind) fail(s, I, "memory", "mismatched allocation and deallocation functions");
    if (size) if (!check(s, I, mkEq(size, o.size), "memory", "sized deallocation with the wrong size")) throw PathEnd();
    Obj& m = mutObj(s, p.obj);
    m.alive = false;
    m.c.cells.clear();
    finishCall(s, Val());
}
// comparison of n bytes, result as int with sign
static void doMemcmp(State& s, Instruction* I, const Val& a, const Val& b, E n) {
    if (isC(n) && cval(n) == 0) { finishCall(s, Val::I(mkConst(32, 0))); return; }
    access(s, I, a, n, false, "memcmp");
    access(s, I, b, n, false, "memcmp");
    if (a.obj <= 0 || b.obj <= 0) { finishCall(s, Val::I(mkConst(32, 0))); return; }
    if (isC(n) && cval(n) <= 64) {
        E r = mkConst(32, 0);
        for (uint64_t i = cval(n); i-- > 0;) {
            E x = byteAt(s, a, c64(i)), y = byteAt(s, b, c64(i));
            r = mkIte(mkEq(x, y), r, mkIte(mkUlt(x, y), mkConst(32, (uint32_t)-1), mkConst(32, 1)));
        }
        finishCall(s, Val::I(r));
        return;
    }
    // equal everywhere, or first difference at a fresh index
    E d = mkVar(64, "memcmp!" + std::to_string(s.symCount));
    E same = mkVar(1, "memcmpeq!" + std::to_string(s.symCount));
    if (decide(s, mkEq(n, c64(0)))) { finishCall(s, Val::I(mkConst(32, 0))); return; }
    bool eq = decide(s, same);
    Forall f;
    f.a = getObj(s, a.obj).c; f.aOff = a.e; f.b = getObj(s, b.obj).c; f.bOff = b.e; f.n = eq ? n : d; f.neq = false; f.byte = nullptr;
    s.symCount++;
    gTrusted.insert("memcmp: ISO C contract (equal everywhere, or ordered by the first differing byte)");
    if (eq) { addForall(s, f); instForall(s, f, c64(0)); finishCall(s, Val::I(mkConst(32, 0))); return; }
    if (!assume(s, mkUlt(d, n))) throw PathEnd();
    E x = byteAt(s, a, d), y = byteAt(s, b, d);
    if (!assume(s, mkNot(mkEq(x, y)))) throw PathEnd();
    addForall(s, f);
    addGhost(s, mkAdd(a.e, d));
    finishCall(s, Val::I(mkIte(mkUlt(x, y), mkConst(32, (uint32_t)-1), mkConst(32, 1))));
}
// first occurrence of byte ch in [p, p + limit) (limit null: there must be one): a fresh index d with "for all t < d: p[t] != ch"
static bool bigSearch(State& s, const Val& p, E limit) {
    if (p.obj <= 0) return false;
    const Obj& o = getObj(s, p.obj);
    if (isC(o.size) && cval(o.size) <= 64) return false;
    if (limit && isC(limit) && cval(limit) <= 64) return false;
    return !isC(byteAt(s, p, c64(0)));
}
static E searchByte(State& s, Instruction* I, const Val& p, E ch, E limit, const char* what) { // null: not found within limit
    access(s, I, p, limit ? mkIte(mkEq(limit, c64(0)), c64(0), c64(1)) : c64(1), false, what);
    E rem = mkSub(getObj(s, p.obj).size, p.e);
    E d = mkVar(64, Str(what) + "!" + std::to_string(s.symCount));
    E sel = mkVar(2, Str(what) + "?" + std::to_string(s.symCount)); // a fork runs this again: count up after the decisions
    gTrusted.insert(Str(what) + ": ISO C contract (index of the first matching byte)");
    Forall f;
    f.a = getObj(s, p.obj).c; f.aOff = p.e; f.b = f.a; f.bOff = nullptr; f.neq = true; f.byte = ch;
    const bool found = decide(s, mkEq(sel, mkConst(2, 0)));
    const bool absent = !found && limit && decide(s, mkEq(sel, mkConst(2, 1)));
    s.symCount++;
    if (found) {
        if (!assume(s, mkUlt(d, rem)) || (limit && !assume(s, mkUlt(d, limit)))) throw PathEnd();
        if (!assume(s, mkEq(byteAt(s, p, d), ch))) throw PathEnd();
        f.n = d; addForall(s, f); addGhost(s, mkAdd(p.e, d)); instForall(s, f, c64(0));
        return d;
    }
    if (absent) {
        if (!assume(s, mkUle(limit, rem))) throw PathEnd();
        f.n = limit; addForall(s, f); instForall(s, f, c64(0));
        return nullptr;
    }
    if (limit && !assume(s, mkUlt(rem, limit))) throw PathEnd();
    f.n = rem; addForall(s, f); instForall(s, f, c64(0)); instForall(s, f, mkSub(rem, c64(1)));
    fail(s, I, "memory", Str("out of bounds read (") + what + ")");
    return nullptr;
}
static bool zeroNear(State& s, const Val& p) { // a byte known to be zero is close
    if (p.obj <= 0 || !isC(p.e) || !isC(getObj(s, p.obj).size)) return false;
    const uint64_t room = cval(getObj(s, p.obj).size);
    for (uint64_t i = 0; i < 32 && cval(p.e) + i < room; i++) {
        E b = byteAt(s, p, c64(i));
        if (isC(b) && cval(b) == 0) return true;
    }
    return false;
}
static void doStrlen(State& s, Instruction* I, const Val& p, E limit) {
    if (bigSearch(s, p, limit) && (limit || !zeroNear(s, p))) {
        E r = searchByte(s, I, p, mkConst(8, 0), limit, limit ? "strnlen" : "strlen");
        finishCall(s, Val::I(r ? r : limit));
        return;
    }
    // walk, forking on each byte; bounded by the object
    for (uint64_t i = 0;; i++) {
        if (limit && decide(s, mkEq(limit, c64(i)))) { finishCall(s, Val::I(limit)); return; }
        access(s, I, Val::P(p.obj, mkAdd(p.e, c64(i))), c64(1), false, "strlen");
        if (p.obj <= 0) throw PathEnd();
        E b = byteAt(s, p, c64(i));
        if (decide(s, mkEq(b, mkConst(8, 0)))) { finishCall(s, Val::I(c64(i))); return; }
        if (i > 1200) { incomplete("strlen bound"); throw PathEnd(); }
    }
}
static void doStrcmp(State& s, Instruction* I, const Val& p, const Val& q) {
    for (uint64_t i = 0;; i++) {
        access(s, I, Val::P(p.obj, mkAdd(p.e, c64(i))), c64(1), false, "strcmp");
        access(s, I, Val::P(q.obj, mkAdd(q.e, c64(i))), c64(1), false, "strcmp");
        if (p.obj <= 0 || q.obj <= 0) throw PathEnd();
        E a = byteAt(s, p, c64(i)), b = byteAt(s, q, c64(i));
        if (!decide(s, mkEq(a, b))) { finishCall(s, Val::I(mkIte(mkUlt(a, b), mkConst(32, 0xFFFFFFFFu), mkConst(32, 1)))); return; }
        if (decide(s, mkEq(a, mkConst(8, 0)))) { finishCall(s, Val::I(mkConst(32, 0))); return; }
        if (i > 1200) { incomplete("strcmp bound"); throw PathEnd(); }
    }
}
static void doMemchr(State& s, Instruction* I, const Val& p, E c, E n) {
    E ch = mkTrunc(c, 8);
    if (isC(n) && cval(n) == 0) { finishCall(s, Val::P(0, c64(0))); return; }
    if (bigSearch(s, p, n)) {
        E r = searchByte(s, I, p, ch, n, "memchr");
        finishCall(s, r ? Val::P(p.obj, mkAdd(p.e, r)) : Val::P(0, c64(0)));
        return;
    }
    for (uint64_t i = 0;; i++) {
        if (decide(s, mkEq(n, c64(i)))) { finishCall(s, Val::P(0, c64(0))); return; }
        access(s, I, Val::P(p.obj, mkAdd(p.e, c64(i))), c64(1), false, "memchr");
        if (p.obj <= 0) throw PathEnd();
        if (decide(s, mkEq(byteAt(s, p, c64(i)), ch))) { finishCall(s, Val::P(p.obj, mkAdd(p.e, c64(i)))); return; }
        if (i > (uint64_t)optUnroll) { incomplete("memchr bound"); throw PathEnd(); }
    }
}
static Str nondetName(State& s, const Str& n, int& occ) { occ = s.occ[n]++; return n + "#" + std::to_string(occ); }

static void initBuiltins() {
    if (M->getFunction("vp_keep_messages")) gKeepMessages = true;
    auto B = [&](const char* n, Builtin b) { gBuiltins[n] = b; };
    // ---- contract API
    auto nd = [](unsigned w) {
        return [w](State& s, Instruction* I, Function*, std::vector<Val>& a) {
            Str n = readCStr(s, a[0]); int occ;
            Str nm = nondetName(s, n, occ);
            E e = mkVar(w, nm);
            s.nondets.push_back({n, occ, e});
            finishCall(s, Val::I(e));
        };
    };
    B("vp_u8", nd(8)); B("vp_u16", nd(16)); B("vp_u32", nd(32)); B("vp_u64", nd(64)); 
    B("vp_uint", [](State& s, Instruction* I, Function*, std::vector<Val>& a) {
        Str n = readCStr(s, a[0]); int occ;
        Str nm = nondetName(s, n, occ);
        unsigned w = (unsigned)cval(a[1].e);
        E e = mkZExt(mkVar(w, nm), 64);
        s.nondets.push_back({n, occ, e});
        finishCall(s, Val::I(e));
    });
    B("vp_assume_", [](State& s, Instruction* I, Function*, std::vector<Val>& a) {
        E c = a[0].e; if (c->width != 1) c = mkNot(mkEq(c, mkConst(c->width, 0)));
        if (!assume(s, c)) throw PathEnd();
        finishCall(s, Val());
    });
    B("vp_assert_", [](State& s, Instruction* I, Function*, std::vector<Val>& a) {
        E c = a[0].e; if (c->width != 1) c = mkNot(mkEq(c, mkConst(c->width, 0)));
        if (!check(s, I, c, "contract", readCStr(s, a[1]))) throw PathEnd();
        finishCall(s, Val());
    });
    B("vp_cover_", [](State& s, Instruction* I, Function*, std::vector<Val>& a) {
        Str n = readCStr(s, a[0]);
        gCovers[n] += s.modelOk ? 1 : 0;
        finishCall(s, Val());
    });
    B("vp_bound_", [](State& s, Instruction* I, Function*, std::vector<Val>& a) { gBounds.insert(readCStr(s, a[0])); finishCall(s, Val()); });
    B("vp_buffer", [](State& s, Instruction* I, Function*, std::vector<Val>& a) {
        Str n = readCStr(s, a[0]); int occ;
        Str nm = nondetName(s, n, occ);
        uint32_t sym = symOf("buf!" + nm);
        int id = newObj(s, OK::Buffer, a[1].e, nm, mkBase(Chain::Arr, sym));
        s.bufs.push_back({nm, id, sym, a[1].e});
        finishCall(s, Val::P(id, c64(0)));
    });
    B("vp_byte", [](State& s, Instruction* I, Function*, std::vector<Val>& a) { // initial content
        Str n = readCStr(s, a[0]);
        finishCall(s, Val::I(mkSel(symOf("buf!" + n + "#0"), a[1].e)));
    });
    B("vp_split", [](State& s, Instruction* I, Function*, std::vector<Val>& a) {
        if (!isC(a[1].e) || !isC(a[2].e)) throw std::runtime_error("vp_split bounds");
        uint64_t lo = cval(a[1].e), hi = cval(a[2].e);
        for (uint64_t k = lo; k <= hi; k++)
            if (decide(s, mkEq(a[0].e, c64(k)))) { finishCall(s, Val::I(c64(k))); return; }
        fail(s, I, "contract", "vp_split: value outside the split range");
    });
    B("vp_shard", [](State& s, Instruction* I, Function*, std::vector<Val>& a) {
        uint64_t lo = cval(a[1].e), hi = cval(a[2].e);
        for (uint64_t k = lo; k <= hi; k++) {
            if ((int)(k % (uint64_t)optShards) != optShard) continue;
            if (decide(s, mkEq(a[0].e, c64(k)))) { finishCall(s, Val::I(c64(k))); return; }
        }
        // belongs to another shard, or outside the range
        E in = mkAnd(mkUle(c64(lo), a[0].e), mkUle(a[0].e, c64(hi)));
        if (!check(s, I, in, "contract", "vp_shard: value outside the split range")) throw PathEnd();
        throw PathEnd();
    });
    B("vp_ghost", [](State& s, Instruction* I, Function*, std::vector<Val>& a) { addGhost(s, a[0].e); finishCall(s, Val()); });
    B("vp_alive", [](State& s, Instruction* I, Function*, std::vector<Val>& a) {
        // number of live heap objects
        uint64_t n = 0;
        for (auto& kv : s.mem) if (kv.second->kind == OK::Heap && kv.second->alive) n++;
        finishCall(s, Val::I(c64(n)));
    });
    B("vp_real_", [](State& s, Instruction* I, Function*, std::vector<Val>& a) { finishCall(s, Val::I(mkConst(32, 0))); });
    B("vp_same_object", [](State& s, Instruction* I, Function*, std::vector<Val>& a) { finishCall(s, Val::I(mkConst(8, a[0].obj == a[1].obj && a[0].obj > 0))); });
    B("_ZNKSt9type_infoeqERKS_", [](State& s, Instruction* I, Function*, std::vector<Val>& a) {
        if (a[0].obj <= 0 || a[1].obj <= 0) { incomplete("type_info of an unknown object"); throw PathEnd(); }
        gTrusted.insert("std::type_info: one object per type");
        finishCall(s, Val::I(mkConst(1, a[0].obj == a[1].obj)));
    });
    B("vp_debug", [](State& s, Instruction* I, Function*, std::vector<Val>& a) { std::cerr << "DEBUG " << readCStr(s, a[0]) << " " << show(a[1].e, 12) << "\n"; finishCall(s, Val()); });
    // ---- allocation
    auto mk = [](int kind, bool nt) { return [kind, nt](State& s, Instruction* I, Function*, std::vector<Val>& a) { doNew(s, I, a[0].e, kind, nt); }; };
    B("_Znwm", mk(1, false)); B("_Znam", mk(2, false)); B("malloc", mk(3, true));
    B("_ZnwmRKSt9nothrow_t", mk(1, true)); B("_ZnamRKSt9nothrow_t", mk(2, true));
    B("_ZnwmSt11align_val_t", mk(4, false));
    auto dl = [](int kind, bool sized) { return [kind, sized](State& s, Instruction* I, Function*, std::vector<Val>& a) { doDelete(s, I, a[0], kind, sized ? a[1].e : nullptr); }; };
    B("_ZdlPv", dl(1, false)); B("_ZdlPvm", dl(1, true)); B("_ZdaPv", dl(2, false)); B("_ZdaPvm", dl(2, true)); B("free", dl(3, false));
    B("_ZdlPvSt11align_val_t", dl(4, false)); B("_ZdlPvmSt11align_val_t", dl(4, true));
    // ---- memory functions
    auto cpy = [](State& s, Instruction* I, Function*, std::vector<Val>& a) { doCopy(s, I, a[0], a[1], to64(a[2].e), "memcpy"); finishCall(s, a[0]); };
    B("memcpy", cpy); B("memmove", cpy);
    B("memset", [](State& s, Instruction* I, Function*, std::vector<Val>& a) { doFill(s, I, a[0], mkTrunc(a[1].e, 8), to64(a[2].e)); finishCall(s, a[0]); });
    B("memcmp", [](State& s, Instruction* I, Function*, std::vector<Val>& a) { doMemcmp(s, I, a[0], a[1], a[2].e); });
    B("bcmp", [](State& s, Instruction* I, Function*, std::vector<Val>& a) { doMemcmp(s, I, a[0], a[1], a[2].e); });
    B("strlen", [](State& s, Instruction* I, Function*, std::vector<Val>& a) { doStrlen(s, I, a[0], nullptr); });
    B("strnlen", [](State& s, Instruction* I, Function*, std::vector<Val>& a) { doStrlen(s, I, a[0], a[1].e); });
    B("strcmp", [](State& s, Instruction* I, Function*, std::vector<Val>& a) { doStrcmp(s, I, a[0], a[1]); });
    B("memchr", [](State& s, Instruction* I, Function*, std::vector<Val>& a) { doMemchr(s, I, a[0], a[1].e, a[2].e); });
    // ---- std throw helpers
    for (auto& p : std::vector<std::pair<const char*, const char*>>{
             {"_ZSt17__throw_bad_allocv", "_ZTISt9bad_alloc"}, {"_ZSt28__throw_bad_array_new_lengthv", "_ZTISt20bad_array_new_length"},
             {"_ZSt20__throw_length_errorPKc", "_ZTISt12length_error"}, {"_ZSt19__throw_logic_errorPKc", "_ZTISt11logic_error"},
             {"_ZSt20__throw_out_of_rangePKc", "_ZTISt12out_of_range"}, {"_ZSt24__throw_out_of_range_fmtPKcz", "_ZTISt12out_of_range"},
             {"_ZSt24__throw_invalid_argumentPKc", "_ZTISt16invalid_argument"}, {"_ZSt16__throw_bad_castv", "_ZTISt8bad_cast"},
             {"_ZSt25__throw_bad_function_callv", "_ZTISt17bad_function_call"}, {"_ZSt21__throw_runtime_errorPKc", "_ZTISt13runtime_error"},
             {"__cxa_throw_bad_array_new_length", "_ZTISt20bad_array_new_length"}})  {
        Str ti = p.second;
        B(p.first, [ti](State& s, Instruction*, Function*, std::vector<Val>&) { throwBuiltin(s, ti); });
    }
    // ---- exception ABI
    B("__cxa_allocate_exception", [](State& s, Instruction* I, Function*, std::vector<Val>& a) {
        int id = newObj(s, OK::Exc, a[0].e, "exception");
        finishCall(s, Val::P(id, c64(0)));
    });
    B("__cxa_free_exception", [](State& s, Instruction* I, Function*, std::vector<Val>& a) { s.mem.erase(a[0].obj); finishCall(s, Val()); });
    B("__cxa_throw", [](State& s, Instruction* I, Function*, std::vector<Val>& a) {
        auto ex = std::make_shared<ExcRec>();
        ex->obj = a[0].obj;
        ex->ti = a[1].obj > 0 ? gGlobs[a[1].obj - 1]->getName().str() : "?";
        ex->dtor = a[2];
        s.excs[ex->obj] = ex;
        unwind(s, ex->obj);
    });
    B("__cxa_begin_catch", [](State& s, Instruction* I, Function*, std::vector<Val>& a) {
        int id = a[0].obj;
        auto ex = std::make_shared<ExcRec>(*s.excs.at(id));
        ex->handlers++;
        ex->rethrown = false;
        s.excs[id] = ex;
        for (auto& x : s.caught) if (x->obj == id) x = ex;
        s.caught.push_back(ex);
        finishCall(s, Val::P(id, c64(0)));
    });
    B("__cxa_get_exception_ptr", [](State& s, Instruction* I, Function*, std::vector<Val>& a) { finishCall(s, a[0]); });
    B("__cxa_end_catch", [](State& s, Instruction* I, Function*, std::vector<Val>& a) {
        if (s.caught.empty()) { finishCall(s, Val()); return; }
        auto ex0 = s.caught.back();
        s.caught.pop_back();
        auto ex = std::make_shared<ExcRec>(*s.excs.at(ex0->obj));
        ex->handlers--;
        s.excs[ex->obj] = ex;
        if (ex->handlers > 0 || ex->rethrown) { finishCall(s, Val()); return; }
        if (ex->dtor.k == Val::Ptr && ex->dtor.obj < 0) {
            Function* d = gFns[-ex->dtor.obj - 1];
            if (!d->isDeclaration()) {
                pushCall(s, d, {Val::P(ex->obj, c64(0))});
                s.fr.back().acts.push_back({1, ex->obj});
                return;
            }
        }
        s.mem.erase(ex->obj); s.excs.erase(ex->obj);
        finishCall(s, Val());
    });
    B("__cxa_rethrow", [](State& s, Instruction* I, Function*, std::vector<Val>& a) {
        if (s.caught.empty()) fail(s, I, "exception", "rethrow without exception");
        auto ex = std::make_shared<ExcRec>(*s.excs.at(s.caught.back()->obj));
        ex->rethrown = true;
        s.excs[ex->obj] = ex;
        unwind(s, ex->obj);
    });
    B("__cxa_init_primary_exception", [](State& s, Instruction* I, Function*, std::vector<Val>& a) { throw std::runtime_error("exception_ptr"); });
    auto term = [](State& s, Instruction* I, Function*, std::vector<Val>&) { fail(s, I, "exception", "std::terminate called"); };
    B("__clang_call_terminate", term); B("_ZSt9terminatev", term); B("abort", term); B("exit", term);
    B("__cxa_pure_virtual", term);
    B("_ZSt21__glibcxx_assert_failPKciS0_S0_", [](State& s, Instruction* I, Function*, std::vector<Val>& a) { fail(s, I, "ub", "library precondition: " + readCStr(s, a[3])); });
    B("__cxa_guard_acquire", [](State& s, Instruction* I, Function*, std::vector<Val>& a) {
        E b = contentByte(getObj(s, a[0].obj).c, a[0].e);
        finishCall(s, Val::I(isC(b) && b->k == 0 ? mkConst(32, 1) : mkConst(32, 0)));
    });
    B("__cxa_guard_release", [](State& s, Instruction* I, Function*, std::vector<Val>& a) { contentStore(mutObj(s, a[0].obj).c, a[0].e, 1, Val::I(mkConst(8, 1))); finishCall(s, Val()); });
    B("__cxa_guard_abort", [](State& s, Instruction* I, Function*, std::vector<Val>& a) { finishCall(s, Val()); });
    B("__cxa_atexit", [](State& s, Instruction* I, Function*, std::vector<Val>& a) { finishCall(s, Val::I(mkConst(32, 0))); });
    B("_ZSt18uncaught_exceptionv", [](State& s, Instruction* I, Function*, std::vector<Val>& a) { finishCall(s, Val::I(mkConst(1, 0))); });
    for (auto n : {"_ZNSt9exceptionD2Ev", "_ZNSt9exceptionD1Ev", "_ZNSt11logic_errorD2Ev", "_ZNSt13runtime_errorD2Ev", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev"})
        B(n, [](State& s, Instruction* I, Function*, std::vector<Val>& a) { finishCall(s, Val()); });
    B("abs", [](State& s, Instruction* I, Function*, std::vector<Val>& a) {
        E x = a[0].e; finishCall(s, Val::I(mkIte(mkSlt(x, mkConst(32, 0)), mkNeg(x), x)));
    });
}
static E bitScan(E x, bool lead) {
    unsigned w = x->width;
    E r = mkConst(w, w);
    if (lead) { for (unsigned i = 0; i < w; i++) r = mkIte(mkEq(mkExtract(x, i, i), mkConst(1, 1)), mkConst(w, w - 1 - i), r); }
    else { for (unsigned i = w; i-- > 0;) r = mkIte(mkEq(mkExtract(x, i, i), mkConst(1, 1)), mkConst(w, i), r); }
    return r;
}
static bool doIntrinsic(State& s, Instruction* I, Function* fn, std::vector<Val>& a) {
    auto id = fn->getIntrinsicID();
    auto ret = [&](const Val& v) { finishCall(s, v); return true; };
    auto reti = [&](E e) { finishCall(s, Val::I(e)); return true; };
    switch (id) {
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::donothing:
    case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_end: case Intrinsic::stackrestore: case Intrinsic::prefetch: case Intrinsic::var_annotation:
        return ret(Val());
    case Intrinsic::stacksave: return ret(Val::P(0, c64(0)));
    case Intrinsic::invariant_start: return ret(Val::P(0, c64(0)));
    case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::ptr_annotation:
        return ret(a[0]);
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline:
        doCopy(s, I, a[0], a[1], to64(a[2].e), id == Intrinsic::memmove ? "memmove" : "memcpy"); return ret(Val());
    case Intrinsic::memset: doFill(s, I, a[0], a[1].e, to64(a[2].e)); return ret(Val());
    case Intrinsic::trap: fail(s, I, "ub", "trap"); return true;
    case Intrinsic::ubsantrap: fail(s, I, "ub", "undefined behaviour check"); return true;
    case Intrinsic::eh_typeid_for: {
        Str n = isa<ConstantPointerNull>(cast<CallBase>(I)->getArgOperand(0)) ? "" : cast<CallBase>(I)->getArgOperand(0)->stripPointerCasts()->getName().str();
        return reti(mkConst(32, (uint32_t)tiId(n))); }
    case Intrinsic::objectsize: return reti(mkConst(I->getType()->getIntegerBitWidth(), cval(a[1].e) ? 0 : ~(u128)0));
    case Intrinsic::is_constant: return reti(mkBool(false));
    case Intrinsic::uadd_with_overflow: { E r = mkAdd(a[0].e, a[1].e); return ret(Val::A({Val::I(r), Val::I(mkUlt(r, a[0].e))})); }
    case Intrinsic::usub_with_overflow: { return ret(Val::A({Val::I(mkSub(a[0].e, a[1].e)), Val::I(mkUlt(a[0].e, a[1].e))})); }
    case Intrinsic::umul_with_overflow: {
        unsigned w = a[0].e->width;
        E r = mkMul(mkZExt(a[0].e, 2 * w), mkZExt(a[1].e, 2 * w));
        return ret(Val::A({Val::I(mkTrunc(r, w)), Val::I(mkNot(mkEq(mkExtract(r, 2 * w - 1, w), mkConst(w, 0))))})); }
    case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: {
        unsigned w = a[0].e->width;
        {
            E p = a[0].e, q = a[1].e;
            const u128 half = (u128)1 << (w - 1);
            const bool isAdd = id == Intrinsic::sadd_with_overflow;
            E r = isAdd ? mkAdd(p, q) : mkSub(p, q);
            if (!isAdd && isC(p) && p->k == 0) return ret(Val::A({Val::I(r), Val::I(q->umax < half ? mkBool(false) : mkEq(q, mkConst(w, half)))}));
            if (p->umax < half && q->umax < half && (!isAdd || p->umax + q->umax < half)) return ret(Val::A({Val::I(r), Val::I(mkBool(false))}));
        }
        E x = mkSExt(a[0].e, w + 1), y = mkSExt(a[1].e, w + 1);
        E r = id == Intrinsic::sadd_with_overflow ? mkAdd(x, y) : mkSub(x, y);
        return ret(Val::A({Val::I(mkTrunc(r, w)), Val::I(mkNot(mkEq(mkExtract(r, w, w), mkExtract(r, w - 1, w - 1))))})); }
    case Intrinsic::smul_with_overflow: {
        unsigned w = a[0].e->width;
        if (w > 64) throw std::runtime_error("smul width");
        E r = mkMul(mkSExt(a[0].e, 2 * w), mkSExt(a[1].e, 2 * w));
        E t = mkTrunc(r, w);
        return ret(Val::A({Val::I(t), Val::I(mkNot(mkEq(mkSExt(t, 2 * w), r)))})); }
    case Intrinsic::usub_sat: return reti(mkIte(mkUlt(a[0].e, a[1].e), mkConst(a[0].e->width, 0), mkSub(a[0].e, a[1].e)));
    case Intrinsic::uadd_sat: { E r = mkAdd(a[0].e, a[1].e); return reti(mkIte(mkUlt(r, a[0].e), mkConst(r->width, maskOf(r->width)), r)); }
    case Intrinsic::umax: return reti(mkIte(mkUlt(a[0].e, a[1].e), a[1].e, a[0].e));
    case Intrinsic::umin: return reti(mkIte(mkUlt(a[1].e, a[0].e), a[1].e, a[0].e));
    case Intrinsic::smax: return reti(mkIte(mkSlt(a[0].e, a[1].e), a[1].e, a[0].e));
    case Intrinsic::smin: return reti(mkIte(mkSlt(a[1].e, a[0].e), a[1].e, a[0].e));
    case Intrinsic::abs: return reti(mkIte(mkSlt(a[0].e, mkConst(a[0].e->width, 0)), mkNeg(a[0].e), a[0].e));
    case Intrinsic::fabs: { E x = a[0].e; return reti(mkAnd(x, mkConst(x->width, maskOf(x->width - 1)))); }
    case Intrinsic::ctpop: { E x = a[0].e; unsigned w = x->width; E r = mkConst(w, 0); for (unsigned i = 0; i < w; i++) r = mkAdd(r, mkZExt(mkExtract(x, i, i), w)); return reti(r); }
    case Intrinsic::ctlz: return reti(bitScan(a[0].e, true));
    case Intrinsic::cttz: return reti(bitScan(a[0].e, false));
    case Intrinsic::bswap: { E x = a[0].e; E r = nullptr; for (unsigned i = 0; i < x->width; i += 8) { E b = mkExtract(x, i + 7, i); r = r ? mkConcat(r, b) : b; } return reti(r); }
    case Intrinsic::fshl: case Intrinsic::fshr: {
        E x = a[0].e, y = a[1].e, n = a[2].e; unsigned w = x->width;
        n = mkBin(Op::URem, n, mkConst(w, w));
        E inv = mkSub(mkConst(w, w), n), z = mkEq(n, mkConst(w, 0));
        if (id == Intrinsic::fshl) return reti(mkIte(z, x, mkOr(mkBin(Op::Shl, x, n), mkBin(Op::LShr, y, inv))));
        return reti(mkIte(z, y, mkOr(mkBin(Op::Shl, x, inv), mkBin(Op::LShr, y, n)))); }
    default: break;
    }
    return false;
}
static bool isMessageOp(const Str& pretty) {
    return pretty.find("zserio::operator<<") != Str::npos && pretty.find("CppRuntimeException") != Str::npos;
}
static void doCall(State& s, Instruction* I, Function* fn, std::vector<Val>& args) {
    if (fn->isIntrinsic()) {
        if (doIntrinsic(s, I, fn, args)) return;
        incomplete("intrinsic " + fn->getName().str()); throw PathEnd();
    }
    Str n = fn->getName().str();
    auto it = gBuiltins.find(n);
    if (it != gBuiltins.end()) { it->second(s, I, fn, args); return; }
    if (!gKeepMessages) {
        static std::unordered_map<const Function*, char> msg;
        auto& m = msg[fn];
        if (!m) {
            Str p = demangle(n);
            m = 1;
            size_t q = p.find("operator<<");
            if (q != Str::npos && p.find("zserio::") < q + 1 && p.find("xception", q) != Str::npos && fn->getReturnType()->isPointerTy()) m = 2;
        }
        if (m == 2) { gReplaced.insert("exception message append (proved under P18): returns its first argument, never throws"); finishCall(s, args[0]); return; }
    }
    // std::copy between byte types of different names (the same-type case is memmove in libstdc++ itself)
    if (n.rfind("_ZNSt11__copy_moveILb0ELb0ESt26random_access_iterator_tagE8__copy_mI", 0) == 0 && args.size() == 3 && args[0].k == Val::Ptr && args[1].k == Val::Ptr && args[2].k == Val::Ptr) {
        static const std::regex re("8__copy_mI(PKc|Pc|PKh|Ph|PKSt4byte|PSt4byte)(Ph|Pc|PSt4byte)EET0_");
        if (args[0].obj > 0 && args[0].obj == args[1].obj && std::regex_search(n, re)) {
            gReplaced.insert("std::copy of single-byte elements: copies [first, last) like memmove");
            E len = mkSub(args[1].e, args[0].e);
            doCopy(s, I, args[2], args[0], len, "std::copy");
            Val r = args[2];
            r.e = mkAdd(r.e, len);
            finishCall(s, r);
            return;
        }
    }
    if (n.rfind("_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcE", 0) == 0 && args.size() == 3 && args[0].k == Val::Ptr && args[1].k == Val::Ptr && args[2].k == Val::Ptr) {
        static const std::regex re("13_S_copy_charsI(PKh|Ph|PKc|Pc)EEvPcT_");
        if (args[1].obj > 0 && args[1].obj == args[2].obj && std::regex_search(n, re)) {
            gReplaced.insert("std::string construction from single-byte elements: copies [first, last) like memmove");
            doCopy(s, I, args[0], args[1], mkSub(args[2].e, args[1].e), "std::copy");
            finishCall(s, Val());
            return;
        }
    }
    // contract replacement
    static std::unordered_map<const Function*, Function*> repl;
    auto ri = repl.find(fn);
    if (ri == repl.end()) ri = repl.emplace(fn, M->getFunction("vp_replace__" + n)).first;
    if (ri->second && !ri->second->isDeclaration()) {
        gReplaced.insert(demangle(n));
        pushCall(s, ri->second, args);
        return;
    }
    if (fn->isDeclaration()) { incomplete("no body or contract for " + demangle(n)); throw PathEnd(); }
    pushCall(s, fn, args);
}
