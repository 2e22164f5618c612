// External functions and intrinsics.
enum ExtRes { XR_OK, X_UNWIND, X_MOVED };
static bool isHooked(Function *) { return false; }
static V bitV(const V &x, unsigned i) { return x_extract(x, i, 1); }
static V ctpopV(const V &x) {
    if (x.isC()) return mkC(__builtin_popcountll((u64)x.c) + __builtin_popcountll((u64)(x.c >> 64)), x.w);
    V r = mkC(0, x.w);
    for (unsigned i = 0; i < x.w; i++) r = x_add(r, x_zext(bitV(x, i), x.w));
    return r;
}
static V ctlzV(const V &x) { V r = mkC(x.w, x.w); for (unsigned i = 0; i < x.w; i++) r = x_ite(bitV(x, i), mkC(x.w - 1 - i, x.w), r); return r; }
static V cttzV(const V &x) { V r = mkC(x.w, x.w); for (int i = x.w - 1; i >= 0; i--) r = x_ite(bitV(x, i), mkC(i, x.w), r); return r; }
static V revV(const V &x, unsigned g) { V r; for (unsigned i = 0; i < x.w; i += g) { V p = x_extract(x, i, g); r = i ? x_concat(r, p) : p; } return r; }
static RV vecMap(const RV &a, const std::function<V(const V &)> &f) {
    if (!a.agg) return scalar(f(a.v));
    std::vector<RV> v; for (auto &x : *a.agg) v.push_back(vecMap(x, f)); return mkAgg(std::move(v));
}
static RV vecMap2(const RV &a, const RV &b, const std::function<V(const V &, const V &)> &f) {
    if (!a.agg) return scalar(f(a.v, b.v));
    std::vector<RV> v; for (size_t i = 0; i < a.agg->size(); i++) v.push_back(vecMap2((*a.agg)[i], (*b.agg)[i], f)); return mkAgg(std::move(v));
}
static void doMemset(State &s, u64 d, const V &val, u64 n) {
    if (!n) return;
    Obj *o = findObj(s, d, true);
    if (!o || d + n > o->base + o->size) throw ViolationEx{"memory", "invalid write (memset)"};
    V b = x_extract(val, 0, 8); u64 off = d - o->base;
    if (b.isC()) {
        memset(&o->c[off], (int)b.c, n);
        if (!o->s.empty()) { if (off == 0 && n == o->size) o->s.clear(); else std::fill(o->s.begin() + off, o->s.begin() + off + n, SymByte{nullptr, 0}); }
        std::fill(o->chunk.begin() + off, o->chunk.begin() + off + n, 0);
        for (u64 i = 0; i + 4 <= n; i += 4) if ((d + i) % 4 == 0) o->chunk[off + i] = 4;
    } else for (u64 i = 0; i < n; i++) storeBytes(o, off + i, b, 1);
}
static ExtRes external(State &s, Function *F, std::vector<RV> &a, const Inst &in, RV &r) {
    StringRef n = F->getName();
    auto V_ = [&](int i) -> const V & { return a[i].v; };
    auto C = [&](int i) -> u64 { return (u64)concrete(s, a[i].v); };
    unsigned w = in.w;
    if (F->isIntrinsic()) {
        switch (F->getIntrinsicID()) {
        case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: doMemcpy(s, C(0), C(1), C(2)); return XR_OK;
        case Intrinsic::memset: case Intrinsic::memset_inline: doMemset(s, C(0), V_(1), C(2)); return XR_OK;
        case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::invariant_end: case Intrinsic::stackrestore: case Intrinsic::prefetch: return XR_OK;
        case Intrinsic::invariant_start: case Intrinsic::stacksave: r = scalar(mkC(0, 64)); return XR_OK;
        // System V va_list: both register areas used up, everything in the overflow area
        case Intrinsic::vastart: {
            Frame &f = s.stack.back(); u64 ap = C(0), area = allocObj(s, f.va.size() * 8 + 8, 's', false, "variadic arguments");
            f.allocas.push_back(area);
            for (size_t i = 0; i < f.va.size(); i++) { const V &x = f.va[i].v; if (f.va[i].agg || x.w > 64) fatal("variadic argument type"); doStore(s, mkC(area + 8 * i, 64), x, (x.w + 7) / 8); }
            doStore(s, mkC(ap, 64), mkC(48, 32), 4); doStore(s, mkC(ap + 4, 64), mkC(176, 32), 4); doStore(s, mkC(ap + 8, 64), mkC(area, 64), 8); doStore(s, mkC(ap + 16, 64), mkC(0, 64), 8);
            return XR_OK; }
        case Intrinsic::vaend: return XR_OK;
        case Intrinsic::vacopy: doMemcpy(s, C(0), C(1), 24); return XR_OK;
        case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address: r = a[0]; return XR_OK;
        case Intrinsic::is_constant: r = scalar(mkC(0, 1)); return XR_OK;
        case Intrinsic::objectsize: r = scalar(mkC(~(u128)0, w)); return XR_OK;
        case Intrinsic::ctpop: r = vecMap(a[0], ctpopV); return XR_OK;
        case Intrinsic::ctlz: r = vecMap(a[0], ctlzV); return XR_OK;
        case Intrinsic::cttz: r = vecMap(a[0], cttzV); return XR_OK;
        case Intrinsic::bswap: r = vecMap(a[0], [](const V &x) { return revV(x, 8); }); return XR_OK;
        case Intrinsic::bitreverse: r = vecMap(a[0], [](const V &x) { return revV(x, 1); }); return XR_OK;
        case Intrinsic::fshl: case Intrinsic::fshr: {
            bool left = F->getIntrinsicID() == Intrinsic::fshl;
            V x = V_(0), y = V_(1), k = V_(2); unsigned ww = x.w;
            if (2 * ww > 128) fatal("fsh width");
            V km = x_zext(x_urem(k, mkC(ww, ww)), 2 * ww);
            V cat = x_concat(x, y);
            r = scalar(left ? x_extract(x_shl(cat, km), ww, ww) : x_extract(x_lshr(cat, km), 0, ww)); return XR_OK; }
        case Intrinsic::umax: r = vecMap2(a[0], a[1], [](const V &x, const V &y) { return x_ite(x_ult(x, y), y, x); }); return XR_OK;
        case Intrinsic::umin: r = vecMap2(a[0], a[1], [](const V &x, const V &y) { return x_ite(x_ult(x, y), x, y); }); return XR_OK;
        case Intrinsic::smax: r = vecMap2(a[0], a[1], [](const V &x, const V &y) { return x_ite(x_slt(x, y), y, x); }); return XR_OK;
        case Intrinsic::smin: r = vecMap2(a[0], a[1], [](const V &x, const V &y) { return x_ite(x_slt(x, y), x, y); }); return XR_OK;
        case Intrinsic::abs: r = vecMap(a[0], [](const V &x) { return x_ite(x_extract(x, x.w - 1, 1), x_sub(mkC(0, x.w), x), x); }); return XR_OK;
        case Intrinsic::usub_sat: r = scalar(x_ite(x_ult(V_(0), V_(1)), mkC(0, w), x_sub(V_(0), V_(1)))); return XR_OK;
        case Intrinsic::uadd_sat: { V q = x_add(V_(0), V_(1)); r = scalar(x_ite(x_ult(q, V_(0)), mkC(~(u128)0, w), q)); return XR_OK; }
        case Intrinsic::uadd_with_overflow: { V q = x_add(V_(0), V_(1)); r = mkAgg({scalar(q), scalar(x_ult(q, V_(0)))}); return XR_OK; }
        case Intrinsic::usub_with_overflow: { r = mkAgg({scalar(x_sub(V_(0), V_(1))), scalar(x_ult(V_(0), V_(1)))}); return XR_OK; }
        case Intrinsic::umul_with_overflow: { unsigned ww = V_(0).w; if (ww > 64) fatal("umulo"); V q = x_mul(x_zext(V_(0), 2 * ww), x_zext(V_(1), 2 * ww)); r = mkAgg({scalar(x_extract(q, 0, ww)), scalar(x_not(x_eq0(x_extract(q, ww, ww))))}); return XR_OK; }
        case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
            unsigned ww = V_(0).w; if (ww > 64) fatal("sov"); V x = x_sext(V_(0), 2 * ww), y = x_sext(V_(1), 2 * ww);
            V q = F->getIntrinsicID() == Intrinsic::sadd_with_overflow ? x_add(x, y) : F->getIntrinsicID() == Intrinsic::ssub_with_overflow ? x_sub(x, y) : x_mul(x, y);
            V lo = x_extract(q, 0, ww); r = mkAgg({scalar(lo), scalar(x_not(x_eq(x_sext(lo, 2 * ww), q)))}); return XR_OK; }
        case Intrinsic::eh_typeid_for: r = scalar(mkC((uint32_t)(C(0) & 0x7fffffff), 32)); return XR_OK;
        case Intrinsic::trap: case Intrinsic::ubsantrap: throw ViolationEx{"trap", "trap"};
        case Intrinsic::fabs: { u128 c = concrete(s, V_(0)); r = scalar(mkC(c & ~((u128)1 << (w - 1)), w)); return XR_OK; }
        case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::log: case Intrinsic::log2: case Intrinsic::sqrt: {
            u64 c = C(0); double d; memcpy(&d, &c, 8);
            auto id = F->getIntrinsicID();
            d = id == Intrinsic::floor ? floor(d) : id == Intrinsic::ceil ? ceil(d) : id == Intrinsic::log ? log(d) : id == Intrinsic::log2 ? log2(d) : sqrt(d);
            memcpy(&c, &d, 8); r = scalar(mkC(c, 64)); return XR_OK; }
        case Intrinsic::fmuladd: case Intrinsic::fma: { double x[3]; for (int i = 0; i < 3; i++) { u64 c = C(i); memcpy(&x[i], &c, 8); } double d = x[0] * x[1] + x[2]; u64 c; memcpy(&c, &d, 8); r = scalar(mkC(c, 64)); return XR_OK; }
        case Intrinsic::vector_reduce_xor: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_add: {
            V q = (*a[0].agg)[0].v; auto id = F->getIntrinsicID();
            for (size_t i = 1; i < a[0].agg->size(); i++) { V y = (*a[0].agg)[i].v; q = id == Intrinsic::vector_reduce_xor ? x_xor(q, y) : id == Intrinsic::vector_reduce_or ? x_or(q, y) : id == Intrinsic::vector_reduce_and ? x_and(q, y) : x_add(q, y); }
            r = scalar(q); return XR_OK; }
        default: fatal("intrinsic " + n.str());
        }
    }
    // ---- harness interface
    if (n.starts_with("sym_")) {
        if (n == "sym_bits") {
            std::string nm = rdStr(s, C(0)); unsigned k = (unsigned)C(1);
            int idx = s.symNo[nm]++;
            auto key = std::make_pair(nm, idx);
            if (!symReg.count(key)) symReg[key] = x_sym(nm + "#" + std::to_string(idx), k);
            V v = symReg[key];
            s.inputs.push_back({nm + "#" + std::to_string(idx), v});
            r = scalar(x_zext(v, 64)); return XR_OK;
        }
        if (n == "sym_assume") {
            V c = V_(0); if (c.w != 1) c = x_not(x_eq0(c));
            if (c.isC()) { if (!c.c) { st.infeasible++; throw PathEnd{}; } return XR_OK; }
            std::shared_ptr<Model> m;
            if (check(s, c, m) != SAT) { st.infeasible++; throw PathEnd{}; }
            assume(s, c, m); return XR_OK;
        }
        if (n == "sym_assert") { V c = V_(0); if (c.w != 1) c = x_not(x_eq0(c)); doAssert(s, c, rdStr(s, C(1))); return XR_OK; }
        if (n == "sym_reach") { reached[rdStr(s, C(0))]++; return XR_OK; }
        if (n == "sym_observe") { s.obs.push_back({rdStr(s, C(0)), V_(1)}); return XR_OK; }
        if (n == "sym_concretize") { r = scalar(mkC(concrete(s, V_(0)), 64)); return XR_OK; }
        if (n == "sym_config") { std::string nm = rdStr(s, C(0)); auto it = config.find(nm); long v = it != config.end() ? it->second : (long)C(1); config[nm] = v; r = scalar(mkC((u128)(i128)v, 64)); return XR_OK; }
        if (n == "sym_nomerge") { s.noMerge += (int)C(0) ? 1 : -1; return XR_OK; }
        if (n == "sym_symbolic") { r = scalar(mkC(1, 32)); return XR_OK; }
        if (n == "sym_fail") { report(s, s.model, "assert", rdStr(s, C(0))); throw PathEnd{}; }
        if (n == "sym_done") { endPath(&s); throw PathEnd{}; }
        if (n == "sym_cut") { r = scalar(x_cut(V_(0))); return XR_OK; }
        if (n == "sym_allow_exit") { s.allowExit = C(0) != 0; return XR_OK; }
        if (n == "sym_dump") { fprintf(stderr, "%s = %s\n", rdStr(s, C(0)).c_str(), dump(V_(1), 6).c_str()); return XR_OK; }
        fatal("unknown " + n.str());
    }
    // ---- memory
    if (n == "malloc" || n == "_Znwm" || n == "_Znam" || n == "_ZnwmRKSt9nothrow_t" || n == "_ZnamRKSt9nothrow_t" || n == "_ZnwmSt11align_val_t" || n == "__cxa_allocate_exception") {
        u64 sz = C(0); if (sz > (1ULL << 30)) throw ViolationEx{"memory", "huge allocation"};
        r = scalar(mkC(allocObj(s, sz, 'h', false), 64)); return XR_OK;
    }
    if (n == "calloc") { r = scalar(mkC(allocObj(s, C(0) * C(1), 'h', true), 64)); return XR_OK; }
    if (n == "realloc") { u64 p = C(0), sz = C(1), q = allocObj(s, sz, 'h', false); if (p) { Obj *o = findObj(s, p, false); u64 k = std::min<u64>(o->size, sz); doMemcpy(s, q, p, k); s.mem.erase(p); } r = scalar(mkC(q, 64)); return XR_OK; }
    if (n == "free" || n.starts_with("_ZdlPv") || n.starts_with("_ZdaPv") || n == "__cxa_free_exception") {
        u64 p = C(0); if (!p) return XR_OK;
        auto it = s.mem.find(p);
        if (it == s.mem.end() || it->second->kind != 'h') throw ViolationEx{"memory", "invalid or double free"};
        s.mem.erase(it); return XR_OK;
    }
    if (n == "memcpy" || n == "memmove") { doMemcpy(s, C(0), C(1), C(2)); r = a[0]; return XR_OK; }
    if (n == "memset") { doMemset(s, C(0), V_(1), C(2)); r = a[0]; return XR_OK; }
    // ---- exceptions
    if (n == "__cxa_throw") { s.excObj = C(0); s.excType = C(1); return X_UNWIND; }
    if (n == "__cxa_begin_catch") { u64 p = C(0); s.caught.push_back({p, s.excType}); std::string tn = typeName(s, s.excType); r = scalar(mkC(!tn.empty() && tn[0] == 'P' ? rd64(s, p) : p, 64)); return XR_OK; }
    if (n == "__cxa_end_catch") { if (!s.caught.empty()) s.caught.pop_back(); return XR_OK; }
    if (n == "__cxa_get_exception_ptr") { r = a[0]; return XR_OK; }
    if (n == "__cxa_rethrow") { if (s.caught.empty()) throw ViolationEx{"exception", "rethrow without exception"}; s.excObj = s.caught.back().first; s.excType = s.caught.back().second; return X_UNWIND; }
    if (n == "_Unwind_Resume") { s.excObj = C(0); return X_UNWIND; }
    if (n == "_ZSt9terminatev" || n == "__clang_call_terminate") throw ViolationEx{"exception", "terminate called"};
    if (n == "__cxa_guard_acquire") { V g = doLoad(s, V_(0), 1); bool z = !concrete(s, g); r = scalar(mkC(z, 32)); return XR_OK; }
    if (n == "__cxa_guard_release") { doStore(s, V_(0), mkC(1, 8), 1); return XR_OK; }
    if (n == "__cxa_guard_abort" || n == "__cxa_thread_atexit") return XR_OK;
    if (n == "__cxa_atexit" || n == "atexit") { r = scalar(mkC(0, 32)); return XR_OK; }
    if (n == "__cxa_pure_virtual") throw ViolationEx{"memory", "pure virtual call"};
    if (n == "__dynamic_cast") {
        u64 p = C(0), dst = C(2); if (!p) { r = scalar(mkC(0, 64)); return XR_OK; }
        u64 vp = rd64(s, p); u64 top = rd64(s, vp - 16), ti = rd64(s, vp - 8); u64 obj = p + top, adj = 0;
        r = scalar(mkC(derives(s, ti, dst, obj, adj) ? obj + adj : 0, 64)); return XR_OK;
    }
    // ---- process
    if (n == "abort" || n == "__assert_fail") throw ViolationEx{"abort", "abort / failed assert()"};
    if (n == "exit" || n == "_exit" || n == "quick_exit") { if (s.allowExit) { endPath(&s); throw PathEnd{}; } throw ViolationEx{"exit", "exit() called"}; }
    if (n == "printf" || n == "puts" || n == "putchar" || n == "fprintf" || n == "fputs" || n == "fputc" || n == "fflush" || n == "fwrite" || n == "perror" || n == "putc" || n == "vprintf" || n == "__printf_chk" || n == "__fprintf_chk" || n.starts_with("pthread_mutex")) { if (w) r = scalar(mkC(0, w)); return XR_OK; }
    if (n == "floor" || n == "ceil" || n == "log" || n == "log2" || n == "log10" || n == "sqrt" || n == "exp") {
        u64 c = C(0); double d; memcpy(&d, &c, 8);
        d = n == "floor" ? floor(d) : n == "ceil" ? ceil(d) : n == "log" ? log(d) : n == "log2" ? log2(d) : n == "log10" ? log10(d) : n == "exp" ? exp(d) : sqrt(d);
        memcpy(&c, &d, 8); r = scalar(mkC(c, 64)); return XR_OK;
    }
    fatal("call to unmodelled external function " + demangle(n.str()) + " from " + where(s));
}
