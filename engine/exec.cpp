// Bounded symbolic executor for LLVM-18 bitcode.
#include "expr.h"
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/CFG.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstring>
#include <map>
#include <set>
#include <pthread.h>
#include <cstdarg>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/resource.h>
using namespace llvm;
typedef uint64_t u64;

static double nowS() { using namespace std::chrono; return duration<double>(steady_clock::now().time_since_epoch()).count(); }
static double t0;

// ------------------------------------------------------------------ options & results
static unsigned optNmFan = getenv("SYMX_NMFAN") ? atoi(getenv("SYMX_NMFAN")) : 12;
static double optTime = 600; static u64 optInsts = 2000000000ULL; static unsigned optCut = 64; static unsigned optSamples = 3; static unsigned optPointerFan = 4096;
static bool optMerge = true, optVerbose = false; static int optMaxViol = 1;
static std::map<std::string, long> config;
static std::string outPath, replayPrefix;
struct Violation { std::string kind, label, where, replay; };
static std::vector<Violation> violations;
static bool inconclusive = false; static std::string inconclusiveWhy;
static std::map<std::string, u64> reached;
struct Stats { u64 insts = 0, paths = 0, forks = 0, merges = 0, mergeFail = 0, asserts = 0, assertTrivial = 0, assertProved = 0, infeasible = 0, symBranches = 0; } st;
static std::set<std::string> funcsSeen;
static std::vector<std::string> sampleReplays;
static bool stopAll = false;
static void note(const char *fmt, ...) { if (!optVerbose) return; va_list ap; va_start(ap, fmt); vfprintf(stderr, fmt, ap); va_end(ap); }
static void giveUp(const std::string &why) { if (!inconclusive) { inconclusive = true; inconclusiveWhy = why; } }
struct Fatal { std::string msg; };
[[noreturn]] static void fatal(const std::string &m) { throw Fatal{m}; }

// ------------------------------------------------------------------ memory objects
struct SymByte { const Expr *e; uint8_t k; };
static Expr uninitMark;
struct Obj {
    u64 base, size; bool isConst = false; uint8_t kind; // 'g','s','h'
    std::vector<uint8_t> c;      // concrete bytes
    std::vector<SymByte> s;      // empty when fully concrete
    std::vector<uint8_t> chunk;  // size of the last store starting at this byte
    std::string name;
    void ensureSym() { if (s.empty()) s.assign(size, SymByte{nullptr, 0}); }
};
typedef std::shared_ptr<Obj> ObjP;
static std::map<u64, ObjP> constMem;
static u64 heapNext = 0x700000000000ULL;

// ------------------------------------------------------------------ compiled code
struct RV { V v; const std::vector<RV> *agg = nullptr; };
struct Opd { int slot = -1; RV c; };
struct FnInfo;
struct Inst { Instruction *I; unsigned op; int dst; unsigned w; std::vector<Opd> ops; int sub; // subprogram id
    // GEP
    std::vector<std::pair<int, u64>> gep; u64 gepOff = 0; unsigned aux = 0; FnInfo *fn = nullptr; Function *callee = nullptr; };
struct BB { std::vector<Inst> insts; unsigned nphi = 0; std::vector<std::vector<Opd>> phiIn; std::vector<BasicBlock *> preds; std::vector<int> succ; int ipdom = -2; std::vector<bool> live; bool liveDone = false; BasicBlock *B; };
struct FnInfo { Function *F; int nslots = 0; DenseMap<const Value *, int> slot; DenseMap<const BasicBlock *, int> bbi; std::vector<BB> bbs; bool postdom = false, livedone = false; std::vector<std::vector<bool>> liveIn; };
static std::unordered_map<Function *, FnInfo *> fns;
static std::vector<std::string> subNames; static std::vector<bool> subSeen; static std::unordered_map<const void *, int> subId;
static Module *M; static const DataLayout *DL;
static std::unordered_map<const GlobalValue *, u64> gaddr; static std::unordered_map<u64, Function *> faddr;

static unsigned tw(Type *T) {
    if (T->isIntegerTy()) return T->getIntegerBitWidth();
    if (T->isPointerTy()) return 64;
    if (T->isFloatTy()) return 32;
    if (T->isDoubleTy()) return 64;
    if (T->isX86_FP80Ty()) return 80;
    return 0;
}
static RV scalar(const V &v) { RV r; r.v = v; return r; }
static RV mkAgg(std::vector<RV> v) { RV r; r.agg = new std::vector<RV>(std::move(v)); return r; }
static RV zeroOf(Type *T) {
    if (unsigned w = tw(T)) return scalar(mkC(0, w));
    std::vector<RV> v;
    if (auto *S = dyn_cast<StructType>(T)) for (auto *E : S->elements()) v.push_back(zeroOf(E));
    else if (auto *A = dyn_cast<ArrayType>(T)) for (u64 i = 0; i < A->getNumElements(); i++) v.push_back(zeroOf(A->getElementType()));
    else if (auto *X = dyn_cast<FixedVectorType>(T)) for (u64 i = 0; i < X->getNumElements(); i++) v.push_back(zeroOf(X->getElementType()));
    else if (T->isVoidTy() || T->isMetadataTy() || T->isLabelTy() || T->isTokenTy()) return RV();
    else fatal("unsupported type");
    return mkAgg(std::move(v));
}
static RV constVal(const Constant *C);
static u64 constAddr(const Constant *C) {
    RV r = constVal(C); if (!r.v.isC()) fatal("const addr"); return (u64)r.v.c;
}
static u64 gepConst(const GEPOperator *G) {
    u64 a = constAddr(cast<Constant>(G->getPointerOperand()));
    APInt off(64, 0);
    if (!G->accumulateConstantOffset(*DL, off)) fatal("gep const");
    return a + off.getSExtValue();
}
static u128 ap(const APInt &a) { if (a.getBitWidth() > 128) fatal("wide int"); u128 r = a.getRawData()[0]; if (a.getBitWidth() > 64) r |= (u128)a.getRawData()[1] << 64; return r; }
static RV constVal(const Constant *C) {
    Type *T = C->getType();
    if (auto *ci = dyn_cast<ConstantInt>(C)) return scalar(mkC(ap(ci->getValue()), tw(T)));
    if (isa<ConstantPointerNull>(C) || isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) return zeroOf(T);
    if (auto *cf = dyn_cast<ConstantFP>(C)) return scalar(mkC(ap(cf->getValueAPF().bitcastToAPInt()), tw(T)));
    if (auto *g = dyn_cast<GlobalAlias>(C)) return constVal(g->getAliasee());
    if (auto *g = dyn_cast<GlobalValue>(C)) { auto it = gaddr.find(g); if (it == gaddr.end()) fatal("no address for " + g->getName().str()); return scalar(mkC(it->second, 64)); }
    if (auto *ca = dyn_cast<ConstantAggregate>(C)) { std::vector<RV> v; for (auto &o : ca->operands()) v.push_back(constVal(cast<Constant>(o))); return mkAgg(std::move(v)); }
    if (auto *cd = dyn_cast<ConstantDataSequential>(C)) { std::vector<RV> v; for (unsigned i = 0; i < cd->getNumElements(); i++) v.push_back(constVal(cd->getElementAsConstant(i))); return mkAgg(std::move(v)); }
    if (auto *ce = dyn_cast<ConstantExpr>(C)) {
        switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: return scalar(mkC(gepConst(cast<GEPOperator>(ce)), 64));
        case Instruction::BitCast: case Instruction::AddrSpaceCast: return constVal(ce->getOperand(0));
        case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: case Instruction::ZExt: { RV r = constVal(ce->getOperand(0)); return scalar(mkC(r.v.c, tw(T))); }
        case Instruction::Add: return scalar(x_add(constVal(ce->getOperand(0)).v, constVal(ce->getOperand(1)).v));
        case Instruction::Sub: return scalar(x_sub(constVal(ce->getOperand(0)).v, constVal(ce->getOperand(1)).v));
        case Instruction::ICmp: {
            u128 a = constVal(ce->getOperand(0)).v.c, b = constVal(ce->getOperand(1)).v.c; bool r;
            switch (ce->getPredicate()) { case CmpInst::ICMP_EQ: r = a == b; break; case CmpInst::ICMP_NE: r = a != b; break; case CmpInst::ICMP_ULT: r = a < b; break; default: fatal("constexpr icmp"); }
            return scalar(mkC(r, 1)); }
        default: break;
        }
    }
    std::string s; raw_string_ostream os(s); C->print(os); fatal("unsupported constant " + os.str());
}
static int subOf(Instruction *I) {
    auto *L = I->getDebugLoc().get();
    const DISubprogram *sp = nullptr;
    if (L) { sp = L->getScope()->getSubprogram(); }
    const void *key = sp;
    if (!key) return -1;
    auto it = subId.find(key);
    if (it != subId.end()) return it->second;
    std::string file = sp->getFilename().str();
    std::string nm = sp->getLinkageName().empty() ? sp->getName().str() : demangle(sp->getLinkageName().str());
    int id = subNames.size();
    subNames.push_back(file + "|" + nm); subSeen.push_back(false);
    return subId[key] = id;
}
static FnInfo *compile(Function *F) {
    auto it = fns.find(F);
    if (it != fns.end()) return it->second;
    FnInfo *fi = new FnInfo; fi->F = F; fns[F] = fi;
    for (auto &A : F->args()) fi->slot[&A] = fi->nslots++;
    for (auto &B : *F) { int k = fi->bbs.size(); fi->bbi[&B] = k; fi->bbs.emplace_back(); fi->bbs.back().B = &B; for (auto &I : B) if (!I.getType()->isVoidTy()) fi->slot[&I] = fi->nslots++; }
    auto opd = [&](Value *v) { Opd o; auto s = fi->slot.find(v); if (s != fi->slot.end()) o.slot = s->second; else if (auto *c = dyn_cast<Constant>(v)) o.c = constVal(c); return o; };
    for (auto &B : *F) {
        BB &bb = fi->bbs[fi->bbi[&B]];
        for (auto *S : successors(&B)) bb.succ.push_back(fi->bbi[S]);
        for (auto *P : predecessors(&B)) bb.preds.push_back(P);
        for (auto &I : B) {
            if (isa<DbgInfoIntrinsic>(I)) continue;
            Inst in; in.I = &I; in.op = I.getOpcode(); in.dst = I.getType()->isVoidTy() ? -1 : fi->slot[&I]; in.w = tw(I.getType()); in.sub = subOf(&I); in.fn = fi;
            if (auto *P = dyn_cast<PHINode>(&I)) {
                bb.nphi++;
                std::vector<Opd> v;
                for (auto *pb : bb.preds) v.push_back(opd(P->getIncomingValueForBlock(pb)));
                bb.phiIn.push_back(std::move(v));
            } else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
                if (G->getType()->isVectorTy()) fatal("vector gep");
                in.ops.push_back(opd(G->getPointerOperand()));
                for (auto gi = gep_type_begin(G), ge = gep_type_end(G); gi != ge; ++gi) {
                    Value *idx = gi.getOperand();
                    if (auto *ST = gi.getStructTypeOrNull()) { in.gepOff += DL->getStructLayout(ST)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()); continue; }
                    u64 es = DL->getTypeAllocSize(gi.getIndexedType());
                    if (auto *ci = dyn_cast<ConstantInt>(idx)) in.gepOff += es * ci->getSExtValue();
                    else { in.gep.push_back({(int)in.ops.size(), es}); in.ops.push_back(opd(idx)); }
                }
            } else if (auto *CB = dyn_cast<CallBase>(&I)) {
                if (CB->isInlineAsm()) fatal("inline asm");
                in.callee = CB->getCalledFunction();
                if (!in.callee) { if (auto *ga = dyn_cast<GlobalAlias>(CB->getCalledOperand())) in.callee = dyn_cast<Function>(ga->getAliaseeObject()); }
                bool skip = in.callee && in.callee->isIntrinsic() && (in.callee->getName().starts_with("llvm.dbg") || in.callee->getName().starts_with("llvm.experimental.noalias"));
                if (skip) continue;
                for (auto &a : CB->args()) { if (a->getType()->isMetadataTy()) { in.ops.push_back(Opd()); continue; } in.ops.push_back(opd(a)); }
                if (!in.callee) in.ops.push_back(opd(CB->getCalledOperand()));
            } else if (isa<BranchInst>(&I)) { auto *b = cast<BranchInst>(&I); if (b->isConditional()) in.ops.push_back(opd(b->getCondition())); }
            else for (auto &o : I.operands()) { if (isa<BasicBlock>(o)) continue; in.ops.push_back(opd(o)); }
            bb.insts.push_back(std::move(in));
        }
    }
    return fi;
}
static void computePostdom(FnInfo *fi) {
    if (fi->postdom) return;
    fi->postdom = true;
    int n = fi->bbs.size();
    std::vector<bool> ok(n, false);
    bool ch = true;
    for (int i = 0; i < n; i++) if (isa<ReturnInst>(fi->bbs[i].B->getTerminator())) ok[i] = true;
    while (ch) { ch = false; for (int i = 0; i < n; i++) if (!ok[i]) for (int s : fi->bbs[i].succ) if (ok[s]) { ok[i] = true; ch = true; break; } }
    int W = (n + 64) / 64 + 1;
    std::vector<std::vector<u64>> pd(n, std::vector<u64>(W, ~0ULL));
    auto bit = [&](std::vector<u64> &v, int i) { v[i / 64] |= 1ULL << (i % 64); };
    for (int i = 0; i < n; i++) if (isa<ReturnInst>(fi->bbs[i].B->getTerminator())) { std::fill(pd[i].begin(), pd[i].end(), 0); bit(pd[i], i); }
    ch = true;
    while (ch) {
        ch = false;
        for (int i = n - 1; i >= 0; i--) {
            if (!ok[i] || isa<ReturnInst>(fi->bbs[i].B->getTerminator())) continue;
            std::vector<u64> x(W, ~0ULL); bool any = false;
            for (int s : fi->bbs[i].succ) if (ok[s]) { any = true; for (int k = 0; k < W; k++) x[k] &= pd[s][k]; }
            if (!any) continue;
            bit(x, i);
            if (x != pd[i]) { pd[i] = x; ch = true; }
        }
    }
    auto cnt = [&](int i) { int c = 0; for (int k = 0; k < n; k++) if (pd[i][k / 64] >> (k % 64) & 1) c++; return c; };
    std::vector<int> cn(n, 0);
    for (int i = 0; i < n; i++) if (ok[i]) cn[i] = cnt(i);
    for (int i = 0; i < n; i++) {
        fi->bbs[i].ipdom = -1;
        if (!ok[i]) continue;
        for (int k = 0; k < n; k++) if (k != i && ok[k] && (pd[i][k / 64] >> (k % 64) & 1) && cn[k] == cn[i] - 1) fi->bbs[i].ipdom = k;
    }
}
static void computeLive(FnInfo *fi) {
    if (fi->livedone) return;
    fi->livedone = true;
    int n = fi->bbs.size(), S = fi->nslots;
    // live at "after phis" of each block
    fi->liveIn.assign(n, std::vector<bool>(S, false));
    std::vector<std::vector<bool>> use(n, std::vector<bool>(S, false)), def(n, std::vector<bool>(S, false));
    for (int i = 0; i < n; i++) {
        BB &b = fi->bbs[i];
        for (size_t k = b.nphi; k < b.insts.size(); k++) { for (auto &o : b.insts[k].ops) if (o.slot >= 0 && !def[i][o.slot]) use[i][o.slot] = true; if (b.insts[k].dst >= 0) def[i][b.insts[k].dst] = true; }
    }
    bool ch = true;
    while (ch) {
        ch = false;
        for (int i = n - 1; i >= 0; i--) {
            std::vector<bool> out(S, false);
            for (int s : fi->bbs[i].succ) {
                BB &sb = fi->bbs[s];
                std::vector<bool> x = fi->liveIn[s];
                for (unsigned p = 0; p < sb.nphi; p++) x[sb.insts[p].dst] = false;
                for (unsigned p = 0; p < sb.nphi; p++) for (size_t q = 0; q < sb.preds.size(); q++) if (sb.preds[q] == fi->bbs[i].B && sb.phiIn[p][q].slot >= 0) x[sb.phiIn[p][q].slot] = true;
                for (int k = 0; k < S; k++) if (x[k]) out[k] = true;
            }
            for (int k = 0; k < S; k++) { bool v = use[i][k] || (out[k] && !def[i][k]); if (v && !fi->liveIn[i][k]) { fi->liveIn[i][k] = true; ch = true; } }
        }
    }
}

// ------------------------------------------------------------------ state
struct Frame { FnInfo *fn; int bb = 0; unsigned ip = 0; std::vector<RV> L; std::vector<u64> allocas; const Inst *call = nullptr; std::vector<RV> va; };
struct State {
    std::vector<Frame> stack;
    std::map<u64, ObjP> mem;
    std::vector<const Expr *> pc;
    std::shared_ptr<Model> model;
    std::map<std::string, int> symNo;
    std::unordered_map<const Expr *, u128> known;
    u64 excObj = 0, excType = 0; bool unwinding = false;
    std::vector<std::pair<u64, u64>> caught;
    std::vector<std::pair<std::string, V>> obs;
    int noMerge = 0; bool allowExit = false;
    std::vector<std::pair<std::string, V>> inputs;
};
static std::map<std::pair<std::string, int>, V> symReg;
static Obj *findObj(State &s, u64 a, bool write) {
    auto it = s.mem.upper_bound(a);
    if (it != s.mem.begin()) {
        --it;
        Obj *o = it->second.get();
        if (a >= o->base && a <= o->base + o->size) {
            if (write && it->second.use_count() > 1) { it->second = std::make_shared<Obj>(*o); o = it->second.get(); }
            return o;
        }
    }
    auto ci = constMem.upper_bound(a);
    if (ci != constMem.begin()) { --ci; Obj *o = ci->second.get(); if (a >= o->base && a <= o->base + o->size) return write ? nullptr : o; }
    return nullptr;
}
static u64 allocObj(State &s, u64 size, uint8_t kind, bool zero, const std::string &name = "") {
    u64 base = heapNext; heapNext += ((size + 15) / 16) * 16 + 32;
    auto o = std::make_shared<Obj>();
    o->base = base; o->size = size; o->kind = kind; o->name = name;
    o->c.assign(size, 0); o->chunk.assign(size, 0);
    if (!zero) { o->s.assign(size, SymByte{&uninitMark, 0}); }
    s.mem[base] = o;
    return base;
}
struct PathEnd {};
static void endPath(State *s);
struct ViolationEx { std::string kind, label; };
static int uninitNo = 0;
static V loadBytes(State &s, Obj *o, u64 off, unsigned n) {
    if (o->s.empty()) {
        u128 r = 0; for (unsigned i = 0; i < n; i++) r |= (u128)o->c[off + i] << (8 * i);
        return mkC(r, n * 8);
    }
    // uninitialised bytes become fresh symbols, remembered in the object
    for (unsigned i = 0; i < n; i++) if (o->s[off + i].e == &uninitMark) {
        if (o->isConst) fatal("uninit const");
        Obj *w = findObj(s, o->base, true);
        unsigned j = i; while (j < n && w->s[off + j].e == &uninitMark) j++;
        V u = x_sym("uninit" + std::to_string(uninitNo++), (j - i) * 8);
        for (unsigned k = i; k < j; k++) w->s[off + k] = SymByte{u.e, (uint8_t)(k - i)};
        o = w;
    }
    V r; bool first = true;
    for (unsigned i = 0; i < n;) {
        V piece; unsigned j = i + 1;
        SymByte &b = o->s[off + i];
        if (!b.e) {
            u128 c = o->c[off + i];
            while (j < n && !o->s[off + j].e) { c |= (u128)o->c[off + j] << (8 * (j - i)); j++; }
            piece = mkC(c, 8 * (j - i));
        } else {
            while (j < n && o->s[off + j].e == b.e && o->s[off + j].k == b.k + (j - i)) j++;
            V e = mkE(b.e);
            unsigned lo = b.k * 8, wid = 8 * (j - i);
            if (lo + wid > e.w) e = x_zext(e, lo + wid);
            piece = x_extract(e, lo, wid);
        }
        if (first) { r = piece; first = false; } else r = x_concat(piece, r);
        i = j;
    }
    return r;
}
static void storeBytes(Obj *o, u64 off, V v, unsigned n) {
    if (v.w < n * 8) v = x_zext(v, n * 8);
    o->chunk[off] = n;
    if (v.isC()) {
        for (unsigned i = 0; i < n; i++) { o->c[off + i] = (uint8_t)(v.c >> (8 * i)); }
        if (!o->s.empty()) for (unsigned i = 0; i < n; i++) o->s[off + i] = SymByte{nullptr, 0};
        return;
    }
    if (v.e->k == K_LIN && v.e->terms.size() > optCut) v = x_cut(v);
    o->ensureSym();
    for (unsigned i = 0; i < n; i++) o->s[off + i] = SymByte{v.e, (uint8_t)i};
}

// ------------------------------------------------------------------ forking helpers
struct ForkReq { std::vector<State *> succ; };    // successors re-execute / continue
static Res check(State &s, const V &cond, std::shared_ptr<Model> &m, bool hard = false) {
    if (cond.isC()) { m = s.model; return cond.c ? SAT : UNSAT; }
    if (s.model->eval(cond)) { sstats.modelHits++; m = s.model; return SAT; }
    std::unordered_map<uint32_t, u128> out;
    Res r = solve(s.pc, cond, out, hard);
    if (r == SAT) {
        m = std::make_shared<Model>(); m->val = s.model->val;
        for (auto &kv : out) m->val[kv.first] = kv.second;
    }
    if (r == UNKNOWN) giveUp("solver unknown");
    return r;
}
static void assume(State &s, const V &c, const std::shared_ptr<Model> &m) {
    if (m) s.model = m;
    if (c.isC()) return;
    s.pc.push_back(c.e);
}
static void concretizeFork(State &s, const V &v) {   // throws ForkReq
    std::vector<State *> out;
    V rest = mkC(1, 1);
    std::shared_ptr<Model> m = s.model;
    State base(s);
    for (int n = 0;; n++) {
        if (n > 4096) { giveUp("too many values when concretizing"); break; }
        u128 val = m->eval(v);
        V eq = x_eq(v, mkC(val, v.w));
        State *t = new State(base);
        t->model = m; if (!eq.isC()) t->pc.push_back(eq.e);
        t->known[v.e] = val;
        out.push_back(t);
        rest = x_and(rest, x_not(eq));
        if (rest.isC() && !rest.c) break;
        std::unordered_map<uint32_t, u128> mo;
        // model must satisfy rest
        std::vector<const Expr *> pc = base.pc;
        Res r = solve(pc, rest, mo);
        if (r == UNKNOWN) giveUp("solver unknown");
        if (r != SAT) break;
        auto m2 = std::make_shared<Model>(); m2->val = base.model->val; for (auto &kv : mo) m2->val[kv.first] = kv.second;
        m = m2;
    }
    st.forks += out.size() - 1;
    throw ForkReq{out};
}
static u128 concrete(State &s, const V &v) {
    if (v.isC()) return v.c;
    auto k = s.known.find(v.e);
    if (k != s.known.end()) return k->second;
    concretizeFork(s, v);
    return 0;
}
static std::string where(State &s) {
    std::string r;
    for (int i = (int)s.stack.size() - 1; i >= 0 && i > (int)s.stack.size() - 7; i--) {
        Frame &f = s.stack[i];
        const Inst *in = nullptr;
        if (f.ip < f.fn->bbs[f.bb].insts.size()) in = &f.fn->bbs[f.bb].insts[i == (int)s.stack.size() - 1 ? f.ip : (f.ip ? f.ip - 1 : 0)];
        std::string loc;
        if (in) if (auto *L = in->I->getDebugLoc().get()) loc = L->getFilename().str() + ":" + std::to_string(L->getLine());
        r += (r.empty() ? "" : " < ") + demangle(f.fn->F->getName().str()).substr(0, 90) + "@" + loc;
    }
    return r;
}
static std::string hx(u128 c) { char b[48]; if (c >> 64) snprintf(b, 48, "0x%llx%016llx", (unsigned long long)(c >> 64), (unsigned long long)c); else snprintf(b, 48, "0x%llx", (unsigned long long)c); return b; }
static void writeReplay(State &s, Model &m, const std::string &path, const std::string &hdr, bool withObs) {
    FILE *f = fopen(path.c_str(), "w");
    if (!f) return;
    fprintf(f, "# %s\n", hdr.c_str());
    for (auto &kv : config) fprintf(f, "config %s %ld\n", kv.first.c_str(), kv.second);
    for (auto &in : s.inputs) fprintf(f, "in %s %s\n", in.first.c_str(), hx(m.eval(in.second)).c_str());
    if (withObs) for (auto &o : s.obs) fprintf(f, "obs %s %s\n", o.first.c_str(), hx(m.eval(o.second)).c_str());
    fclose(f);
}
static void report(State &s, const std::shared_ptr<Model> &m, const std::string &kind, const std::string &label) {
    for (auto &v : violations) if (v.label == label && v.kind == kind) return;
    Violation v; v.kind = kind; v.label = label; v.where = where(s);
    v.replay = replayPrefix + "viol" + std::to_string(violations.size()) + ".txt";
    Model mm; mm.val = (m ? m : s.model)->val;
    writeReplay(s, mm, v.replay, kind + ": " + label + " at " + v.where, false);
    note("VIOLATION %s %s\n   at %s\n", kind.c_str(), label.c_str(), v.where.c_str());
    violations.push_back(v);
    if ((int)violations.size() >= optMaxViol) stopAll = true;
}
static V expandCuts(const V &v, int levels) {
    V r = v;
    for (int i = 0; i < levels; i++) {
        if (r.isC()) return r;
        std::vector<Term> ts; V acc; u128 c;
        if (r.e->k == K_CUT) { r = r.e->ops[0]; continue; }
        if (r.e->k != K_LIN) return r;
        ts = r.e->terms; c = r.e->c; bool any = false;
        acc = mkC(c, r.w);
        for (auto &t : ts) {
            V a = mkE(t.a);
            if (t.a->k == K_CUT) { a = t.a->ops[0]; any = true; }
            unsigned bw = std::max<unsigned>(a.w, r.w);
            V z = x_zext(a, bw);
            z = t.s >= 0 ? x_shlc(z, t.s) : x_lshrc(z, -t.s);
            acc = x_xor(acc, x_and(x_extract(z, 0, r.w), mkC(t.m, r.w)));
        }
        r = acc;
        if (!any) break;
    }
    return r;
}
static void doAssert(State &s, V cond, const std::string &label) {
    st.asserts++;
    if (!cond.isC()) {
        // equality assertions: try to expand cut points algebraically before asking the solver
        V n = x_not(cond);
        (void)n;
        const Expr *e = cond.e;
        if (e->k == K_EQ0) { V d = expandCuts(e->ops[0], 2); V c2 = x_eq0(d); if (c2.isC()) cond = c2; }
    }
    if (cond.isC() && cond.c) { st.assertTrivial++; return; }
    V neg = x_not(cond);
    std::shared_ptr<Model> m;
    Res r = check(s, neg, m, true);
    if (r == UNSAT) { st.assertProved++; return; }
    if (r == UNKNOWN) { giveUp("assertion undecided: " + label + " at " + where(s)); return; }
    report(s, m, "assert", label);
    if (stopAll) throw PathEnd{};
    std::shared_ptr<Model> m2;
    if (check(s, cond, m2) != SAT) throw PathEnd{};
    assume(s, cond, m2);
}

// ------------------------------------------------------------------ symbolic address handling
// returns candidate offsets within the single object the address must lie in
static Obj *symObj(State &s, const V &addr, unsigned n, std::vector<u64> &offs) {
    u64 a0 = (u64)s.model->eval(addr);
    Obj *o = findObj(s, a0, false);
    if (!o || a0 + n > o->base + o->size) return nullptr;
    V rel = x_sub(addr, mkC(o->base, 64));
    if (o->size < n) return nullptr;
    V inb = x_ule(rel, mkC(o->size - n, 64));
    std::shared_ptr<Model> m;
    Res r = check(s, x_not(inb), m);
    if (r != UNSAT) return nullptr;
    u128 unk = x_unk(addr), known = addr.isC() ? 0 : (addr.e->k == K_LIN ? addr.e->c : 0);
    for (u64 off = 0; off + n <= o->size; off++) if ((((o->base + off) ^ (u64)known) & ~(u64)unk) == 0) {
        V eq = x_eq(addr, mkC(o->base + off, 64));
        if (eq.isC() && !eq.c) continue;
        offs.push_back(off);
    }
    if (offs.size() > optPointerFan) return nullptr;
    if (offs.size() > 64 || true) {
        // prune with the solver when cheap
        if (offs.size() <= 40) return o;
    }
    return o;
}
static V doLoad(State &s, const V &addr, unsigned n) {
    if (!addr.isC()) {
        auto k = s.known.find(addr.e);
        if (k == s.known.end()) {
            std::vector<u64> offs;
            Obj *o = symObj(s, addr, n, offs);
            if (!o || (!optMerge && offs.size() > optNmFan)) { concretizeFork(s, addr); }
            u64 base = o->base;
            if (n == 8 && offs.size() > 1 && offs.size() <= 160) {   // a table of pointers: one path per pointer
                bool ptr = true; std::set<u64> seen;
                for (u64 off : offs) {
                    V v = loadBytes(s, o, off, n);
                    if (!v.isC() || (v.c && !findObj(s, (u64)v.c, false))) { ptr = false; break; }
                    seen.insert((u64)v.c); o = findObj(s, base, false);
                }
                if (ptr && seen.size() > 1) concretizeFork(s, addr);
            }
            V r; bool first = true;
            for (auto it = offs.rbegin(); it != offs.rend(); ++it) {
                o = findObj(s, base, false);
                V v = loadBytes(s, o, *it, n);
                if (first) { r = v; first = false; }
                else r = x_ite(x_eq(addr, mkC(base + *it, 64)), v, r);
            }
            return r;
        }
        return doLoad(s, mkC(k->second, 64), n);
    }
    u64 a = (u64)addr.c;
    Obj *o = findObj(s, a, false);
    if (!o || a + n > o->base + o->size) throw ViolationEx{"memory", "invalid read"};
    return loadBytes(s, o, a - o->base, n);
}
static void doStore(State &s, const V &addr, const V &v, unsigned n) {
    if (!addr.isC()) {
        auto k = s.known.find(addr.e);
        if (k == s.known.end()) {
            std::vector<u64> offs;
            Obj *o = symObj(s, addr, n, offs);
            if (!o || (!optMerge && offs.size() > optNmFan)) { concretizeFork(s, addr); }
            u64 base = o->base;
            for (u64 off : offs) {
                o = findObj(s, base, true);
                if (!o) throw ViolationEx{"memory", "write to constant"};
                V old = loadBytes(s, o, off, n);
                o = findObj(s, base, true);
                V nv = v.w < n * 8 ? x_zext(v, n * 8) : v;
                storeBytes(o, off, x_ite(x_eq(addr, mkC(base + off, 64)), nv, old), n);
            }
            return;
        }
        return doStore(s, mkC(k->second, 64), v, n);
    }
    u64 a = (u64)addr.c;
    Obj *o = findObj(s, a, true);
    if (!o || a + n > o->base + o->size) throw ViolationEx{"memory", "invalid write"};
    storeBytes(o, a - o->base, v, n);
}
static u64 rd64(State &s, u64 a) { V v = doLoad(s, mkC(a, 64), 8); return (u64)concrete(s, v); }
static std::string rdStr(State &s, u64 a) { std::string r; for (;; a++) { V v = doLoad(s, mkC(a, 64), 1); char c = (char)concrete(s, v); if (!c) return r; r += c; if (r.size() > 4096) return r; } }
static void doMemcpy(State &s, u64 d, u64 src, u64 n) {
    if (!n) return;
    Obj *so = findObj(s, src, false);
    if (!so || src + n > so->base + so->size) throw ViolationEx{"memory", "invalid read (memcpy)"};
    std::vector<uint8_t> c(so->c.begin() + (src - so->base), so->c.begin() + (src - so->base + n));
    std::vector<uint8_t> ch(so->chunk.begin() + (src - so->base), so->chunk.begin() + (src - so->base + n));
    std::vector<SymByte> sy;
    if (!so->s.empty()) sy.assign(so->s.begin() + (src - so->base), so->s.begin() + (src - so->base + n));
    Obj *o = findObj(s, d, true);
    if (!o || d + n > o->base + o->size) throw ViolationEx{"memory", "invalid write (memcpy)"};
    u64 off = d - o->base;
    std::copy(c.begin(), c.end(), o->c.begin() + off);
    std::copy(ch.begin(), ch.end(), o->chunk.begin() + off);
    if (!sy.empty()) { o->ensureSym(); std::copy(sy.begin(), sy.end(), o->s.begin() + off); }
    else if (!o->s.empty()) std::fill(o->s.begin() + off, o->s.begin() + off + n, SymByte{nullptr, 0});
}

// ------------------------------------------------------------------ exceptions
static std::string typeName(State &s, u64 ti) { try { return rdStr(s, rd64(s, ti + 8)); } catch (...) { return "?"; } }
static u64 symAddr(const char *n) { auto *g = M->getNamedValue(n); return g && gaddr.count(g) ? gaddr[g] : 0; }
// is `target` a (public) base of `ti`?  adj: offset adjustment for obj
static bool derives(State &s, u64 ti, u64 target, u64 obj, u64 &adj, int depth = 0) {
    if (ti == target) return true;
    if (typeName(s, ti) == typeName(s, target)) return true;
    if (depth > 8) return false;
    u64 vt = rd64(s, ti);
    u64 si = symAddr("_ZTVN10__cxxabiv120__si_class_type_infoE"), vmi = symAddr("_ZTVN10__cxxabiv121__vmi_class_type_infoE");
    if (si && vt == si + 16) return derives(s, rd64(s, ti + 16), target, obj, adj, depth + 1);
    if (vmi && vt == vmi + 16) {
        unsigned n = (unsigned)concrete(s, doLoad(s, mkC(ti + 20, 64), 4));
        for (unsigned i = 0; i < n; i++) {
            u64 b = rd64(s, ti + 24 + 16 * i); int64_t fl = (int64_t)rd64(s, ti + 32 + 16 * i);
            u64 o = fl >> 8;
            if (fl & 1) { if (!obj) continue; u64 vp = rd64(s, obj + adj); o = rd64(s, vp + (fl >> 8)); }
            u64 a2 = adj + o;
            if (derives(s, b, target, obj, a2, depth + 1)) { adj = a2; return true; }
        }
    }
    return false;
}
static void popFrame(State &s) { for (u64 a : s.stack.back().allocas) s.mem.erase(a); s.stack.pop_back(); }
static void enterBlock(State &s, Frame &f, int to) {
    BB &nb = f.fn->bbs[to];
    if (nb.nphi) {
        BasicBlock *from = f.fn->bbs[f.bb].B;
        size_t q = 0; while (q < nb.preds.size() && nb.preds[q] != from) q++;
        std::vector<RV> vals(nb.nphi);
        for (unsigned p = 0; p < nb.nphi; p++) { Opd &o = nb.phiIn[p][q]; vals[p] = o.slot >= 0 ? f.L[o.slot] : o.c; }
        for (unsigned p = 0; p < nb.nphi; p++) f.L[nb.insts[p].dst] = vals[p];
    }
    f.bb = to; f.ip = nb.nphi;
}
static void unwind(State &s) {   // state.excObj/excType set
    while (true) {
        if (s.stack.empty()) { throw ViolationEx{"exception", "uncaught exception " + typeName(s, s.excType)}; }
        Frame &f = s.stack.back();
        // the frame's current instruction (ip-1 was the call, we keep ip pointing after the call for invokes handled at branch)
        const Inst *c = f.call;
        if (c) if (auto *inv = dyn_cast<InvokeInst>(c->I)) {
            auto *lp = inv->getLandingPadInst();
            bool match = lp->isCleanup();
            for (unsigned i = 0; i < lp->getNumClauses() && !match; i++) {
                if (lp->isFilter(i)) { match = true; break; }
                Constant *cl = lp->getClause(i);
                u64 ct = isa<ConstantPointerNull>(cl) ? 0 : constAddr(cl);
                u64 adj = 0;
                if (!ct || derives(s, s.excType, ct, s.excObj, adj)) match = true;
            }
            if (match) { f.call = nullptr; enterBlock(s, f, f.fn->bbi[inv->getUnwindDest()]); return; }
        }
        popFrame(s);
        if (s.stack.empty()) continue;
    }
}

#include "ext.inc"

// ------------------------------------------------------------------ stepping
static bool optFP(State &s, const V &v, double &d) { u128 c = concrete(s, v); if (v.w == 64) { u64 x = (u64)c; memcpy(&d, &x, 8); } else { uint32_t x = (uint32_t)c; float f; memcpy(&f, &x, 4); d = f; } return true; }
static V fpv(double d, unsigned w) { if (w == 64) { u64 x; memcpy(&x, &d, 8); return mkC(x, 64); } float f = (float)d; uint32_t x; memcpy(&x, &f, 4); return mkC(x, 32); }

static V icmp(CmpInst::Predicate p, const V &a, const V &b) {
    switch (p) {
    case CmpInst::ICMP_EQ: return x_eq(a, b);
    case CmpInst::ICMP_NE: return x_not(x_eq(a, b));
    case CmpInst::ICMP_ULT: return x_ult(a, b);
    case CmpInst::ICMP_ULE: return x_ule(a, b);
    case CmpInst::ICMP_UGT: return x_ult(b, a);
    case CmpInst::ICMP_UGE: return x_ule(b, a);
    case CmpInst::ICMP_SLT: return x_slt(a, b);
    case CmpInst::ICMP_SLE: return x_sle(a, b);
    case CmpInst::ICMP_SGT: return x_slt(b, a);
    case CmpInst::ICMP_SGE: return x_sle(b, a);
    default: fatal("icmp");
    }
}
static V binop(unsigned op, const V &a, const V &b) {
    switch (op) {
    case Instruction::Add: return x_add(a, b);
    case Instruction::Sub: return x_sub(a, b);
    case Instruction::Mul: return x_mul(a, b);
    case Instruction::UDiv: return x_udiv(a, b);
    case Instruction::SDiv: return x_sdiv(a, b);
    case Instruction::URem: return x_urem(a, b);
    case Instruction::SRem: return x_srem(a, b);
    case Instruction::And: return x_and(a, b);
    case Instruction::Or: return x_or(a, b);
    case Instruction::Xor: return x_xor(a, b);
    case Instruction::Shl: return x_shl(a, b);
    case Instruction::LShr: return x_lshr(a, b);
    case Instruction::AShr: return x_ashr(a, b);
    default: fatal("binop");
    }
}
static RV aggLoad(State &s, u64 a, Type *T) {
    if (unsigned w = tw(T)) { V v = doLoad(s, mkC(a, 64), DL->getTypeStoreSize(T)); return scalar(x_extract(v, 0, w)); }
    std::vector<RV> v;
    if (auto *S = dyn_cast<StructType>(T)) { auto *sl = DL->getStructLayout(S); for (unsigned i = 0; i < S->getNumElements(); i++) v.push_back(aggLoad(s, a + sl->getElementOffset(i), S->getElementType(i))); }
    else if (auto *X = dyn_cast<FixedVectorType>(T)) { u64 es = DL->getTypeStoreSize(X->getElementType()); for (unsigned i = 0; i < X->getNumElements(); i++) v.push_back(aggLoad(s, a + i * es, X->getElementType())); }
    else if (auto *A = dyn_cast<ArrayType>(T)) { u64 es = DL->getTypeAllocSize(A->getElementType()); for (unsigned i = 0; i < A->getNumElements(); i++) v.push_back(aggLoad(s, a + i * es, A->getElementType())); }
    else fatal("aggLoad");
    return mkAgg(std::move(v));
}
static void aggStore(State &s, u64 a, const RV &r, Type *T) {
    if (tw(T)) { doStore(s, mkC(a, 64), r.v, DL->getTypeStoreSize(T)); return; }
    if (auto *S = dyn_cast<StructType>(T)) { auto *sl = DL->getStructLayout(S); for (unsigned i = 0; i < S->getNumElements(); i++) aggStore(s, a + sl->getElementOffset(i), (*r.agg)[i], S->getElementType(i)); }
    else if (auto *X = dyn_cast<FixedVectorType>(T)) { u64 es = DL->getTypeStoreSize(X->getElementType()); for (unsigned i = 0; i < X->getNumElements(); i++) aggStore(s, a + i * es, (*r.agg)[i], X->getElementType()); }
    else if (auto *A = dyn_cast<ArrayType>(T)) { u64 es = DL->getTypeAllocSize(A->getElementType()); for (unsigned i = 0; i < A->getNumElements(); i++) aggStore(s, a + i * es, (*r.agg)[i], A->getElementType()); }
    else fatal("aggStore");
}
static RV selRV(const V &c, const RV &a, const RV &b) {
    if (c.isC()) return c.c ? a : b;
    if (a.agg) { std::vector<RV> v; for (size_t i = 0; i < a.agg->size(); i++) v.push_back(selRV(c, (*a.agg)[i], (*b.agg)[i])); return mkAgg(std::move(v)); }
    return scalar(x_ite(c, a.v, b.v));
}
static RV map2(const RV &a, const RV &b, const std::function<V(const V &, const V &)> &f) {
    if (!a.agg) return scalar(f(a.v, b.v));
    std::vector<RV> v; for (size_t i = 0; i < a.agg->size(); i++) v.push_back(map2((*a.agg)[i], (*b.agg)[i], f));
    return mkAgg(std::move(v));
}
static RV map1(const RV &a, const std::function<V(const V &)> &f) {
    if (!a.agg) return scalar(f(a.v));
    std::vector<RV> v; for (size_t i = 0; i < a.agg->size(); i++) v.push_back(map1((*a.agg)[i], f));
    return mkAgg(std::move(v));
}
static V flattenBits(const RV &r) { if (!r.agg) return r.v; V o; bool f = true; for (auto &x : *r.agg) { V p = flattenBits(x); if (f) { o = p; f = false; } else o = x_concat(p, o); } return o; }
static RV unflatten(const V &v, Type *T) {
    if (unsigned w = tw(T)) return scalar(x_extract(v, 0, w));
    auto *X = cast<FixedVectorType>(T); unsigned ew = tw(X->getElementType()); std::vector<RV> o;
    for (unsigned i = 0; i < X->getNumElements(); i++) o.push_back(scalar(x_extract(v, i * ew, ew)));
    return mkAgg(std::move(o));
}
static void pushCall(State &s, Function *F, const std::vector<RV> &args) {
    FnInfo *fi = compile(F);
    if (s.stack.size() > 5000) throw ViolationEx{"resource", "call stack deeper than 5000 frames"};
    s.stack.emplace_back();
    Frame &nf = s.stack.back();
    nf.fn = fi; nf.L.resize(fi->nslots);
    for (size_t i = 0; i < F->arg_size(); i++) nf.L[i] = args[i];
    for (size_t i = F->arg_size(); i < args.size(); i++) nf.va.push_back(args[i]);
    nf.bb = 0; nf.ip = 0;
}
struct BranchFork { std::vector<std::pair<State *, int>> alts; int ipdom; };  // state + target already entered
static void gotoB(State &s, int b) { enterBlock(s, s.stack.back(), b); }
static std::vector<State *> pendingFork; static int pendingJoin;

enum StepRes { CONT, ENDED, FORKED };
// two-way / multi-way branch: targets with conditions
static StepRes branchOn(State &s, std::vector<std::pair<V, int>> &alts) {
    st.symBranches++;
    std::vector<std::pair<State *, int>> out;
    int cur = s.stack.back().bb; FnInfo *fi = s.stack.back().fn;
    std::vector<std::pair<std::shared_ptr<Model>, size_t>> feas;
    for (size_t i = 0; i < alts.size(); i++) {
        std::shared_ptr<Model> m;
        if (alts[i].first.isC() && !alts[i].first.c) continue;
        Res r = check(s, alts[i].first, m);
        if (r == SAT) feas.push_back({m, i});
    }
    if (feas.empty()) { st.infeasible++; throw PathEnd{}; }
    if (feas.size() == 1) {
        auto &a = alts[feas[0].second];
        s.model = feas[0].first;
        gotoB(s, a.second);
        return CONT;
    }
    st.forks += feas.size() - 1;
    computePostdom(fi);
    pendingJoin = fi->bbs[cur].ipdom;
    pendingFork.clear();
    for (auto &f : feas) {
        State *t = new State(s);
        assume(*t, alts[f.second].first, f.first);
        gotoB(*t, alts[f.second].second);
        pendingFork.push_back(t);
    }
    return FORKED;
}
static void setDst(Frame &f, const Inst &in, RV r) { if (in.dst >= 0) f.L[in.dst] = std::move(r); }
static void retTo(State &s, RV r) { // return from external / function: current frame's call inst receives r
    Frame &f = s.stack.back();
    const Inst *c = f.call; f.call = nullptr;
    setDst(f, *c, r);
    if (auto *inv = dyn_cast<InvokeInst>(c->I)) enterBlock(s, f, f.fn->bbi[inv->getNormalDest()]);
    else f.ip++;
}
static StepRes step(State &s) {
    Frame &f = s.stack.back();
    Inst &in = f.fn->bbs[f.bb].insts[f.ip];
    if (in.sub >= 0) subSeen[in.sub] = true;
    auto R = [&](int i) -> const RV & { Opd &o = in.ops[i]; return o.slot >= 0 ? f.L[o.slot] : o.c; };
    auto A = [&](int i) -> const V & { return R(i).v; };
    switch (in.op) {
    case Instruction::Ret: {
        RV r; bool has = !in.ops.empty(); if (has) r = R(0);
        popFrame(s);
        if (s.stack.empty()) return ENDED;
        retTo(s, r);
        return CONT; }
    case Instruction::Br: {
        auto &su = f.fn->bbs[f.bb].succ;
        if (in.ops.empty()) { enterBlock(s, f, su[0]); return CONT; }
        V c = A(0);
        if (c.isC()) { enterBlock(s, f, c.c ? su[0] : su[1]); return CONT; }
        if (su[0] == su[1]) { enterBlock(s, f, su[0]); return CONT; }
        std::vector<std::pair<V, int>> alts{{c, su[0]}, {x_not(c), su[1]}};
        return branchOn(s, alts); }
    case Instruction::Switch: {
        auto *sw = cast<SwitchInst>(in.I);
        V c = A(0);
        if (c.isC()) {
            for (auto &cs : sw->cases()) if (ap(cs.getCaseValue()->getValue()) == c.c) { enterBlock(s, f, f.fn->bbi[cs.getCaseSuccessor()]); return CONT; }
            enterBlock(s, f, f.fn->bbi[sw->getDefaultDest()]); return CONT;
        }
        std::map<int, V> by; V none = mkC(1, 1);
        for (auto &cs : sw->cases()) {
            V eq = x_eq(c, mkC(ap(cs.getCaseValue()->getValue()), c.w));
            int t = f.fn->bbi[cs.getCaseSuccessor()];
            if (by.count(t)) by[t] = x_or(by[t], eq); else by[t] = eq;
            none = x_and(none, x_not(eq));
        }
        int d = f.fn->bbi[sw->getDefaultDest()];
        if (by.count(d)) by[d] = x_or(by[d], none); else by[d] = none;
        std::vector<std::pair<V, int>> alts; for (auto &kv : by) alts.push_back({kv.second, kv.first});
        return branchOn(s, alts); }
    case Instruction::Unreachable: throw ViolationEx{"unreachable", "reached unreachable code"};
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor:
    case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
        if (!R(0).agg) f.L[in.dst].v = binop(in.op, A(0), A(1));
        else f.L[in.dst] = map2(R(0), R(1), [&](const V &a, const V &b) { return binop(in.op, a, b); });
        break;
    case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
        V b = A(1);
        V z = x_eq0(b);
        if (z.isC()) { if (z.c) throw ViolationEx{"arith", "division by zero"}; }
        else {
            std::shared_ptr<Model> m; Res r = check(s, z, m);
            if (r == SAT) { report(s, m, "arith", "division by zero"); if (stopAll) throw PathEnd{}; V nz = x_not(z); std::shared_ptr<Model> m2; if (check(s, nz, m2) != SAT) throw PathEnd{}; assume(s, nz, m2); }
        }
        f.L[in.dst].v = binop(in.op, A(0), b);
        break; }
    case Instruction::ICmp: {
        auto p = cast<ICmpInst>(in.I)->getPredicate();
        if (!R(0).agg) f.L[in.dst].v = icmp(p, A(0), A(1));
        else f.L[in.dst] = map2(R(0), R(1), [&](const V &a, const V &b) { return icmp(p, a, b); });
        break; }
    case Instruction::ZExt: { if (!R(0).agg) f.L[in.dst].v = x_zext(A(0), in.w); else { unsigned ew = tw(cast<VectorType>(in.I->getType())->getElementType()); f.L[in.dst] = map1(R(0), [&](const V &a) { return x_zext(a, ew); }); } break; }
    case Instruction::SExt: { if (!R(0).agg) f.L[in.dst].v = x_sext(A(0), in.w); else { unsigned ew = tw(cast<VectorType>(in.I->getType())->getElementType()); f.L[in.dst] = map1(R(0), [&](const V &a) { return x_sext(a, ew); }); } break; }
    case Instruction::Trunc: { if (!R(0).agg) f.L[in.dst].v = x_extract(A(0), 0, in.w); else { unsigned ew = tw(cast<VectorType>(in.I->getType())->getElementType()); f.L[in.dst] = map1(R(0), [&](const V &a) { return x_extract(a, 0, ew); }); } break; }
    case Instruction::PtrToInt: case Instruction::IntToPtr: f.L[in.dst].v = in.w <= A(0).w ? x_extract(A(0), 0, in.w) : x_zext(A(0), in.w); break;
    case Instruction::BitCast: if (R(0).agg || !in.w) f.L[in.dst] = unflatten(flattenBits(R(0)), in.I->getType()); else f.L[in.dst] = R(0); break;
    case Instruction::Freeze: f.L[in.dst] = R(0); break;
    case Instruction::Select: {
        if (R(0).agg) { std::vector<RV> v; for (size_t i = 0; i < R(0).agg->size(); i++) v.push_back(selRV((*R(0).agg)[i].v, (*R(1).agg)[i], (*R(2).agg)[i])); f.L[in.dst] = mkAgg(std::move(v)); }
        else { RV r = selRV(A(0), R(1), R(2)); f.L[in.dst] = r; }
        break; }
    case Instruction::GetElementPtr: {
        V a = x_add(A(0), mkC(in.gepOff, 64));
        for (auto &g : in.gep) { V ix = R(g.first).v; ix = ix.w < 64 ? x_sext(ix, 64) : ix; a = x_add(a, x_mul(ix, mkC(g.second, 64))); }
        f.L[in.dst].v = a;
        break; }
    case Instruction::Alloca: {
        auto *al = cast<AllocaInst>(in.I);
        u64 n = (u64)concrete(s, A(0)) * DL->getTypeAllocSize(al->getAllocatedType());
        u64 a = allocObj(s, n, 's', false);
        f.allocas.push_back(a);
        f.L[in.dst].v = mkC(a, 64);
        break; }
    case Instruction::Load: {
        Type *T = in.I->getType();
        if (in.w) { unsigned n = DL->getTypeStoreSize(T); V v = doLoad(s, A(0), n); f.L[in.dst].v = v.w == in.w ? v : x_extract(v, 0, in.w); }
        else f.L[in.dst] = aggLoad(s, (u64)concrete(s, A(0)), T);
        break; }
    case Instruction::Store: {
        Type *T = in.I->getOperand(0)->getType();
        if (tw(T)) doStore(s, A(1), A(0), DL->getTypeStoreSize(T));
        else aggStore(s, (u64)concrete(s, A(1)), R(0), T);
        break; }
    case Instruction::ExtractValue: {
        const RV *r = &R(0); for (unsigned i : cast<ExtractValueInst>(in.I)->indices()) r = &(*r->agg)[i];
        RV c = *r; f.L[in.dst] = c;
        break; }
    case Instruction::InsertValue: {
        std::function<RV(const RV &, ArrayRef<unsigned>)> ins = [&](const RV &a, ArrayRef<unsigned> ix) -> RV { if (ix.empty()) return R(1); std::vector<RV> v = *a.agg; v[ix[0]] = ins(v[ix[0]], ix.slice(1)); return mkAgg(std::move(v)); };
        f.L[in.dst] = ins(R(0), cast<InsertValueInst>(in.I)->getIndices());
        break; }
    case Instruction::ExtractElement: { RV r = (*R(0).agg)[(size_t)concrete(s, A(1))]; f.L[in.dst] = r; break; }
    case Instruction::InsertElement: { std::vector<RV> v = *R(0).agg; v[(size_t)concrete(s, A(2))] = R(1); f.L[in.dst] = mkAgg(std::move(v)); break; }
    case Instruction::ShuffleVector: {
        auto *sv = cast<ShuffleVectorInst>(in.I); std::vector<RV> v; size_t n = R(0).agg->size();
        for (int k : sv->getShuffleMask()) { if (k < 0) v.push_back(zeroOf(cast<VectorType>(in.I->getType())->getElementType())); else v.push_back((size_t)k < n ? (*R(0).agg)[k] : (*R(1).agg)[k - n]); }
        f.L[in.dst] = mkAgg(std::move(v)); break; }
    case Instruction::AtomicRMW: {
        auto *r = cast<AtomicRMWInst>(in.I); unsigned n = in.w / 8; V a = A(0), v = A(1), old = doLoad(s, a, n), nv;
        switch (r->getOperation()) { case AtomicRMWInst::Add: nv = x_add(old, v); break; case AtomicRMWInst::Sub: nv = x_sub(old, v); break; case AtomicRMWInst::Xchg: nv = v; break; case AtomicRMWInst::Or: nv = x_or(old, v); break; case AtomicRMWInst::And: nv = x_and(old, v); break; default: fatal("atomicrmw"); }
        doStore(s, a, nv, n); f.L[in.dst].v = old; break; }
    case Instruction::AtomicCmpXchg: {
        V a = A(0), cmp = A(1), nv = A(2); unsigned n = cmp.w / 8; V old = doLoad(s, a, n); V eq = x_eq(old, cmp);
        doStore(s, a, x_ite(eq, nv, old), n); f.L[in.dst] = mkAgg({scalar(old), scalar(eq)}); break; }
    case Instruction::Fence: break;
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
        double a, b, r; optFP(s, A(0), a); optFP(s, A(1), b);
        r = in.op == Instruction::FAdd ? a + b : in.op == Instruction::FSub ? a - b : in.op == Instruction::FMul ? a * b : in.op == Instruction::FDiv ? a / b : fmod(a, b);
        f.L[in.dst].v = fpv(r, in.w); break; }
    case Instruction::FNeg: { double a; optFP(s, A(0), a); f.L[in.dst].v = fpv(-a, in.w); break; }
    case Instruction::FPExt: case Instruction::FPTrunc: { double a; optFP(s, A(0), a); f.L[in.dst].v = fpv(a, in.w); break; }
    case Instruction::UIToFP: f.L[in.dst].v = fpv((double)concrete(s, A(0)), in.w); break;
    case Instruction::SIToFP: { V x = A(0); u128 c = concrete(s, x); i128 v = (i128)(c << (128 - x.w)) >> (128 - x.w); f.L[in.dst].v = fpv((double)v, in.w); break; }
    case Instruction::FPToUI: { double a; optFP(s, A(0), a); f.L[in.dst].v = mkC((u128)a, in.w); break; }
    case Instruction::FPToSI: { double a; optFP(s, A(0), a); f.L[in.dst].v = mkC((u128)(i128)a, in.w); break; }
    case Instruction::FCmp: {
        double a, b; optFP(s, A(0), a); optFP(s, A(1), b); bool r, u = std::isnan(a) || std::isnan(b);
        switch (cast<FCmpInst>(in.I)->getPredicate()) {
        case CmpInst::FCMP_OEQ: r = !u && a == b; break; case CmpInst::FCMP_UNE: r = u || a != b; break; case CmpInst::FCMP_ONE: r = !u && a != b; break; case CmpInst::FCMP_UEQ: r = u || a == b; break;
        case CmpInst::FCMP_OLT: r = a < b; break; case CmpInst::FCMP_OLE: r = a <= b; break; case CmpInst::FCMP_OGT: r = a > b; break; case CmpInst::FCMP_OGE: r = a >= b; break;
        case CmpInst::FCMP_ULT: r = u || a < b; break; case CmpInst::FCMP_ULE: r = u || a <= b; break; case CmpInst::FCMP_UGT: r = u || a > b; break; case CmpInst::FCMP_UGE: r = u || a >= b; break;
        case CmpInst::FCMP_ORD: r = !u; break; case CmpInst::FCMP_UNO: r = u; break; default: r = false; }
        f.L[in.dst].v = mkC(r, 1); break; }
    case Instruction::LandingPad: {
        auto *lp = cast<LandingPadInst>(in.I);
        uint32_t sel = 0;
        for (unsigned i = 0; i < lp->getNumClauses(); i++) {
            if (lp->isFilter(i)) { sel = 0xffffffff; break; }
            Constant *cl = lp->getClause(i); u64 ct = isa<ConstantPointerNull>(cl) ? 0 : constAddr(cl); u64 adj = 0;
            if (!ct) { sel = 1; break; }
            if (derives(s, s.excType, ct, s.excObj, adj)) { sel = (uint32_t)(ct & 0x7fffffff); break; }
        }
        f.L[in.dst] = mkAgg({scalar(mkC(s.excObj, 64)), scalar(mkC(sel, 32))});
        break; }
    case Instruction::Resume: {
        s.excObj = (u64)concrete(s, (*R(0).agg)[0].v);
        popFrame(s); unwind(s); return CONT; }
    case Instruction::Call: case Instruction::Invoke: {
        Function *F = in.callee;
        std::vector<RV> args;
        size_t n = in.ops.size();
        if (!F) {
            n--;
            u64 a = (u64)concrete(s, R(n).v);
            auto it = faddr.find(a);
            if (it == faddr.end()) throw ViolationEx{"memory", "call through invalid function pointer"};
            F = it->second;
        }
        for (size_t i = 0; i < n; i++) args.push_back(R(i));
        f.call = &in;
        if (!F->isDeclaration() && !isHooked(F)) { pushCall(s, F, args); return CONT; }
        RV r;
        size_t depth = s.stack.size();
        const Inst *me = &in;
        ExtRes er = external(s, F, args, in, r);
        if (er == X_UNWIND) { unwind(s); return CONT; }
        if (er == X_MOVED) return CONT;
        (void)depth; (void)me;
        retTo(s, r);
        return CONT; }
    default:
        fatal(std::string("unsupported instruction ") + in.I->getOpcodeName());
    }
    f.ip++;
    return CONT;
}

// ------------------------------------------------------------------ merging
static bool looksAddr(u128 c) { u64 x = (u64)c; return (x >= 0x700000000000ULL && x < 0x7fffffffffffULL) || (x >= 0x10000000 && x < 0x20000000); }
static bool mergeV(const V &c, const V &a, const V &b, V &o) {
    if (sameV(a, b)) { o = a; return true; }
    if (a.w != b.w) return false;
    if (a.w == 64 && ((a.isC() && looksAddr(a.c)) || (b.isC() && looksAddr(b.c)))) return false;
    o = x_ite(c, a, b);
    return true;
}
static bool mergeRV(const V &c, const RV &a, const RV &b, RV &o) {
    if ((a.agg == nullptr) != (b.agg == nullptr)) return false;
    if (a.agg) {
        if (a.agg == b.agg) { o = a; return true; }
        if (a.agg->size() != b.agg->size()) return false;
        std::vector<RV> v(a.agg->size());
        for (size_t i = 0; i < v.size(); i++) if (!mergeRV(c, (*a.agg)[i], (*b.agg)[i], v[i])) return false;
        o = mkAgg(std::move(v)); return true;
    }
    V x; if (!mergeV(c, a.v, b.v, x)) return false;
    o = scalar(x); return true;
}
static ObjP mergeObj(const V &c, const ObjP &a, const ObjP &b) {
    auto o = std::make_shared<Obj>(*a);
    auto sameByte = [&](u64 i) { SymByte x = a->s.empty() ? SymByte{nullptr, 0} : a->s[i], y = b->s.empty() ? SymByte{nullptr, 0} : b->s[i]; return x.e == y.e && (x.e ? x.k == y.k : a->c[i] == b->c[i]); };
    auto ent = [&](const ObjP &p, u64 i) { return p->s.empty() ? SymByte{nullptr, 0} : p->s[i]; };
    auto get = [&](const ObjP &p, u64 i, unsigned n) -> V {
        V r; bool first = true;
        for (unsigned k = 0; k < n;) {
            SymByte sb = ent(p, i + k); V piece; unsigned j = k + 1;
            if (sb.e == &uninitMark) { piece = mkC(0, 8); }
            else if (!sb.e) { u128 cc = p->c[i + k]; while (j < n && !ent(p, i + j).e) { cc |= (u128)p->c[i + j] << (8 * (j - k)); j++; } piece = mkC(cc, 8 * (j - k)); }
            else { while (j < n && ent(p, i + j).e == sb.e && ent(p, i + j).k == sb.k + (j - k)) j++; V e = mkE(sb.e); unsigned lo = sb.k * 8, wid = 8 * (j - k); if (lo + wid > e.w) e = x_zext(e, lo + wid); piece = x_extract(e, lo, wid); }
            if (first) { r = piece; first = false; } else r = x_concat(piece, r);
            k = j;
        }
        return r;
    };
    for (u64 i = 0; i < a->size;) {
        if (sameByte(i)) {
            // a chunk that starts here but differs later must be handled as a whole
            unsigned n = std::max(a->chunk[i], b->chunk[i]); bool diff = false;
            for (unsigned k = 1; k < n && i + k < a->size; k++) if (!sameByte(i + k)) diff = true;
            if (!diff || !n) { i++; continue; }
        }
        unsigned n = std::max<unsigned>(1, std::max(a->chunk[i], b->chunk[i]));
        if (i + n > a->size) n = a->size - i;
        // both uninitialised on one side: keep the other side's bytes only if all of them are uninit
        auto unin = [&](const ObjP &p) { for (unsigned k = 0; k < n; k++) if (ent(p, i + k).e != &uninitMark) return false; return true; };
        bool ua = unin(a), ub = unin(b);
        if (ua || ub) {
            const ObjP &src = ua ? b : a;
            for (unsigned k = 0; k < n; k++) { o->c[i + k] = src->c[i + k]; if (!src->s.empty()) { o->ensureSym(); o->s[i + k] = src->s[i + k]; } else if (!o->s.empty()) o->s[i + k] = SymByte{nullptr, 0}; }
        } else {
            V x = get(a, i, n), y = get(b, i, n), z;
            if (n < 8 && i % 8 == 0) { /* pieces of pointers are written whole: chunk would be 8 */ }
            if (!mergeV(c, x, y, z)) return nullptr;
            storeBytes(o.get(), i, z, n);
        }
        o->chunk[i] = n;
        i += n;
    }
    return o;
}
static State *tryMerge(State *a, State *b) {
    if (a->stack.size() != b->stack.size() || a->symNo != b->symNo || a->excObj != b->excObj || a->caught != b->caught || a->noMerge != b->noMerge || a->allowExit != b->allowExit || a->obs.size() != b->obs.size()) return nullptr;
    if (a->noMerge) return nullptr;
    for (size_t i = 0; i < a->stack.size(); i++) { Frame &x = a->stack[i], &y = b->stack[i]; if (x.fn != y.fn || x.bb != y.bb || x.ip != y.ip || x.call != y.call) return nullptr; }
    size_t p = 0; while (p < a->pc.size() && p < b->pc.size() && a->pc[p] == b->pc[p]) p++;
    V ca = mkC(1, 1), cb = mkC(1, 1);
    for (size_t i = p; i < a->pc.size(); i++) ca = x_and(ca, mkE(a->pc[i]));
    for (size_t i = p; i < b->pc.size(); i++) cb = x_and(cb, mkE(b->pc[i]));
    V c = ca;    // paths are exclusive; a short selector if the first differing constraints are complementary
    if (p < a->pc.size() && p < b->pc.size() && sameV(mkE(a->pc[p]), x_not(mkE(b->pc[p])))) c = mkE(a->pc[p]);
    // memory: objects present in only one state are kept (they are unreachable from the other)
    std::unique_ptr<State> m(new State(*a));
    for (auto &kv : b->mem) {
        auto it = m->mem.find(kv.first);
        if (it == m->mem.end()) { if (kv.second->kind == 's') { /* stack object of a dead frame cannot occur */ } m->mem[kv.first] = kv.second; continue; }
        if (it->second == kv.second) continue;
        ObjP o = mergeObj(c, it->second, kv.second);
        if (!o) return nullptr;
        it->second = o;
    }
    for (size_t i = 0; i < a->stack.size(); i++) {
        Frame &x = a->stack[i], &y = b->stack[i], &z = m->stack[i];
        std::vector<bool> *live = nullptr;
        if (i + 1 == a->stack.size()) { computeLive(x.fn); live = &x.fn->liveIn[x.bb]; }
        else if (x.L.size() == y.L.size()) { /* callers are unchanged since the fork unless the fork was below */ }
        for (size_t k = 0; k < x.L.size(); k++) {
            if (x.L[k].agg == y.L[k].agg && sameV(x.L[k].v, y.L[k].v)) continue;
            if (live && !(*live)[k]) { z.L[k] = RV(); continue; }
            if ((!x.L[k].agg && x.L[k].v.w == 0) || (!y.L[k].agg && y.L[k].v.w == 0)) { z.L[k] = RV(); continue; }
            if (!mergeRV(c, x.L[k], y.L[k], z.L[k])) return nullptr;
        }
        if (x.allocas != y.allocas) { for (u64 q : y.allocas) if (std::find(z.allocas.begin(), z.allocas.end(), q) == z.allocas.end()) z.allocas.push_back(q); }
    }
    for (size_t i = 0; i < a->obs.size(); i++) { V o; if (a->obs[i].first != b->obs[i].first || !mergeV(c, a->obs[i].second, b->obs[i].second, o)) return nullptr; m->obs[i].second = o; }
    m->pc.resize(p);
    V d = x_or(ca, cb);
    if (!d.isC()) m->pc.push_back(d.e);
    m->known.clear();
    for (auto &kv : a->known) { auto it = b->known.find(kv.first); if (it != b->known.end() && it->second == kv.second) m->known.insert(kv); }
    st.merges++;
    return m.release();
}

// ------------------------------------------------------------------ exploration
struct Join { size_t depth; FnInfo *fn; int bb; };
static void endPath(State *s) {
    st.paths++;
    if (sampleReplays.size() < optSamples || (st.paths & (st.paths - 1)) == 0) {
        if (sampleReplays.size() < optSamples * 4) {
            std::string p = replayPrefix + "sample" + std::to_string(sampleReplays.size()) + ".txt";
            Model m; m.val = s->model->val;
            writeReplay(*s, m, p, "path sample", true);
            sampleReplays.push_back(p);
        }
    }
}
static bool atJoin(State *s, const Join *j) {
    if (!j) return false;
    if (s->stack.size() < j->depth) return true;            // escaped by unwinding
    if (s->stack.size() != j->depth) return false;
    Frame &f = s->stack.back();
    return f.fn == j->fn && f.bb == j->bb && f.ip == f.fn->bbs[j->bb].nphi && !f.call;
}
static void run(State *s, const Join *js, std::vector<State *> &arrived) {
    unsigned tick = 0;
    while (true) {
        if (stopAll) { delete s; return; }
        if (js && atJoin(s, js)) { arrived.push_back(s); return; }
        StepRes r;
        st.insts++;
        if ((++tick & 0xfff) == 0) {
            if (nowS() - t0 > optTime) { giveUp("time limit reached at " + where(*s)); stopAll = true; std::string p = replayPrefix + "limit.txt"; Model m; m.val = s->model->val; writeReplay(*s, m, p, "limit", false); delete s; return; }
            if (st.insts > optInsts) { giveUp("instruction limit reached at " + where(*s)); stopAll = true; std::string p = replayPrefix + "limit.txt"; Model m; m.val = s->model->val; writeReplay(*s, m, p, "limit", false); delete s; return; }
        }
        try { r = step(*s); }
        catch (PathEnd &) { delete s; return; }
        catch (ViolationEx &v) { report(*s, s->model, v.kind, v.label); delete s; return; }
        catch (ForkReq &f) {
            delete s;
            for (size_t i = 1; i < f.succ.size(); i++) run(f.succ[i], js, arrived);
            s = f.succ[0];
            continue;
        }
        if (r == CONT) continue;
        if (r == ENDED) { endPath(s); delete s; return; }
        // forked
        std::vector<State *> succ; succ.swap(pendingFork);
        Join j2{s->stack.size(), s->stack.back().fn, pendingJoin};
        bool merge = optMerge && !s->noMerge && pendingJoin >= 0;
        delete s;
        if (!merge) {
            for (size_t i = 1; i < succ.size(); i++) run(succ[i], js, arrived);
            s = succ[0];
            continue;
        }
        std::vector<State *> arr;
        for (auto *t : succ) run(t, &j2, arr);
        std::vector<State *> groups;
        for (auto *t : arr) {
            bool done = false;
            if (t->stack.size() == j2.depth) {
                for (auto &g : groups) if (g->stack.size() == j2.depth) {
                    State *mm = tryMerge(g, t);
                    if (mm) { delete g; delete t; g = mm; done = true; break; }
                    st.mergeFail++;
                }
            }
            if (!done) groups.push_back(t);
        }
        if (groups.empty()) return;
        for (size_t i = 1; i < groups.size(); i++) run(groups[i], js, arrived);
        s = groups[0];
    }
}

// ------------------------------------------------------------------ globals
static void initConst(Obj &o, u64 off, const Constant *C) {
    Type *T = C->getType();
    if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) return;
    if (auto *cd = dyn_cast<ConstantDataSequential>(C)) { StringRef r = cd->getRawDataValues(); memcpy(&o.c[off], r.data(), r.size()); return; }
    if (auto *S = dyn_cast<ConstantStruct>(C)) { auto *sl = DL->getStructLayout(S->getType()); for (unsigned i = 0; i < S->getNumOperands(); i++) initConst(o, off + sl->getElementOffset(i), S->getOperand(i)); return; }
    if (auto *A = dyn_cast<ConstantAggregate>(C)) { u64 es = DL->getTypeAllocSize(A->getOperand(0)->getType()); for (unsigned i = 0; i < A->getNumOperands(); i++) initConst(o, off + es * i, A->getOperand(i)); return; }
    RV r = constVal(C);
    unsigned n = DL->getTypeStoreSize(T);
    storeBytes(&o, off, r.v, n);
}
static State *initial(Module &Mod) {
    State *s = new State; s->model = std::make_shared<Model>();
    u64 fa = 0x10000000, ga = 0x11000000;
    for (auto &F : Mod) { gaddr[&F] = fa; faddr[fa] = &F; fa += 16; }
    for (auto &G : Mod.globals()) {
        u64 sz = G.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(G.getValueType()) : 64;
        if (G.isDeclaration() && sz < 128) sz = 128;
        gaddr[&G] = ga; ga += ((sz + 15) / 16) * 16 + 32;
    }
    for (auto &G : Mod.globals()) {
        auto o = std::make_shared<Obj>();
        u64 sz = G.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(G.getValueType()) : 64;
        if (G.isDeclaration() && sz < 128) sz = 128;
        o->base = gaddr[&G]; o->size = sz; o->kind = 'g'; o->name = G.getName().str(); o->c.assign(sz, 0); o->chunk.assign(sz, 0);
        if (G.hasInitializer()) initConst(*o, 0, G.getInitializer());
        if (G.getName() == "__libc_single_threaded") o->c[0] = 1;
        o->isConst = G.isConstant();
        if (G.isConstant()) constMem[o->base] = o; else s->mem[o->base] = o;
    }
    return s;
}
static std::string jstr(const std::string &s) { std::string r = "\""; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32) r += ' '; else r += c; } return r + "\""; }
static void writeOut() {
    FILE *f = outPath.empty() ? stdout : fopen(outPath.c_str(), "w");
    if (!f) return;
    struct rusage ru; getrusage(RUSAGE_SELF, &ru);
    fprintf(f, "{\"verdict\":%s,\n", violations.size() ? "\"violation\"" : inconclusive ? "\"inconclusive\"" : "\"holds\"");
    fprintf(f, "\"why\":%s,\n\"violations\":[", jstr(inconclusiveWhy).c_str());
    for (size_t i = 0; i < violations.size(); i++) fprintf(f, "%s{\"kind\":%s,\"label\":%s,\"where\":%s,\"replay\":%s}", i ? "," : "", jstr(violations[i].kind).c_str(), jstr(violations[i].label).c_str(), jstr(violations[i].where).c_str(), jstr(violations[i].replay).c_str());
    fprintf(f, "],\n\"reached\":{"); bool first = true;
    for (auto &kv : reached) { fprintf(f, "%s%s:%llu", first ? "" : ",", jstr(kv.first).c_str(), (unsigned long long)kv.second); first = false; }
    fprintf(f, "},\n\"insts\":%llu,\"paths\":%llu,\"forks\":%llu,\"merges\":%llu,\"merge_fail\":%llu,\"sym_branches\":%llu,\"asserts\":%llu,\"asserts_by_normal_form\":%llu,\"asserts_by_solver\":%llu,\"exprs\":%llu,\n",
            (unsigned long long)st.insts, (unsigned long long)st.paths, (unsigned long long)st.forks, (unsigned long long)st.merges, (unsigned long long)st.mergeFail, (unsigned long long)st.symBranches, (unsigned long long)st.asserts, (unsigned long long)st.assertTrivial, (unsigned long long)st.assertProved, (unsigned long long)exprCount());
    fprintf(f, "\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"query_cache_hits\":%llu,\"model_hits\":%llu,\"full_queries\":%llu,\"solver_s\":%.3f,\"max_query_s\":%.3f,\"wall_s\":%.3f,\"max_rss_mb\":%ld,\n",
            (unsigned long long)sstats.queries, (unsigned long long)sstats.sat, (unsigned long long)sstats.unsat, (unsigned long long)sstats.unknown, (unsigned long long)sstats.cacheHits, (unsigned long long)sstats.modelHits, (unsigned long long)sstats.fullQueries, sstats.time, sstats.maxTime, nowS() - t0, ru.ru_maxrss / 1024);
    fprintf(f, "\"functions\":["); first = true;
    for (size_t i = 0; i < subNames.size(); i++) if (subSeen[i]) { fprintf(f, "%s%s", first ? "" : ",", jstr(subNames[i]).c_str()); first = false; }
    fprintf(f, "],\n\"samples\":["); for (size_t i = 0; i < sampleReplays.size(); i++) fprintf(f, "%s%s", i ? "," : "", jstr(sampleReplays[i]).c_str());
    fprintf(f, "]}\n");
    if (f != stdout) fclose(f);
}
static int rc = 2; static std::string bcPath, entry = "harness_main";
static void *mainThread(void *) {
    try {
        LLVMContext C; SMDiagnostic err;
        auto mod = parseIRFile(bcPath, err, C);
        if (!mod) { err.print("symx", errs()); return nullptr; }
        M = mod.get(); DL = &M->getDataLayout();
        State *s = initial(*M);
        std::vector<State *> dummy;
        // constructors
        if (auto *G = M->getNamedGlobal("llvm.global_ctors")) if (G->hasInitializer()) if (auto *CA = dyn_cast<ConstantArray>(G->getInitializer())) {
            std::vector<std::pair<u64, Function *>> cs;
            for (auto &o : CA->operands()) { auto *cs2 = cast<ConstantStruct>(o); if (auto *F = dyn_cast<Function>(cs2->getOperand(1)->stripPointerCasts())) cs.push_back({cast<ConstantInt>(cs2->getOperand(0))->getZExtValue(), F}); }
            std::stable_sort(cs.begin(), cs.end(), [](auto &a, auto &b) { return a.first < b.first; });
            for (auto &c : cs) {
                pushCall(*s, c.second, {});
                while (!s->stack.empty()) { StepRes r = step(*s); if (r == FORKED) fatal("fork in constructor"); }
            }
        }
        Function *F = M->getFunction(entry);
        if (!F) fatal("no entry " + entry);
        pushCall(*s, F, {});
        run(s, nullptr, dummy);
    } catch (Fatal &f) { giveUp("engine: " + f.msg); }
    catch (ViolationEx &v) { giveUp("engine: in constructor: " + v.label); }
    catch (std::exception &e) { giveUp(std::string("engine exception: ") + e.what()); }
    writeOut();
    rc = violations.size() ? 1 : inconclusive ? 2 : 0;
    if (inconclusive) fprintf(stderr, "inconclusive: %s\n", inconclusiveWhy.c_str());
    fflush(nullptr);
    _exit(rc);
}
int main(int argc, char **argv) {
    t0 = nowS();
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto nx = [&]() { return std::string(argv[++i]); };
        if (a == "-e") entry = nx();
        else if (a == "-o") outPath = nx();
        else if (a == "-r") replayPrefix = nx();
        else if (a == "-t") optTime = atof(nx().c_str());
        else if (a == "-q") queryTimeout = atof(nx().c_str());
        else if (a == "-i") optInsts = strtoull(nx().c_str(), 0, 10);
        else if (a == "-cut") optCut = atoi(nx().c_str());
        else if (a == "-samples") optSamples = atoi(nx().c_str());
        else if (a == "-maxviol") optMaxViol = atoi(nx().c_str());
        else if (a == "-nomerge") optMerge = false;
        else if (a == "-v") optVerbose = true;
        else if (a == "-c") { std::string k = nx(); auto p = k.find('='); config[k.substr(0, p)] = atol(k.substr(p + 1).c_str()); }
        else bcPath = a;
    }
    pthread_attr_t at; pthread_attr_init(&at);
    size_t sz = (size_t)4 << 30;
    void *stk = mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    pthread_attr_setstack(&at, stk, sz);
    pthread_t th; pthread_create(&th, &at, mainThread, nullptr);
    // a query that ignores its own timeout is interrupted; a run that ignores its time limit is ended
    for (;;) {
        struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); ts.tv_nsec += 250000000; if (ts.tv_nsec >= 1000000000) ts.tv_sec++, ts.tv_nsec -= 1000000000;
        if (pthread_timedjoin_np(th, nullptr, &ts) == 0) break;
        interruptOverdue();
        if (nowS() - t0 > optTime + 3 * queryTimeout + 20) {
            if (!outPath.empty()) { FILE *f = fopen(outPath.c_str(), "w"); if (f) { fprintf(f, "{\"verdict\":\"inconclusive\",\"why\":\"time limit, no answer from the solver\",\"violations\":[],\"reached\":{},\"functions\":[],\"samples\":[]}\n"); fclose(f); } }
            fprintf(stderr, "inconclusive: hard time limit\n"); fflush(nullptr); _exit(2);
        }
    }
    return rc;
}
