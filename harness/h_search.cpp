// P19-P23: recursion and tempering searches over general linear generators.
#include <MTToolBox/AlgorithmRecursionSearch.hpp>
#include <MTToolBox/AlgorithmReducibleRecursionSearch.hpp>
#include <MTToolBox/AlgorithmRecursionAndTempering.hpp>
#include <MTToolBox/AlgorithmReducibleRT.hpp>
#include <MTToolBox/AlgorithmPartialBitPattern.hpp>
#include <MTToolBox/AlgorithmBestBits.hpp>
#include "lin.h"
using namespace MTToolBox;
using namespace NTL;
typedef WORD U;
static LinCfg<U> cfg;
static const int W = sizeof(U) * 8;
static GF2X mk(uint64_t bits, int n) { GF2X f; for (int i = 0; i <= n; i++) SetCoeff(f, i, (long)((bits >> i) & 1)); return f; }
static uint64_t unmk(const GF2X &f, int n) { uint64_t r = 0; for (int i = 0; i <= n; i++) r |= (uint64_t)(rep(coeff(f, i)) & 1) << i; return r; }
static uint64_t o_pmul(uint64_t a, uint64_t b) { uint64_t r = 0; for (int i = 0; i < 32; i++) if ((b >> i) & 1) r ^= a << i; return r; }
static int o_pdeg(uint64_t a) { int d = -1; for (int i = 0; i < 63; i++) if ((a >> i) & 1) d = i; return d; }
static uint64_t o_rem(uint64_t a, int n, uint64_t q, int d) { for (int i = n; i >= d; i--) a ^= (0 - ((a >> i) & 1)) & (q << (i - d)); return a; }
static bool o_primitive(uint64_t f, int n) {
    uint64_t N = ((uint64_t)1 << n) - 1, x = 1, bad = 0;
    for (uint64_t k = 1; k <= N; k++) { x <<= 1; x ^= (0 - ((x >> n) & 1)) & f; x &= N; bad |= k < N ? (uint64_t)(x == 1) : (uint64_t)(x != 1); }
    return bad == 0;
}
static bool o_irred(uint64_t f, int n) {
    uint64_t bad = 0;
    for (int d = 1; d <= n / 2; d++) for (uint64_t p = (uint64_t)1 << d; p < (uint64_t)2 << d; p++) bad |= (uint64_t)(o_rem(f, n, p, d) == 0);
    return bad == 0;
}
// parameter source with a log
struct Source : public ParameterGenerator {
    uint32_t w[8]; int n, draws;
    Source(int k) : n(k), draws(0) { for (int i = 0; i < 8; i++) w[i] = i < k ? sym_u32("param") : 0; }
    uint32_t getUint32() { if (draws >= n) sym_fail("more-parameters-drawn-than-tries"); return w[draws++]; }
    uint64_t getUint64() { return getUint32(); }
    void seed(uint64_t) { sym_fail("parameter-source-reseeded"); }
};
// linear generator whose transition is a search parameter
struct Rec : public Lin<U> {
    uint64_t mul;                            // the transition polynomial is param * mul
    Rec() : Lin<U>(&cfg), mul(1) {}
    Rec(const Rec &o) : Lin<U>(o), mul(o.mul) {}
    Rec *clone() const { return new Rec(*this); }
    uint64_t poly(uint32_t v) const { int d = cfg.n - o_pdeg(mul); uint64_t p = ((uint64_t)1 << d) | (v & (((uint64_t)1 << d) - 1)); uint64_t r = 0; for (int i = 0; i < 8; i++) if ((mul >> i) & 1) r ^= p << i; return r; }
    void setUpParam(ParameterGenerator &g) { cfg.F = poly(g.getUint32()); if (sym_config("PINF", 0)) cfg.F = sym_concretize(cfg.F); s = 0x5a & (((uint64_t)1 << cfg.n) - 1); }
};
static const char *pf4[] = {"3", "5", 0}, *pf6[] = {"3", "7", 0};
// ---- P21
static void recursion() {
    int n = cfg.n = (int)sym_config("N", 3), T = (int)sym_config("TRIES", 2), how = (int)sym_config("HOW", 0), rounds = (int)sym_config("ROUNDS", 1);
    uint64_t fun = sym_bits("functional", n); for (int j = 0; j < n; j++) cfg.col[j] = (U)((fun >> j) & 1) | ((U)(fun >> j) << (W - 1));   // bit 0 and the leading bit
    Rec g; Source src(T * rounds); AlgorithmPrimitivity ap(n == 6 ? pf6 : pf4);
    AlgorithmRecursionSearch<U> *a = how == 0 ? new AlgorithmRecursionSearch<U>(g, src) : new AlgorithmRecursionSearch<U>(g, src, ap);
    bool mers = n == 2 || n == 3 || n == 5 || n == 7;
    sym_assert(a->getCount() == 0, "count-starts-at-zero");
    for (int r = 0; r < rounds; r++) {
        int d0 = src.draws; bool ok = a->start(T);
        int first = T;                          // first acceptable parameter of this round
        for (int i = T - 1; i >= 0; i--) { bool acc = (how || mers) && fun != 0 && o_primitive(g.poly(src.w[d0 + i]), n); if (acc) first = i; }
        first = (int)sym_concretize((uint64_t)first);
        sym_assert(ok == (first < T), "success-iff-acceptable-parameter-tried");
        sym_assert(src.draws - d0 == (ok ? first + 1 : T), "stops-at-the-first-acceptable");
        sym_assert(a->getCount() == src.draws, "count-is-number-tried");
        if (ok) {
            uint64_t F = g.poly(src.w[d0 + first]);
            sym_assert(cfg.F == F, "generator-keeps-the-parameter");
            sym_assert(unmk(a->getMinPoly(), n) == F && deg(a->getMinPoly()) == n, "minimal-polynomial-reported");
            sym_assert(g.s != 0, "generator-is-not-in-the-zero-state");
            sym_reach("found");
        } else sym_reach("not-found");
        sym_observe("count", (uint64_t)a->getCount());
    }
    delete a;
}
// ---- P22
static void redrecursion() {
    int m = cfg.mexp = (int)sym_config("MEXP", 3), T = (int)sym_config("TRIES", 1), rounds = (int)sym_config("ROUNDS", 1); uint64_t mul = (uint64_t)sym_config("MUL", 1);
    int n = cfg.n = (int)sym_config("N", 4);
    uint64_t fun = sym_bits("functional", n); for (int j = 0; j < n; j++) cfg.col[j] = (U)((fun >> j) & 1);
    Rec g; g.mul = mul; Source src(T * rounds); AlgorithmReducibleRecursionSearch<U> a(g, src);
    for (int r = 0; r < rounds; r++) {
        int d0 = src.draws; bool ok = a.start(T);
        int used = src.draws - d0; sym_assert(used <= T && (ok || used == T), "tries-bounded"); used = (int)sym_concretize((uint64_t)used);
        sym_assert(a.getCount() == src.draws, "count-is-number-tried");
        // the characteristic polynomial belongs to the parameter the generator was left with
        uint64_t F = g.poly(src.w[d0 + used - 1]);
        sym_assert(cfg.F == F, "generator-keeps-the-last-parameter");
        // which tries have a factor of degree m in the minimal polynomial of output bit 0 after seed(1)?
        for (int i = 0; i < used; i++) {
            uint64_t save = cfg.F; cfg.F = g.poly(src.w[d0 + i]); Rec h; h.seed(1); vec_GF2 v; v.SetLength(2 * n); for (int t = 0; t < 2 * n; t++) v.put(t, (long)(h.generate() & 1)); cfg.F = save;
            GF2X e; MinPolySeq(e, v, n); uint64_t mp = unmk(e, n); uint64_t fac = 0; bool has = false;
            for (uint64_t q = (uint64_t)1 << m; q < (uint64_t)2 << m; q++) if (o_irred(q, m)) { bool d = o_rem(mp, n, q, m) == 0; has |= d; fac |= (0 - (uint64_t)d) & q; }
            bool last = i == used - 1;
            if (!last) sym_assert(!has, "an-earlier-acceptable-parameter-was-skipped");
            else {
                sym_assert(ok == has, "success-iff-large-factor");
                if (ok) { sym_assert(unmk(a.getIrreducibleFactor(), n) == fac, "irreducible-factor-reported"); sym_assert(unmk(a.getCharacteristicPolynomial(), n) == mp, "characteristic-polynomial-reported"); }
            }
        }
        if (ok) sym_reach("found"); else sym_reach("not-found");
    }
}
// ---- shortfall by definition
static uint64_t apply(uint64_t p, uint64_t s) { Lin<U> g(&cfg); g.s = s; uint64_t r = 0; for (int i = 0; i < 20; i++) { if ((p >> i) & 1) r ^= g.s; g.step(); } return r; }
// shortfall over accuracies 1..V of the generator's outputs on the m-dimensional space of states q(T)s; bound b
static int shortfall(const Lin<U> &g0, int V, int m, uint64_t q, int b, bool rev) {
    uint64_t row[64][16] = {{0}};
    for (int j = 0; j < m; j++) { Lin<U> g(g0); g.rev = rev; g.s = apply(q, (uint64_t)1 << j); for (int k = 0; k < m; k++) { U o = g.generate(); for (int i = 0; i < V && i < W; i++) row[i][k] |= (uint64_t)((o >> (W - 1 - i)) & 1) << j; } }
    int total = 0;
    for (int v = 1; v <= V && v <= b; v++) {
        int k = 0; bool on = true;
        for (int t = 1; t * v <= m; t++) { uint64_t r[16]; int c = 0; for (int a = 0; a < t; a++) for (int i = 0; i < v; i++) r[c++] = row[i][a]; on &= o_independent(r, c); k += on; }
        total += b / v - k;
    }
    return total;
}
// ---- P19
#ifndef PB_BITS
#define PB_BITS W
#define PB_PARAMS 2
#define PB_TRY 2
#define PB_STEP 2
#define PB_LSB false
#endif
struct PatLog : public Lin<U> {
    static int calls, nstep, lastIdx; static U touched[4], lastMask, inst[40][4];   // inst: parameters installed when a step ends
    PatLog() : Lin<U>(&cfg) {}
    PatLog(const PatLog &o) : Lin<U>(o) {}
    PatLog *clone() const { return new PatLog(*this); }
    void setTemperingPattern(U mask, U pat, int i) { if (calls && (mask != lastMask || i != lastIdx) && nstep < 40) { for (int k = 0; k < 4; k++) inst[nstep][k] = temper[k]; nstep++; } lastMask = mask; lastIdx = i; Lin<U>::setTemperingPattern(mask, pat, i); touched[i] |= mask; calls++; if (pat & ~mask) sym_fail("pattern-outside-its-mask"); sym_assert(rev == PB_LSB, "searches-in-the-documented-direction"); }
};
int PatLog::calls, PatLog::nstep, PatLog::lastIdx; U PatLog::touched[4], PatLog::lastMask, PatLog::inst[40][4];
static void pattern() {
    int n = cfg.n = (int)sym_config("N", 4), V = (int)sym_config("V", 2); cfg.F = (uint64_t)sym_config("F", 19);
    lin_columns(cfg, V);
    U keep = 0; for (int i = 0; i < V; i++) keep |= (U)1 << (PB_LSB ? i : W - 1 - i);
    for (int j = 0; j < n; j++) { if (PB_LSB) cfg.col[j] = (U)MTToolBox::reverse_bit(cfg.col[j]); cfg.col[j] &= keep; }
    cfg.ntemper = PB_PARAMS; cfg.shift[0] = 1; cfg.shift[1] = 2;
    PatLog g; g.s = 1; g.rev = (bool)sym_config("REV0", 0);
    U t0[4]; for (int i = 0; i < PB_PARAMS; i++) { t0[i] = (U)sym_config("T0", 0); g.temper[i] = g.tempered[i] = t0[i]; }
    AlgorithmPartialBitPattern<U, PB_BITS, PB_PARAMS, PB_TRY, PB_STEP, PB_LSB> a;
    // oracle: greedy choice step by step, each step free in its own bits; only the shortfall reached is fixed
    a(g, false);
    sym_assert(a.isLSBTempering() == PB_LSB, "isLSBTempering");
    sym_assert(!g.rev, "output-direction-restored");
    sym_assert(g.s == 1, "state-unchanged");
    for (int i = 0; i < PB_PARAMS; i++) {
        U allow = 0; for (int b = 0; b < PB_TRY; b++) allow |= (U)1 << (PB_LSB ? b : W - 1 - b);
        sym_assert(((g.temper[i] ^ t0[i]) & ~allow) == 0, "bits-outside-the-limit-unchanged");
        sym_assert((PatLog::touched[i] & ~allow) == 0, "masks-inside-the-limit");
        sym_assert((PatLog::touched[i] & allow) == allow, "every-bit-up-to-the-limit-searched");
    }
    // never worse than before, and no single step can be improved: the last step is optimal in its own bits
    Lin<U> before(g); for (int i = 0; i < PB_PARAMS; i++) before.temper[i] = before.tempered[i] = t0[i];
    int d0 = shortfall(before, W, n, 1, n, PB_LSB), d1 = shortfall(g, W, n, 1, n, PB_LSB);
    sym_assert(d1 <= d0, "not-worse-than-before");
    int prev = d0; bool mono = true;
    for (int k = 0; k < PatLog::nstep; k++) { Lin<U> o(g); for (int i = 0; i < PB_PARAMS; i++) o.temper[i] = o.tempered[i] = PatLog::inst[k][i]; int d = shortfall(o, W, n, 1, n, PB_LSB); mono &= d <= prev; prev = d; }
    sym_assert(mono && d1 <= prev, "no-step-installs-a-worse-pattern-than-it-started-from");
    int p0 = ((PB_TRY - 1) / PB_STEP) * PB_STEP; bool best = true, tie = true;
    int cnt = 0; for (int b = p0; b < PB_TRY; b++) cnt += (int)((g.temper[PB_PARAMS - 1] >> (PB_LSB ? b : W - 1 - b)) & 1);
    for (int pat = 0; pat < 1 << (PB_TRY - p0); pat++) {
        Lin<U> o(g); U m = 0, v = 0; int c = 0; for (int b = p0; b < PB_TRY; b++) { U bit = (U)1 << (PB_LSB ? b : W - 1 - b); m |= bit; if ((pat >> (b - p0)) & 1) v |= bit, c++; }
        o.setTemperingPattern(m, v, PB_PARAMS - 1); o.setUpTempering();
        int d = shortfall(o, W, n, 1, n, PB_LSB); best &= d1 <= d; tie &= !(d == d1 && c > cnt);
    }
    sym_assert(best, "last-step-has-the-smallest-shortfall");
    sym_observe("delta", (uint64_t)d1); sym_reach("done");
    if (sym_config("TIE", 0)) sym_assert(tie, "ties-prefer-the-heavier-pattern");
}
// ---- P20
static void bestbits() {
    int n = cfg.n = (int)sym_config("N", 4), V = (int)sym_config("V", 2), size = (int)sym_config("PARAMS", 2), limit = (int)sym_config("LIMIT", 2); cfg.F = (uint64_t)sym_config("F", 19);
    uint64_t lv = (uint64_t)sym_config("LIVE", 0); U keep = 0; for (int i = 0; i < W; i++) if (lv ? (lv >> i) & 1 : i < V) keep |= (U)1 << (W - 1 - i);
    if (lv) { LinCfg<U> t = cfg; lin_columns(t, V); for (int j = 0; j < n; j++) { U c = 0; int k = 0; for (int i = 0; i < W; i++) if ((lv >> i) & 1) { c |= ((t.col[j] >> (W - 1 - k)) & 1) << (W - 1 - i); k++; } cfg.col[j] = c; } }
    else lin_columns(cfg, V);
    for (int j = 0; j < n; j++) cfg.col[j] &= keep;
    if (sym_config("PIN", 0)) for (int j = 0; j < n; j++) cfg.col[j] = (U)sym_concretize(cfg.col[j]);
    cfg.ntemper = size; int sh[4]; for (int i = 0; i < size; i++) sh[i] = cfg.shift[i] = (int)sym_config(i ? "SH1" : "SH0", i + 1);
    Lin<U> g(&cfg); g.s = 1; g.rev = (bool)sym_config("REV0", 0); for (int i = 0; i < size; i++) g.temper[i] = g.tempered[i] = (U)sym_config("T0", 0);
    AlgorithmBestBits<U> a(W, sh, size, limit);
    a(g, false);
    sym_assert(!a.isLSBTempering(), "isLSBTempering"); sym_assert(!g.rev, "output-direction-reset"); sym_assert(g.s == 1, "state-unchanged");
    // oracle: breadth-first, keeping every parameter set of smallest shortfall at each accuracy
    // bits at stage p: position p+sum of the last shifts, for parameters 0.. as documented
    int np = size * (size + 1) / 2, prm[10], off[10]; { int idx = 0, start = 0, sum = 0, r = size - 1; for (int i = 0; i < size; i++) { prm[idx] = i; off[idx++] = 0; } (void)start; for (int lvl = 0; idx < np; lvl++) { sum += sh[r--]; for (int i = lvl; i < size - 1 && idx < np; i++) { prm[idx] = i; off[idx++] = sum; } } }
    static U surv[600][2], next[600][2]; int ns = 1, dmin = 0; for (int i = 0; i < size; i++) surv[0][i] = 0;
    for (int p = 0; p < limit; p++) {
        int nn = 0; dmin = 1 << 30;
        for (int q = 0; q < ns; q++) for (int pat = 0; pat < 1 << np; pat++) {
            U t[2]; for (int i = 0; i < size; i++) t[i] = surv[q][i];
            for (int b = 0; b < np; b++) { int pos = p + off[b]; if (pos >= W) continue; U bit = (U)1 << (W - 1 - pos); if ((pat >> (np - 1 - b)) & 1) t[prm[b]] |= bit; else t[prm[b]] &= ~bit; }
            Lin<U> o(g); for (int i = 0; i < size; i++) o.temper[i] = o.tempered[i] = t[i];
            int d = (int)sym_concretize((uint64_t)shortfall(o, p + 1, n, 1, n, false));
            if (d < dmin) { dmin = d; nn = 0; }
            if (d == dmin && nn < 600) { for (int i = 0; i < size; i++) next[nn][i] = t[i]; nn++; }
        }
        ns = nn; for (int q = 0; q < ns; q++) for (int i = 0; i < size; i++) surv[q][i] = next[q][i];
    }
    bool in = false; for (int q = 0; q < ns; q++) { bool e = true; for (int i = 0; i < size; i++) e &= surv[q][i] == g.temper[i]; in |= e; }
    sym_assert(in, "installed-set-survives-every-stage");
    sym_assert(shortfall(g, limit, n, 1, n, false) == dmin, "shortfall-minimal"); sym_observe("delta", (uint64_t)dmin); sym_reach("done");
}
// ---- P23
static int order[8], norder;
struct Temper : public AlgorithmTempering<U> {
    int id; bool lsb; U mask, pat; int idx; Lin<U> *g; uint64_t sawF; bool zeroState;
    Temper(int i, Lin<U> *gg) : id(i), lsb(false), mask(0), pat(0), idx(0), g(gg), sawF(0), zeroState(false) {}
    int operator()(TemperingCalculatable<U> &r, bool) { order[norder++] = id; sawF = cfg.F; zeroState = g->s == 0; r.resetReverseOutput(); r.setTemperingPattern(mask, pat, idx); r.setUpTempering(); return 12345; }
    bool isLSBTempering() const { return lsb; }
};
static void combined() {
    int n = cfg.n = (int)sym_config("N", 3), V = (int)sym_config("V", 2), how = (int)sym_config("HOW", 0), red = (int)sym_config("RED", 0), verbose = (int)sym_config("VERBOSE", 0);
    uint64_t mul = (uint64_t)sym_config("MUL", 1); int m = n - o_pdeg(mul); cfg.mexp = m;
    lin_columns(cfg, V); U keep = 1; for (int i = 0; i < V; i++) keep |= (U)1 << (W - 1 - i); for (int j = 0; j < n; j++) { cfg.col[j] &= keep; }
    cfg.ntemper = 2; cfg.shift[0] = 1; cfg.shift[1] = W - V;
    Rec g; g.mul = mul; Source src(2); AlgorithmPrimitivity ap(n == 6 ? pf6 : pf4);
    sym_assume((src.w[1] & ((1u << m) - 1)) == (unsigned)sym_config("SECOND", 3));      // the second parameter is acceptable
    bool vis = true; if (mul == 1) { uint64_t f0 = 0; for (int j = 0; j < n; j++) f0 |= (uint64_t)(cfg.col[j] & 1) << j; vis = f0 != 0; }
    else { // the large component is visible in output bit 0, and the parity word observes the small one
        int qd = n - m; uint64_t f0 = 0; for (int j = 0; j < n; j++) f0 |= (uint64_t)(cfg.col[j] & 1) << j;
        for (int w = 0; w < 2; w++) {
            cfg.F = g.poly(src.w[w]); uint64_t z = 0, P = ((uint64_t)1 << m) | (src.w[w] & (((uint64_t)1 << m) - 1));
            for (int j = 0; j < m; j++) { uint64_t x = f0 & apply(mul, (uint64_t)1 << j), b = 0; for (int k = 0; k < n; k++) b ^= (x >> k) & 1; z |= b; }
            if (w == 1) vis &= z != 0;
            for (uint64_t y = 1; y < (uint64_t)1 << qd; y++) { Lin<U> h(&cfg); h.s = apply(P, y); U o = 0; for (int t = 0; t < qd; t++) { h.step(); o |= h.out(); } vis &= o != 0; }
        }
    }
    sym_assume(vis);
    Temper t1(1, &g), t2(2, &g); t1.mask = (U)sym_bits("m1", V) << (W - V); t1.pat = (U)sym_bits("p1", V) << (W - V); sym_assume((t1.pat & ~t1.mask) == 0); t2.idx = 1; t2.mask = t1.mask; t2.pat = 0; t2.lsb = (bool)sym_config("LSB", 0);
    std::ostringstream os; norder = 0; bool ok; int delta, weight = 0; uint64_t poly;
    U par = 0;
    if (!red) {
        AlgorithmRecursionAndTempering<U> *a = sym_config("PF", 0) ? new AlgorithmRecursionAndTempering<U>(src, ap) : new AlgorithmRecursionAndTempering<U>(src);
        ok = how == 2 ? a->search(g, t1, verbose, os) : a->search(g, t1, t2, verbose, os, how == 1);
        delta = a->getDelta(); weight = a->getWeight(); poly = unmk(a->getCharacteristicPolynomial(), n); delete a;
    } else {
        AlgorithmReducibleRecursionAndTempering<U, Rec> a(src);
        ok = how == 2 ? a.search(g, t1, verbose, os) : a.search(g, t1, t2, verbose, os, how == 1);
        delta = a.getDelta(); poly = unmk(a.getIrreducibleFactor(), n); par = a.getParity();
    }
    sym_assert(ok, "found");
    int used = (int)sym_concretize((uint64_t)src.draws); uint64_t F = g.poly(src.w[used - 1]);
    sym_assert(cfg.F == F, "recursion-parameters-left-installed");
    sym_assert(how == 0 ? norder == 2 && order[0] == 2 && order[1] == 1 : norder == 1 && order[0] == 1, "tempering-algorithms-run-in-order");
    sym_assert(t1.sawF == F && !t1.zeroState, "tempering-runs-on-the-found-recursion");
    sym_assert(!g.rev, "output-direction-reset");
    sym_assert((g.temper[0] & t1.mask) == t1.pat, "tempering-left-installed");
    if (!red) {
        sym_assert(o_primitive(F, n), "maximal-period"); sym_assert(poly == F, "characteristic-polynomial");
        int w = 0; for (int i = 0; i <= n; i++) w += (int)((F >> i) & 1); sym_assert(weight == w, "weight");
        sym_assert(delta == shortfall(g, W, n, 1, n, false), "shortfall-of-the-installed-generator");
    } else {
        uint64_t P = F; { uint64_t v = src.w[used - 1]; P = ((uint64_t)1 << m) | (v & (((uint64_t)1 << m) - 1)); }
        sym_assert(poly == P && o_irred(P, m), "irreducible-factor");
        sym_assert(par == g.parityVec && par != 0, "parity-installed");
        sym_assert(apply(P, g.s) == 0 && g.s != 0, "left-in-the-large-component");
        sym_assert(delta == shortfall(g, W, m, mul, m, false), "shortfall-of-the-installed-generator");
    }
    sym_observe("delta", (uint64_t)delta); sym_reach("found");
}
extern "C" void harness_main() {
    switch (sym_config("CASE", 0)) {
    case 1: recursion(); break;
    case 2: redrecursion(); break;
    case 3: pattern(); break;
    case 4: bestbits(); break;
    case 5: combined(); break;
    }
}
