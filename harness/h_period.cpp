// P08, P09, P10, P12, P13, P14: parameter source, Mersenne exponents, primitivity, factors, minimal polynomials.
#include <MTToolBox/util.hpp>
#include <MTToolBox/period.hpp>
#include <MTToolBox/Sequential.hpp>
#include <MTToolBox/AlgorithmPrimitivity.hpp>
#include "sym.h"
using namespace MTToolBox;
using namespace NTL;
// ---- Sequential
template <class T> static void seqDirect() {
    int n = (int)sym_config("N", 8);
    T s = (T)sym_bits("seed", sizeof(T) * 8), m = (T)sym_bits("mask", sizeof(T) * 8);
    SymStorage<Sequential<T>> st("paint");
    Sequential<T> *g; int how = (int)sym_config("HOW", 0);
    if (how == 0) g = new (st.p()) Sequential<T>(m, s);
    else if (how == 1) { g = new (st.p()) Sequential<T>(m); s = (T)-1; }
    else if (how == 5) { // a copy taken in the middle goes on by itself
        Sequential<T> o(m, s); sym_assume(s >= 2); o.next(); g = new (st.p()) Sequential<T>(o); o.next(); s--; }
    else {
        g = new (st.p()) Sequential<T>(m, (T)sym_bits("seed0", sizeof(T) * 8));
        int used = (int)sym_choice("used", 4);
        for (int i = 0; i < used; i++) try { g->next(); } catch (std::underflow_error &) {}
        if (how == 2) g->reseed(s);
        else if (how == 3) { ParameterGenerator *p = g; p->seed((uint64_t)s); }
        else g->seed((uint32_t)s), s = (T)(uint32_t)s;
    }
    int call = (int)sym_config("CALL", 0);
    T prev = 0; bool thrown = false;
    for (int i = 0; i < n; i++) {
        bool threw = false; uint64_t v = 0, want;
        ParameterGenerator *p = g;
        try { v = call == 0 ? (uint64_t)g->next() : call == 1 ? (uint64_t)p->getUint32() : p->getUint64(); }
        catch (std::underflow_error &) { threw = true; }
        sym_assert(threw == ((T)i > s), "throws-exactly-after-zero");
        if (threw) { thrown = true; sym_reach("exhausted"); continue; }
        want = (uint64_t)(T)((T)(s - (T)i) ^ m); if (call == 1) want = (uint32_t)want;
        sym_assert(v == want, "countdown-value");
        if (i) sym_assert(((T)v ^ prev) != 0 || call == 1, "distinct");
        prev = (T)v; sym_observe("v", v);
    }
    sym_assert(g->bitSize() == (int)sizeof(T) * 8, "bitSize");
    sym_reach("done"); (void)thrown;
}
// one step from seed s leaves the source exactly where a fresh source with seed s-1 starts
template <class T> static void seqInduct() {
    T s = (T)sym_bits("seed", sizeof(T) * 8), m = (T)sym_bits("mask", sizeof(T) * 8);
    sym_assume(s > 0);
    Sequential<T> a(m, s), b(m, (T)(s - 1));
    a.next();
    for (int i = 0; i < 3; i++) {
        bool ta = false, tb = false; T x = 0, y = 0;
        try { x = a.next(); } catch (std::underflow_error &) { ta = true; }
        try { y = b.next(); } catch (std::underflow_error &) { tb = true; }
        sym_assert(ta == tb && x == y, "step-is-decrement");
    }
    sym_reach("done");
}
// ---- isMexp: the exponents of the Mersenne primes up to 25964951 (OEIS A000043)
static const uint32_t mexps[] = {2, 3, 5, 7, 13, 17, 19, 31, 61, 89, 107, 127, 521, 607, 1279, 2203, 2281, 3217, 4253, 4423, 9689, 9941, 11213, 19937, 21701, 23209, 44497, 86243, 110503, 132049, 216091, 756839, 859433, 1257787, 1398269, 2976221, 3021377, 6972593, 13466917, 20996011, 24036583, 25964951, 30402457, 32582657, 37156667, 42643801, 43112609, 57885161, 74207281, 77232917, 82589933, 136279841};
static void mexp() {
    uint32_t d = sym_u32("degree");
    bool known = false, low = d <= 25964951;
    for (uint32_t e : mexps) known |= d == e;
    bool r = isMexp(d);
    sym_assert(!r || known, "accepted-is-a-Mersenne-exponent");
    sym_assert(!(low && known) || r, "Mersenne-exponent-accepted");
    sym_observe("r", r); sym_reach("done");
}
// ---- polynomials
static GF2X mk(uint64_t bits, int n) { GF2X f; for (int i = 0; i <= n; i++) SetCoeff(f, i, (long)((bits >> i) & 1)); return f; }
static uint64_t unmk(const GF2X &f, int n) { uint64_t r = 0; for (int i = 0; i <= n; i++) r |= (uint64_t)(rep(coeff(f, i)) & 1) << i; return r; }
// x has order exactly 2^n-1 modulo f, by stepping the shift register through all powers
static bool o_primitive(uint64_t f, int n) {
    uint64_t N = ((uint64_t)1 << n) - 1, x = 1, bad = 0;
    for (uint64_t k = 1; k <= N; k++) {
        x <<= 1; x ^= (0 - ((x >> n) & 1)) & f; x &= N;
        if (k < N) bad |= (uint64_t)(x == 1); else bad |= (uint64_t)(x != 1);
    }
    return bad == 0;
}
static bool o_irred(uint64_t f, int n) {     // no product of two smaller polynomials: trial division
    uint64_t bad = 0;
    for (int d = 1; d <= n / 2; d++) for (uint64_t p = (uint64_t)1 << d; p < (uint64_t)2 << d; p++) {
        uint64_t a = f; for (int i = n; i >= d; i--) a ^= (0 - ((a >> i) & 1)) & (p << (i - d));
        bad |= (uint64_t)(a == 0);
    }
    return bad == 0;
}
static const char *pf[14][6] = {{0}, {0}, {"3", 0}, {"7", 0}, {"3", "5", 0}, {"31", 0}, {"3", "7", 0}, {"127", 0}, {"3", "5", "17", 0}, {"7", "73", 0}, {"3", "11", "31", 0}, {"23", "89", 0}, {"3", "5", "7", "13", 0}, {"8191", 0}};
static const long pfn[14][6] = {{0}, {0}, {3, 0}, {7, 0}, {3, 5, 0}, {31, 0}, {3, 7, 0}, {127, 0}, {3, 5, 17, 0}, {7, 73, 0}, {3, 11, 31, 0}, {23, 89, 0}, {3, 5, 7, 13, 0}, {8191, 0}};
static void primitivity() {
    int n = (int)sym_config("DEG", 4);
    uint64_t f = sym_bits("poly", n + 2) & (((uint64_t)1 << (n + 2)) - 1);     // degrees -1 .. n+1
    int d = -1; for (int i = 0; i <= n + 1; i++) if ((f >> i) & 1) d = i;
    d = (int)(int64_t)sym_concretize((uint64_t)(int64_t)d);
    bool prim = d == n && o_primitive(f, n);
    GF2X p = mk(f, n + 1);
    // list order must not matter
    const char *sl[6]; Vec<ZZ> zl; int cnt = 0; while (pf[n][cnt]) cnt++;
    int rot = (int)sym_config("ROT", 0); zl.SetLength(cnt);
    for (int i = 0; i < cnt; i++) { sl[i] = pf[n][(i + rot) % cnt]; zl[i] = to_ZZ(pfn[n][(i + rot) % cnt]); }
    sl[cnt] = 0;
    bool a, b;
    if (sym_config("HOW", 0) == 0) { a = isPrime(p, n, zl); sym_assert(a == prim, "isPrime(ZZ)-iff-primitive"); }
    if (sym_config("HOW", 0) == 1) { b = isPrime(p, n, sl); sym_assert(b == prim, "isPrime(strings)-iff-primitive"); }
    if (sym_config("HOW", 0) == 2) { AlgorithmPrimitivity ap(sl); b = ap(n, p); sym_assert(b == prim, "AlgorithmPrimitivity-iff-primitive"); b = ap(n, p); sym_assert(b == prim, "AlgorithmPrimitivity-again"); }
    if (sym_config("HOW", 0) == 3) {  // Mersenne
        bool irr = d >= 1 && o_irred(f, d);
        a = isPrime(p); sym_assert(a == (irr && (d == 2 || d == 3 || d == 5 || d == 7 || d == 13)), "isPrime-mersenne");
        b = MersennePrimitivity(n, p); sym_assert(b == (irr && d == n), "MersennePrimitivity");
        sym_assert(isIrreducible(p) == irr, "isIrreducible");
    }
    sym_assert(unmk(p, n + 1) == f, "argument-unchanged");
    sym_observe("prim", prim);
    if (prim) sym_reach("primitive"); else sym_reach("not-primitive");
}
// ---- hasFactorOfDegree: poly = any polynomial of degree < 2p
static bool o_factor(uint64_t f, int n, int p, uint64_t &fac) {   // unique irreducible factor of degree p (2p > deg)
    bool found = false; fac = 0;
    for (uint64_t q = (uint64_t)1 << p; q < (uint64_t)2 << p; q++) {
        if (!o_irred(q, p)) continue;         // q is concrete
        uint64_t a = f; for (int i = n; i >= p; i--) a ^= (0 - ((a >> i) & 1)) & (q << (i - p));
        bool div = a == 0; found |= div; fac |= (0 - (uint64_t)div) & q;
    }
    return found;
}
static void factor() {
    int p = (int)sym_config("P", 3), n = (int)sym_config("DEG", 2 * p - 1);
    uint64_t f = 0; int q = (int)sym_config("Q", 0);
    if (q) {            // f = a fixed polynomial of degree QD (given by Q) times any polynomial
        int qd = 0; for (int i = 0; i < 30; i++) if ((q >> i) & 1) qd = i;
        uint64_t c = sym_bits("cofactor", n - qd + 1);
        for (int i = 0; i <= n - qd; i++) f ^= (0 - ((c >> i) & 1)) & ((uint64_t)q << i);
    } else f = sym_bits("poly", n + 1);
    sym_assume(f != 0);
    int d = -1; for (int i = 0; i <= n; i++) if ((f >> i) & 1) d = i;
    d = (int)sym_concretize((uint64_t)d);
    uint64_t fac; bool has = o_factor(f, n, p, fac);
    GF2X poly = mk(f, n);
    bool r = hasFactorOfDegree(poly, p);
    sym_assert(r == has, "factor-found-iff-exists");
    if (r) { sym_assert(unmk(poly, n) == fac, "argument-is-the-factor"); sym_reach("found"); } else sym_reach("absent");
    sym_observe("r", r);
}
// ---- LCM
static void lcm() {
    int n = (int)sym_config("DEG", 4);
    uint64_t a = sym_bits("a", n + 1), b = sym_bits("b", n + 1); sym_assume(a != 0 && b != 0);
    GF2X x = mk(a, n), y = mk(b, n), l; uint64_t junk = sym_bits("old", 3); l = mk(junk, 2);
    int alias = (int)sym_config("ALIAS", 0);
    if (alias == 0) LCM(l, x, y);
    else if (alias == 1) { l = x; LCM(l, l, y); } else { l = y; LCM(l, x, l); }
    uint64_t v = unmk(l, 2 * n);
    sym_assert(v != 0, "nonzero");
    // divisible by both
    GF2X q, r; DivRem(q, r, l, x); sym_assert(IsZero(r), "divisible-by-first"); GF2X cx = q;
    DivRem(q, r, l, y); sym_assert(IsZero(r), "divisible-by-second"); GF2X cy = q;
    // least: the cofactors have no common factor (trial division by every polynomial of degree 1..n)
    uint64_t u = unmk(cx, n), w = unmk(cy, n); bool common = false;
    for (int d = 1; d <= n; d++) for (uint64_t p = (uint64_t)1 << d; p < (uint64_t)2 << d; p++) {
        uint64_t s = u, t = w;
        for (int i = n; i >= d; i--) { s ^= (0 - ((s >> i) & 1)) & (p << (i - d)); t ^= (0 - ((t >> i) & 1)) & (p << (i - d)); }
        common |= s == 0 && t == 0;
    }
    sym_assert(!common, "least");
    if (!alias) sym_assert(unmk(x, n) == a && unmk(y, n) == b, "arguments-unchanged");
    sym_observe("lcm", v); sym_reach("done");
}
// ---- minpoly of an arbitrary linear generator
// A generator whose outputs are any words; every output bit sequence of every linear generator is one of these.
template <class U> struct AnyGen : public AbstractGenerator<U> {
    U w[40]; int calls, claimed;
    U generate() { U r = w[calls < 40 ? calls : 39]; calls++; return r; }
    void seed(U) {}
    int bitSize() const { return claimed; }
};
template <class U> static void minp() {
    int n = (int)sym_config("N", 3), pos = (int)sym_config("POS", 0), how = (int)sym_config("HOW", 0), other = (int)sym_config("OTHER", 5);
    static AnyGen<U> g; g.calls = 0; uint32_t seq[40];
    for (int i = 0; i < 2 * n; i++) { g.w[i] = (U)sym_bits("out", sizeof(U) * 8); seq[i] = (uint32_t)(g.w[i] >> pos) & 1; }
    for (int i = 2 * n; i < 40; i++) g.w[i] = 0;
    g.claimed = how == 0 ? n : other;              // with an explicit state size the generator's own is not used
    GF2X f, e; f = GF2X(3, 1);
    if (how == 0) minpoly<U>(f, g, pos); else minpoly<U>(f, g, pos, n);
    sym_assert(g.calls == 2 * n, "uses-exactly-2n-outputs");
    vec_GF2 v; v.SetLength(2 * n);
    for (int i = 0; i < 2 * n; i++) v.put(i, (long)seq[i]);
    if (sym_config("DEFN", 0)) {
        // any recurrence of length <= n the bits obey is a multiple of f, and f is one of them
        uint64_t c = sym_bits("recurrence", n + 1); int d = (int)sym_choice("dc", n + 1);
        sym_assume((c >> d) == 1);
        bool ok = true;
        for (int t = 0; t + d < 2 * n; t++) { uint32_t b = 0; for (int i = 0; i <= d; i++) b ^= (uint32_t)((c >> i) & 1) & seq[t + i]; ok &= b == 0; }
        sym_assume(ok);                            // so the bits come from a linear generator of at most n state bits
        uint64_t m = unmk(f, n); int df = (int)sym_concretize((uint64_t)(deg(f) + 1)) - 1;
        sym_assert(df >= 0 && df <= d, "degree-at-most-any-recurrence");
        bool ann = true;
        for (int t = 0; t + df < 2 * n; t++) { uint32_t b = 0; for (int i = 0; i <= df; i++) b ^= (uint32_t)((m >> i) & 1) & seq[t + i]; ann &= b == 0; }
        sym_assert(ann, "annihilates-the-sequence");
        sym_observe("f", m);
    } else {
        MinPolySeq(e, v, n);
        sym_assert(f == e, "minimal-polynomial-of-the-bit-sequence");
    }
    sym_reach("done");
}
extern "C" void harness_main() {
    switch (sym_config("CASE", 0)) {
    case 1: seqDirect<uint32_t>(); break;
    case 2: seqDirect<uint64_t>(); break;
    case 3: seqInduct<uint32_t>(); break;
    case 4: seqInduct<uint64_t>(); break;
    case 5: mexp(); break;
    case 6: primitivity(); break;
    case 7: factor(); break;
    case 8: lcm(); break;
    case 9: minp<uint32_t>(); break;
    case 10: minp<uint64_t>(); break;
    case 11: minp<uint16_t>(); break;
    }
}
