// P15, P24, P35: the SIMD samples' Annihilate.cpp, calc_parity.cpp and calc_fixpoint.cpp on small generators
// that stand in for the sample classes (same names and member functions, a state of a few bits).
#include <iostream>
#include <iomanip>
#include <cstdlib>
#include <sstream>
#include <MTToolBox/util.hpp>
#include <MTToolBox/ReducibleGenerator.hpp>
#include <w128.hpp>
#include "sym.h"
#define SFMTSEARCH_HPP
#define DSFMTSEARCH_HPP
#ifdef DSFMT
#define sfmt dSFMT
#endif
namespace MTToolBox {
static int N, MEXPO; static uint64_t F, C0; static uint64_t fun[4], lung[6]; static int V, L; static bool dense; static uint64_t dfun[128];   // output and parity functionals
static const int place[6] = { 0, 127, 64, 5, 63, 1 };
static uint64_t mulx(uint64_t s) { return ((s << 1) ^ ((0 - ((s >> (N - 1)) & 1)) & F)) & (((uint64_t)1 << N) - 1); }
static uint64_t par(uint64_t x) { uint64_t r = 0; for (int i = 0; i < N; i++) r ^= (x >> i) & 1; return r; }
static void w_bit(w128_t &w, int pos, uint64_t b) { w.u64[pos / 64] |= b << (pos % 64); }
class sfmt : public ReducibleGenerator<w128_t> {
public:
    uint64_t s; w128_t parityVec; int steps;
    sfmt() : s(1), steps(0) { parityVec.u64[0] = parityVec.u64[1] = 0; }
    sfmt(const sfmt &o) : ReducibleGenerator<w128_t>(), s(o.s), parityVec(o.parityVec), steps(o.steps) {}
    sfmt *clone() const { return new sfmt(*this); }
    w128_t word(const uint64_t *f, int k) const { w128_t w; w.u64[0] = w.u64[1] = 0; for (int i = 0; i < k; i++) w_bit(w, place[i], par(f[i] & s)); return w; }
    w128_t generate() { s = mulx(s); steps++; return word(fun, V); }
    w128_t generate(int) { return generate(); }
    void seed(w128_t v) { s = v.u64[0] & (((uint64_t)1 << N) - 1); }
    int bitSize() const { return N; }
    void add(EquidistributionCalculatable<w128_t> &o) { sfmt *t = dynamic_cast<sfmt *>(&o); if (!t) sym_fail("add-of-a-foreign-generator"); s ^= t->s; }
    void setZero() { s = 0; }
    bool isZero() const { return s == 0; }
    void setUpParam(ParameterGenerator &) {}
    const std::string getHeaderString() { return "h"; }
    const std::string getParamString() { return "p"; }
    void setOneBit(int b) { s = (uint64_t)1 << b; }
    w128_t getParityValue() const { w128_t w = word(lung, L); if (dense) for (int b = 0; b < 128; b++) w_bit(w, b, par(dfun[b] & s)); return w; }
    void setParityValue(w128_t p) { parityVec = p; }
    int getMexp() const { return MEXPO; }
    void setConst() { s = C0; }
};
}
#ifdef DSFMT
#undef sfmt
#include <Annihilate.cpp>
#include <calc_parity.cpp>
#include <calc_fixpoint.cpp>
typedef MTToolBox::dSFMT Gen;
#else
#include <Annihilate.cpp>
#include <calc_parity.cpp>
typedef MTToolBox::sfmt Gen;
#endif
static GF2X mk(uint64_t bits) { GF2X f; for (int i = 0; i < 40; i++) if ((bits >> i) & 1) SetCoeff(f, i, 1); return f; }
static uint64_t o_pmul(uint64_t a, uint64_t b) { uint64_t r = 0; for (int i = 0; i < 32; i++) if ((b >> i) & 1) r ^= a << i; return r; }
static int o_pdeg(uint64_t a) { int d = -1; for (int i = 0; i < 40; i++) if ((a >> i) & 1) d = i; return d; }
static uint64_t apply(uint64_t p, uint64_t s) { uint64_t r = 0; for (int i = 0; i < 32; i++) { r ^= (0 - ((p >> i) & 1)) & s; s = mulx(s); } return r; }
static uint64_t P, Q; static int m, qd;
static void setup() {
    P = (uint64_t)sym_config("P", 11); Q = (uint64_t)sym_config("Q", 3); m = o_pdeg(P); qd = o_pdeg(Q); N = m + qd; F = o_pmul(P, Q); MEXPO = m;
    V = (int)sym_config("V", 1); L = (int)sym_config("L", 1); uint64_t x = 88172645463325252ull + 7919 * (uint64_t)sym_config("SEED", 0); long sym = sym_config("SYM", 1);
    for (int i = 0; i < V + L; i++) {
        x ^= x << 13; x ^= x >> 7; x ^= x << 17; uint64_t f = (x >> 20) & (((uint64_t)1 << N) - 1);
        if ((sym >> i) & 1) f = sym_bits("functional", N);
        if (i < V) fun[i] = f; else lung[i - V] = f;
    }
    dense = sym_config("DENSE", 0) != 0;     // every other bit of the parity word is some fixed functional of the state
    if (dense) for (int b = 0; b < 128; b++) { bool used = false; for (int i = 0; i < L; i++) used |= place[i] == b; x ^= x << 13; x ^= x >> 7; x ^= x << 17; dfun[b] = used ? 0 : (x >> 20) & (((uint64_t)1 << N) - 1); }
}
// is the functional blind to every state of the list's span, for ever?
static bool blind(uint64_t f, uint64_t s) { uint64_t r = 0; for (int t = 0; t <= N; t++) { r |= par(f & s); s = mulx(s); } return r == 0; }
static void observes() {                         // no nonzero state keeps the parity word zero for ever
    bool ok = true;
    for (uint64_t y = 1; y < (uint64_t)1 << N; y++) { bool b = true; for (int i = 0; i < L; i++) b &= blind(lung[i], y); ok &= !b; }
    sym_assume(ok);
}
static void annihil() {
    setup();
#ifdef DSFMT
    observes();
#endif
    Gen g; g.s = (uint64_t)sym_config("S", 1); uint64_t s0 = g.s, big = apply(Q, s0);
    bool r = anni(g), see = !blind(fun[0], big);
    sym_assert(r == see, "true-iff-the-large-factor-is-there"); sym_observe("r", r);
    if (!r) { sym_reach("refused"); return; }
    uint64_t killed = apply(P, g.s);
#ifndef DSFMT
    bool ok = true; for (int i = 0; i < V; i++) ok &= blind(fun[i], killed);
    sym_assert(ok, "outputs-killed-by-the-large-factor");
#else
    sym_assert(killed == 0, "state-killed-by-the-large-factor");
#endif
    sym_assert(!blind(fun[0], g.s), "large-component-kept");
    sym_assert(apply(Q, g.s) != 0, "large-component-kept-state"); sym_observe("s", g.s); sym_reach("done");
}
static void parityvec() {
    setup(); observes(); Gen g; g.s = (uint64_t)sym_config("S", 1); uint64_t s0 = g.s;
    calc_parity(g, mk(P)); w128_t v = g.parityVec;
    sym_assert((v.u64[0] | v.u64[1]) != 0, "nonzero-installed"); sym_assert(g.s == s0, "state-unchanged");
    Gen h; h.s = apply(P, sym_bits("state", N)); bool ok = true;
    for (int t = 0; t < 3; t++) { h.generate(); w128_t w = h.getParityValue(); uint64_t x = (w.u64[0] & v.u64[0]) ^ (w.u64[1] & v.u64[1]); for (int k = 32; k; k >>= 1) x ^= x >> k; ok &= (x & 1) == 0; }
    sym_assert(ok, "orthogonal-to-small-component-states"); sym_reach("done");
}
#ifdef DSFMT
static void fixpoint() {
    setup(); C0 = sym_bits("const", N); Gen g; g.s = (uint64_t)sym_config("S", 1);
    w128_t w = calc_fixpoint(g, mk(P), mk(Q));
    sym_assert(g.s == (uint64_t)sym_config("S", 1), "generator-unchanged");
    // the unique state u killed by P with T u + u = the part of the constant killed by P
    uint64_t x = sym_bits("u", N), u = apply(Q, x), c = C0 ^ mulx(u) ^ u;
    bool fix = apply(Q, c) == 0;                 // C0 + (T + 1) u has no large component
    Gen h; h.s = u; w128_t e = h.getParityValue();
    if (fix) { sym_assert(e == w, "parity-word-of-the-fixed-point"); sym_reach("fixed"); }
    sym_observe("w", w.u64[0]); sym_reach("done");
}
#endif
extern "C" void harness_main() {
    switch (sym_config("CASE", 0)) {
    case 1: annihil(); break;
    case 2: parityvec(); break;
#ifdef DSFMT
    case 3: fixpoint(); break;
#endif
    }
}
