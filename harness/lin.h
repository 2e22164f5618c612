// A general GF(2)-linear generator of at most 64 state bits behind the library's interfaces.
// The transition is multiplication by x modulo a fixed polynomial F of degree N (every cyclic linear
// transition is conjugate to one of these), the output is an arbitrary linear map given by one output
// word per state bit.  Only what the interfaces promise is visible to the code under test.
#ifndef LIN_H
#define LIN_H
#include <MTToolBox/ReducibleTemperingCalculatable.hpp>
#include <MTToolBox/util.hpp>
#include <string>
#include "sym.h"
template <class U> struct LinCfg {
    int n; uint64_t F; U col[64];            // output word of state bit j
    int mexp, V, ntemper; int shift[4];
    LinCfg() : n(0), F(0), mexp(0), V(0), ntemper(0) { for (int i = 0; i < 64; i++) col[i] = 0; for (int i = 0; i < 4; i++) shift[i] = 0; }
};
template <class U> struct Lin : public MTToolBox::ReducibleTemperingCalculatable<U> {
    LinCfg<U> *c; uint64_t s; U parityWord, parityVec; U temper[4], tempered[4]; bool rev; int steps, live;
    Lin(LinCfg<U> *cfg) : c(cfg), s(1), parityWord(0), parityVec(0), rev(false), steps(0), live(0) { for (int i = 0; i < 4; i++) temper[i] = tempered[i] = 0; }
    Lin(const Lin &o) : c(o.c), s(o.s), parityWord(o.parityWord), parityVec(o.parityVec), rev(o.rev), steps(o.steps), live(0) { for (int i = 0; i < 4; i++) temper[i] = o.temper[i], tempered[i] = o.tempered[i]; }
    Lin *clone() const { return new Lin(*this); }
    void step() { uint64_t m = (((uint64_t)1 << c->n) - 1); s = ((s << 1) ^ ((0 - ((s >> (c->n - 1)) & 1)) & c->F)) & m; steps++; }
    U out() const {
        U r = 0; for (int j = 0; j < c->n; j++) r ^= (U)(0 - ((s >> j) & 1)) & c->col[j];
        for (int i = 0; i < c->ntemper; i++) r ^= (U)(r << c->shift[i]) & tempered[i];
        return r;
    }
    U generate() { step(); U r = out(); parityWord = r; return rev ? (U)MTToolBox::reverse_bit(r) : r; }
    U generate(int v) { U r = generate(); const int W = sizeof(U) * 8; return v >= W ? r : (U)(r & (U)~(((U)~(U)0) >> v)); }
    void seed(U v) { s = (uint64_t)v & (((uint64_t)1 << c->n) - 1); if (s == 0) s = 1; }
    int bitSize() const { return c->n; }
    void add(MTToolBox::EquidistributionCalculatable<U> &that) { Lin *o = dynamic_cast<Lin *>(&that); if (!o) sym_fail("add-of-a-foreign-generator"); s ^= o->s; parityWord ^= o->parityWord; }
    void setZero() { s = 0; parityWord = 0; }
    bool isZero() const { return s == 0; }
    void setUpParam(MTToolBox::ParameterGenerator &) {}
    const std::string getHeaderString() { return "h"; }
    const std::string getParamString() { return "p"; }
    void setOneBit(int b) { s = (uint64_t)1 << b; parityWord = out(); }
    U getParityValue() const { return parityWord; }
    void setParityValue(U p) { parityVec = p; }
    int getMexp() const { return c->mexp; }
    void setTemperingPattern(U mask, U pat, int i) { if (i < 0 || i >= c->ntemper) sym_fail("tempering-index"); temper[i] = (temper[i] & ~mask) | (pat & mask); }
    void setUpTempering() { for (int i = 0; i < 4; i++) tempered[i] = temper[i]; }      // tables are prepared here, as documented
    void setReverseOutput() { rev = true; }
    void resetReverseOutput() { rev = false; }
    bool isReverseOutput() { return rev; }
};
// the V leading output bits of the columns in SYM are arbitrary, the others fixed by SEED; all further bits are arbitrary
template <class U> static void lin_columns(LinCfg<U> &cfg, int V) {
    const int W = sizeof(U) * 8;
    uint64_t sym = (uint64_t)sym_config("SYM", -1), x = 88172645463325252ull + 7919 * (uint64_t)sym_config("SEED", 0), fix = (uint64_t)sym_config("FIX", 0); int nfix = (int)sym_config("NFIX", 0);
    for (int j = 0; j < cfg.n; j++) {
        x ^= x << 13; x ^= x >> 7; x ^= x << 17;
        U top = (U)((x >> 20) & (((uint64_t)1 << V) - 1));
        if ((sym >> j) & 1) {
            top = (U)sym_bits("outcol", V);
            if (nfix > 0) { int b = nfix < V ? nfix : V; U m = (U)(((uint64_t)1 << b) - 1); sym_assume((top & m) == (U)(fix & m)); top = (U)((top & ~m) | (U)(fix & m)); fix >>= b; nfix -= b; }
        }
        cfg.col[j] = (U)(top << (W - V)) | (V < W ? (U)sym_bits("lowbits", W - V) : (U)0);
    }
}
// ---- oracles, straight from the definitions
// do these words have full rank?  no nonzero combination of them vanishes
static inline bool o_independent(const uint64_t *r, int k) {
    uint64_t bad = 0;
    for (uint64_t m = 1; m < (uint64_t)1 << k; m++) { uint64_t x = 0; for (int i = 0; i < k; i++) if ((m >> i) & 1) x ^= r[i]; bad |= (uint64_t)(x == 0); }
    return bad == 0;
}
#endif
