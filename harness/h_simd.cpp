// P18: the SIMD samples' equidistribution calculators on an arbitrary linear generator of 128-bit blocks.
#include <MTToolBox/util.hpp>
#include <string>
#include <iostream>
#include <NTL/GF2X.h>
using namespace std;
#include <w128.hpp>
#ifdef DSFMT
#include <AlgorithmDSFMTEquidistribution.hpp>
#else
#include <AlgorithmSIMDEquidistribution.hpp>
#endif
#include "sym.h"
using namespace MTToolBox;
static int N, V, EL; static uint64_t F;        // state bits, accuracies, elements per block, transition polynomial
static int LIVE;                                // leading bits of an element
static w128_t col[16], pcol[16];               // block after the step reaching x^j, and the block before it
static w128_t xw(w128_t a, w128_t b) { a.u64[0] ^= b.u64[0]; a.u64[1] ^= b.u64[1]; return a; }
static w128_t zw() { w128_t z; z.u64[0] = z.u64[1] = 0; return z; }
static w128_t lin(const w128_t *c, uint64_t s) { w128_t r = zw(); for (int j = 0; j < N; j++) { uint64_t m = 0 - ((s >> j) & 1); r.u64[0] ^= m & c[j].u64[0]; r.u64[1] ^= m & c[j].u64[1]; } return r; }
static uint64_t mulx(uint64_t s) { return ((s << 1) ^ ((0 - ((s >> (N - 1)) & 1)) & F)) & (((uint64_t)1 << N) - 1); }
static uint64_t element(const w128_t &b, int i) { return EL == 4 ? b.u[i] : b.u64[i]; }
static void put(w128_t &b, int i, uint64_t x) { if (EL == 4) b.u[i] = (uint32_t)x; else b.u64[i] = x; }
struct Gen {
    uint64_t s; int start, weight; bool own; w128_t previous;      // weight in elements
    Gen() : s(1), start(0), weight(EL), own(false), previous(zw()) {}
    w128_t generate() {
        s = mulx(s); w128_t now = lin(col, s), before = lin(pcol, s), r = zw(), r2 = zw();
        for (int i = 0; i < EL; i++) put(r, i, start + i < EL ? element(before, start + i) : element(now, start + i - EL));
        if (start == 0) r = now;
        for (int i = 0; i < EL; i++) put(r2, i, i < weight ? element(r, i) : element(previous, i));
        previous = r; return r2;
    }
    void setStartMode(int m) { start = EL == 2 && LIVE == 64 ? m / 2 : m; }
    void setWeightMode(int m) { weight = EL == 2 && LIVE == 64 ? m / 2 : m; previous = zw(); }
    int getStartMode() { return EL == 2 && LIVE == 64 ? start * 2 : start; }
    int getWeightMode() { return EL == 2 && LIVE == 64 ? weight * 2 : weight; }
    int bitSize() const { return (int)sym_config("SIZE", N); }
    void setZero() { s = 0; previous = zw(); }
    bool isZero() const { if (s) return false; for (int i = weight; i < EL; i++) if (element(previous, i)) return false; return true; }
    void add(const Gen &o) { s ^= o.s; previous = xw(previous, o.previous); }
    const std::string getParamString() { return "p"; }
    const std::string getHeaderString() { return "h"; }
};
// ---- the definition: how many consecutive v-bit elements, from the given start, are jointly surjective
static uint64_t row[4][64][16];                 // functional of bit b of element (start st, number t) over the state
static void functionals(bool lsb) {
    int E = LIVE == 64 ? 64 : EL == 4 ? 32 : 52;
    for (int j = 0; j < N; j++) {
        uint64_t s = (uint64_t)1 << j, k = 0; uint64_t e[64];
        for (int b = 0; b * EL < N + 8; b++) { s = mulx(s); w128_t w = lin(col, s); for (int i = 0; i < EL; i++) e[k++] = element(w, i); }
        for (int st = 0; st < EL; st++) for (int t = 0; t <= N + 1; t++) for (int b = 0; b < V; b++) row[st][t][b] |= (uint64_t)((e[st + t] >> (lsb ? b : E - 1 - b)) & 1) << j;
    }
}
static bool independent(const uint64_t *r, int k) {
    uint64_t bad = 0;
    for (uint64_t m = 1; m < (uint64_t)1 << k; m++) { uint64_t x = 0; for (int i = 0; i < k; i++) if ((m >> i) & 1) x ^= r[i]; bad |= (uint64_t)(x == 0); }
    return bad == 0;
}
static bool surj(int st, int v, int d) {
    if (v * d > N) return false;
    uint64_t r[64]; int c = 0; for (int t = 0; t < d; t++) for (int i = 0; i < v; i++) r[c++] = row[st][t][i];
    return independent(r, c);
}
extern "C" void harness_main() {
    N = (int)sym_config("N", 3); V = (int)sym_config("V", 1); F = (uint64_t)sym_config("F", 11); EL = (int)sym_config("EL", 4); int m = (int)sym_config("MEXP", N); bool lsb = sym_config("LSB", 0) != 0;
#ifdef DSFMT
    EL = 2; LIVE = 52;
#else
    LIVE = EL == 4 ? 32 : 64;
#endif
    uint64_t sym = (uint64_t)sym_config("SYM", -1), x = 88172645463325252ull + 7919 * (uint64_t)sym_config("SEED", 0); int E = LIVE;
    // the V leading bits of the elements named by SYM (bit j*EL+i) are arbitrary, the others fixed; lower bits are arbitrary and must not matter
    for (int j = 0; j < N; j++) {
        col[j] = zw();
        for (int i = 0; i < EL; i++) {
            x ^= x << 13; x ^= x >> 7; x ^= x << 17;
            uint64_t top = (x >> 20) & (((uint64_t)1 << V) - 1);
            if ((sym >> (j * EL + i)) & 1) top = sym_bits("out", V);
            uint64_t low = sym_config("LOW", 0) ? sym_bits("low", 8) : (x >> 40) & 0xff, w = 0;
            if (lsb) { for (int b = 0; b < V; b++) w |= ((top >> b) & 1) << (V - 1 - b); w |= low << V; } else w = top << (E - V) | low;
            put(col[j], i, w);
        }
    }
    for (int j = 0; j < N; j++) { uint64_t t = (uint64_t)1 << j, p; for (p = 1; mulx(p) != t; p++) ; pcol[j] = lin(col, p); }
    functionals(lsb);
    Gen g; g.s = (uint64_t)sym_config("S", 1); int veq[64]; for (int i = 0; i < 64; i++) veq[i] = -7;
    w128_t pv; pv.u64[0] = sym_config("PREV", 0); pv.u64[1] = 5 * pv.u64[0]; g.previous = pv;
#ifdef DSFMT
    DSFMTInfo info; info.bitSize = 128; info.elementNo = 2; int sum = calc_dSFMT_equidistribution<w128_t, Gen>(g, veq, V, info, m);
#else
    SIMDInfo info; info.bitSize = 128; info.elementNo = EL; info.bitMode = LIVE; int sum = calc_SIMD_equidistribution<w128_t, Gen>(g, veq, V, info, m, lsb);
#endif
    sym_assert(veq[V] == -7 && g.s == (uint64_t)sym_config("S", 1), "nothing-else-written");
    int total = 0;
    for (int v = 1; v <= V; v++) {
        int k = veq[v - 1]; sym_assert(k <= N && k > -EL, "k-in-range"); k = (int)(int64_t)sym_concretize((uint64_t)(int64_t)k);
        bool ok = true, more = true;
        for (int st = 0; st < EL; st++) { for (int t = 1; t <= k; t++) ok &= surj(st, v, t); more &= surj(st, v, k + 1); }
        sym_assert(ok, "equidistributed-to-k"); sym_assert(!more, "not-equidistributed-to-k+1");
        total += m / v - k; sym_observe("k", (uint64_t)(int64_t)k);
    }
    sym_assert(sum == total, "sum-of-shortfalls"); sym_observe("sum", (uint64_t)(int64_t)sum); sym_reach("done");
}
