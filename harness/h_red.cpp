// P14 (characteristic polynomial), P15, P17, P24, P25: algorithms for reducible and arbitrary linear generators.
#include <MTToolBox/AlgorithmReducibleRecursionSearch.hpp>
#include <MTToolBox/AlgorithmReducibleEquidistribution.hpp>
#include <MTToolBox/AlgorithmCalculateParity.hpp>
#include <MTToolBox/TestLinearity.hpp>
#include "lin.h"
using namespace MTToolBox;
using namespace NTL;
typedef WORD U;
static LinCfg<U> cfg;
static const int W = sizeof(U) * 8;
static GF2X mk(uint64_t bits, int n) { GF2X f; for (int i = 0; i <= n; i++) SetCoeff(f, i, (long)((bits >> i) & 1)); return f; }
static uint64_t unmk(const GF2X &f, int n) { uint64_t r = 0; for (int i = 0; i <= n; i++) r |= (uint64_t)(rep(coeff(f, i)) & 1) << i; return r; }
// polynomial p(T) applied to state s
static uint64_t polyApply(uint64_t p, int d, uint64_t s) {
    Lin<U> g(&cfg); g.s = s; uint64_t r = 0;
    for (int i = 0; i <= d; i++) { r ^= (0 - ((p >> i) & 1)) & g.s; g.step(); }
    return r;
}
// ---- P15
static void annih() {
    int n = cfg.n = (int)sym_config("N", 4), D = (int)sym_config("DEG", 5);
    cfg.F = (uint64_t)1 << n | sym_bits("transition", n);              // any transition polynomial
    for (int j = 0; j < n; j++) cfg.col[j] = (U)sym_bits("outcol", W);
    Lin<U> g(&cfg); g.s = sym_bits("state", n); uint64_t s0 = g.s;
    g.rev = sym_config("REV", 0); g.steps = 3;
    uint64_t p = sym_bits("poly", D + 1);
    if (sym_config("CHAR", 0)) { annihilate<U>(&g, mk(cfg.F, n)); sym_assert(g.s == 0, "characteristic-polynomial-annihilates"); sym_assert(g.isZero(), "isZero"); }
    else {
        annihilate<U>(&g, mk(p, D));
        uint64_t want = polyApply(p, D, s0);
        sym_assert(g.s == want, "state-is-polynomial-of-transition");
        Lin<U> h(&cfg); h.s = want; h.rev = g.rev;
        for (int i = 0; i < 3; i++) sym_assert(g.generate() == h.generate(), "outputs");
    }
    sym_assert(g.rev == (bool)sym_config("REV", 0), "mode-kept");
    sym_observe("s", g.s); sym_reach("done");
}
// ---- P14
static void charpoly() {
    int n = cfg.n = (int)sym_config("N", 3), V = (int)sym_config("V", 2); cfg.F = (uint64_t)sym_config("F", 0xb);
    int place[4] = {W - 1, 0, W / 2, 5};
    uint64_t fun[4];                                    // functional of output bit place[i]
    for (int i = 0; i < V; i++) { fun[i] = sym_bits("functional", n); for (int j = 0; j < n; j++) cfg.col[j] |= (U)((fun[i] >> j) & 1) << place[i]; }
    Lin<U> g(&cfg); g.s = (uint64_t)sym_config("S", 1); uint64_t s0 = g.s;
    GF2X poly = mk((uint64_t)sym_config("START", 1), 3);
    ReducibleGenerator<U> *rg = &g;
    calcCharacteristicPolynomial(rg, poly);
    int d = (int)sym_concretize((uint64_t)deg(poly)); uint64_t p = unmk(poly, n);
    sym_assert(d >= 0 && d <= n, "degree");
    // it annihilates the sequence of every output bit from the starting state on, and nothing of smaller degree does
    Lin<U> h(&cfg); uint64_t st[40]; h.s = s0; for (int t = 0; t < 3 * n + 1; t++) { h.step(); st[t] = h.s; }
    uint32_t seq[4][40]; for (int i = 0; i < V; i++) for (int t = 0; t < 3 * n + 1; t++) { uint64_t x = fun[i] & st[t]; uint32_t b = 0; for (int j = 0; j < n; j++) b ^= (uint32_t)(x >> j) & 1; seq[i][t] = b; }
    bool ok = true;
    for (int i = 0; i < V; i++) for (int t = 0; t < 2 * n; t++) { uint32_t b = 0; for (int k = 0; k <= d; k++) b ^= (uint32_t)((p >> k) & 1) & seq[i][t + k]; ok &= b == 0; }
    sym_assert(ok, "annihilates-every-bit");
    bool smaller = false;
    for (uint64_t q = 1; q < (uint64_t)1 << d; q++) {
        bool ann = true;
        for (int i = 0; i < V; i++) for (int t = 0; t < 2 * n; t++) { uint32_t b = 0; for (int k = 0; k < d; k++) b ^= (uint32_t)((q >> k) & 1) & seq[i][t + k]; ann &= b == 0; }
        smaller |= ann;
    }
    if (sym_config("START", 1) == 1) sym_assert(!smaller, "no-smaller-one-does");
    sym_observe("poly", p); sym_reach("done");
}
// ---- P17
static bool surj(uint64_t row[32][40], int m, int v, int k) {
    if (v * k > m) return false;
    uint64_t r[64]; int c = 0;
    for (int t = 0; t < k; t++) for (int i = 0; i < v; i++) r[c++] = row[i][t];
    return o_independent(r, c);
}
static uint64_t o_pmul(uint64_t a, uint64_t b) { uint64_t r = 0; for (int i = 0; i < 32; i++) if ((b >> i) & 1) r ^= a << i; return r; }
static int o_pdeg(uint64_t a) { int d = -1; for (int i = 0; i < 63; i++) if ((a >> i) & 1) d = i; return d; }
static void redequi() {
    uint64_t p = (uint64_t)sym_config("P", 0xb), q = (uint64_t)sym_config("Q", 3); int V = (int)sym_config("V", 2), how = (int)sym_config("HOW", 0);
    int m = o_pdeg(p), qd = o_pdeg(q), n = cfg.n = m + qd; cfg.F = o_pmul(p, q); cfg.mexp = m;
    lin_columns(cfg, V); for (int j = 0; j < n; j++) cfg.col[j] &= (U)(~(U)0 << (W - V));
    if (sym_config("LOW", 0)) { uint64_t f = sym_bits("low", n); for (int j = 0; j < n; j++) cfg.col[j] |= (U)((f >> j) & 1); }     // the lowest bit, which no accuracy counts
    static uint64_t row[32][40];
    for (int j = 0; j < m; j++) {                        // basis of the states killed by p
        Lin<U> g(&cfg); g.s = polyApply(q, qd, (uint64_t)1 << j);
        for (int k = 0; k < m + 1; k++) { g.step(); U o = g.out(); for (int i = 0; i < V; i++) row[i][k] |= (uint64_t)((o >> (W - 1 - i)) & 1) << j; }
    }
    uint64_t any = 0; for (int i = 0; i < V; i++) any |= row[i][0];
    sym_assume(any != 0);                                // the factor divides the characteristic polynomial of the outputs
    Lin<U> g(&cfg); g.s = 1; int warm = (int)sym_config("WARM", 0); for (int i = 0; i < warm; i++) g.step();
    uint64_t s0 = g.s; int veq[32], sum; for (int i = 0; i < 32; i++) veq[i] = -7;
    {
        AlgorithmReducibleEquidistribution<U, Lin<U> > e(g, mk(p, m), V, m);
        if (how == 0) sum = e.get_all_equidist(veq); else veq[V - 1] = e.get_equidist(&sum);
    }
    sym_assert(g.s == s0, "generator-unchanged");
    int total = 0;
    for (int v = 1; v <= V; v++) {
        if (how && v < V) continue;
        int k = veq[v - 1]; sym_assert(k >= 0 && k <= m, "k-in-range"); k = (int)sym_concretize((uint64_t)k);
        bool ok = true; for (int t = 1; t <= k; t++) ok &= surj(row, m, v, t);
        sym_assert(ok, "equidistributed-to-k"); sym_assert(!surj(row, m, v, k + 1), "not-equidistributed-to-k+1");
        total += m / v - k; sym_observe("k", (uint64_t)k);
    }
    if (how == 0) sym_assert(sum == total, "sum-of-shortfalls");
    sym_observe("sum", (uint64_t)sum); sym_reach("done");
}
// ---- P24
static void parity() {
    uint64_t p = (uint64_t)sym_config("P", 0xb), q = (uint64_t)sym_config("Q", 3); int V = (int)sym_config("V", 2);
    int m = o_pdeg(p), qd = o_pdeg(q), n = cfg.n = m + qd; cfg.F = o_pmul(p, q); cfg.mexp = m;
    // parity word of V live bits at spread positions
    int place[6] = {W - 1, 0, W / 2, 5, 1, W - 2}; if (sym_config("DENSE", 0)) for (int i = 0; i < 6; i++) place[i] = W - 1 - i; U live = 0;
    for (int i = 0; i < V; i++) { live |= (U)1 << place[i]; uint64_t f = sym_bits("functional", n); for (int j = 0; j < n; j++) cfg.col[j] |= (U)((f >> j) & 1) << place[i]; }
    if (sym_config("DENSE", 0)) { // every other bit of the parity word is some fixed functional of the state
        uint64_t x = 88172645463325252ull + (uint64_t)sym_config("SEED", 0);
        for (int b = 0; b < W; b++) if (!((live >> b) & 1)) for (int j = 0; j < n; j++) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; cfg.col[j] |= (U)((x >> 30) & 1) << b; }
    }
    Lin<U> g(&cfg); g.s = 1;
    // the parity word observes the state: no nonzero state keeps it zero for ever
    for (uint64_t y = 1; y < (uint64_t)1 << qd; y++) {
        Lin<U> h(&cfg); h.s = 0; for (int j = 0; j < qd; j++) if ((y >> j) & 1) h.s ^= polyApply(p, m, (uint64_t)1 << j);
        U w = 0; for (int t = 0; t < qd; t++) w |= h.generate();
        sym_assume(w != 0);
    }
    AlgorithmCalculateParity<U, Lin<U> > cp; GF2X f = mk(p, m);
    U v = cp.searchParity(g, f);
    sym_assert(v != 0, "nonzero");
    sym_assert(g.parityVec == v, "installed-in-the-generator");
    sym_assert(g.s == 1, "state-unchanged");
    uint64_t x = sym_bits("state", n);
    Lin<U> h(&cfg); h.s = polyApply(p, m, x);            // any state whose large-period component vanishes
    bool ok = true;
    for (int t = 0; t < 3; t++) {
        h.generate(); U w = h.getParityValue() & v; for (int k = W / 2; k; k >>= 1) w ^= w >> k; ok &= (w & 1) == 0;
    }
    sym_assert(ok, "orthogonal-to-small-component-states");
    sym_reach("done");
}
// ---- P25: outputs of four "states" 0 (zero), 1 and 2 (the two seeds), 3 (their sum) are arbitrary words
template <class T> struct AnyEC : public EquidistributionCalculatable<T> {
    static T tab[4][128]; static int n; int id, t, seeds;
    AnyEC() : id(0), t(0), seeds(0) {}
    AnyEC *clone() const { return new AnyEC(*this); }
    T generate() { T r = t < n ? tab[id][t] : (T)0; t++; return r; }
    T generate(int) { return generate(); }
    static T first; static bool have; void seed(T v) { if (!have) have = true, first = v; id = v == first ? 1 : 2; t = 0; seeds++; }
    int bitSize() const { return 10; }
    void add(EquidistributionCalculatable<T> &o) { id ^= dynamic_cast<AnyEC &>(o).id; }
    void setZero() { id = 0; }
    bool isZero() const { return id == 0; }
    void setUpParam(ParameterGenerator &) {}
    const std::string getHeaderString() { return ""; }
    const std::string getParamString() { return ""; }
};
template <class T> T AnyEC<T>::first; template <class T> bool AnyEC<T>::have; template <class T> T AnyEC<T>::tab[4][128]; template <class T> int AnyEC<T>::n;
static void linAny() {
    typedef AnyEC<U> G; G g; G::n = (int)sym_config("HORIZON", 100); int w = (int)sym_config("BITS", 4);
    // one arbitrary disturbance at an arbitrary step of otherwise linear outputs, in any of the states
    U base1 = (U)sym_bits("out1", W), base2 = (U)sym_bits("out2", W);
    for (int t = 0; t < 100; t++) { G::tab[0][t] = 0; G::tab[1][t] = base1 + (U)(t * 77); G::tab[2][t] = base2 ^ (U)(t * 91); G::tab[3][t] = G::tab[1][t] ^ G::tab[2][t]; }
    int where = (int)sym_config("AT", 0); if (where < 0) where = (int)sym_choice("where", 100); int which = (int)sym_choice("which", 4); U d = (U)sym_bits("disturb", W);
    G::tab[which][where] ^= d;
    bool r = TestLinearity<U>()(g);
    sym_assert(r == (d == 0), "accepted-iff-sums-agree-on-the-tested-run");
    sym_assert(g.t == 0 && g.seeds == 0 && g.id == 0, "generator-unchanged");
    sym_observe("r", r); if (r) sym_reach("accepted"); else sym_reach("rejected");
}
static void linLin() {
    int n = cfg.n = (int)sym_config("N", 8); cfg.F = (uint64_t)sym_config("F", 0x11d);
    for (int j = 0; j < n; j++) cfg.col[j] = (U)sym_bits("outcol", W);
    Lin<U> g(&cfg); g.s = sym_bits("state", n); uint64_t s0 = g.s; g.rev = sym_config("REV", 0);
    sym_assert(TestLinearity<U>()(g), "linear-accepted");
    sym_assert(g.s == s0, "generator-unchanged"); sym_reach("accepted");
}
extern "C" void harness_main() {
    switch (sym_config("CASE", 0)) {
    case 1: annih(); break;
    case 2: charpoly(); break;
    case 3: redequi(); break;
    case 4: parity(); break;
    case 5: linAny(); break;
    case 6: linLin(); break;
    }
}
