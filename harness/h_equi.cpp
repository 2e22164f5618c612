// P16: dimension of equidistribution of an arbitrary linear generator.
#include <MTToolBox/AlgorithmEquidistribution.hpp>
#include "lin.h"
using namespace MTToolBox;
typedef WORD U;
static LinCfg<U> cfg;
static const int W = sizeof(U) * 8;
// functional of the j-th following output's i-th leading bit, as a mask over the state bits
static void functionals(uint64_t row[32][40], int V, int K) {
    for (int j = 0; j < cfg.n; j++) {
        Lin<U> g(&cfg); g.s = (uint64_t)1 << j;
        for (int k = 0; k < K; k++) { g.step(); U o = g.out(); for (int i = 0; i < V; i++) row[i][k] |= (uint64_t)((o >> (W - 1 - i)) & 1) << j; }
    }
}
static bool surj(uint64_t row[32][40], int v, int k) {
    if (v * k > cfg.n) return false;
    uint64_t r[64]; int c = 0;
    for (int t = 0; t < k; t++) for (int i = 0; i < v; i++) r[c++] = row[i][t];
    return o_independent(r, c);
}
extern "C" void harness_main() {
    int n = (int)sym_config("N", 3), V = (int)sym_config("V", 2), how = (int)sym_config("HOW", 0), m = (int)sym_config("MEXP", 0);
    cfg.n = n; cfg.F = (uint64_t)sym_config("F", 0xb);
    lin_columns(cfg, V);
    Lin<U> g(&cfg); g.s = (uint64_t)sym_config("S", 1);
    int k0 = (int)sym_config("WARM", 0); for (int i = 0; i < k0; i++) g.generate();
    uint64_t s0 = g.s;
    static uint64_t row[32][40];
    functionals(row, V, n + 1);
    int veq[32], sum; for (int i = 0; i < 32; i++) veq[i] = -7;
    {
        AlgorithmEquidistribution<U> e(g, V, m);
        if (how == 0) sum = e.get_all_equidist(veq); else veq[V - 1] = e.get_equidist(&sum);
    }
    sym_assert(g.s == s0, "generator-unchanged");
    int total = 0, b = m ? m : n;
    for (int v = 1; v <= V; v++) {
        if (how && v < V) continue;
        int k = veq[v - 1];
        sym_assert(k >= 0 && k <= n, "k-in-range");
        k = (int)sym_concretize((uint64_t)k);
        bool ok = true; for (int t = 1; t <= k; t++) ok &= surj(row, v, t);
        sym_assert(ok, "equidistributed-to-k");
        sym_assert(!surj(row, v, k + 1), "not-equidistributed-to-k+1");
        total += b / v - k; sym_observe("k", (uint64_t)k);
    }
    if (how == 0) sym_assert(sum == total, "sum-of-shortfalls");
    else {                  // get_equidist: sum over the smaller accuracies only
        int veq2[32]; AlgorithmEquidistribution<U> e2(g, V, m); int all = e2.get_all_equidist(veq2);
        sym_assert(veq2[V - 1] == veq[V - 1], "entry-points-agree");
        sym_assert(sum == all - (b / V - veq2[V - 1]), "sum-of-smaller-shortfalls");
    }
    sym_observe("sum", (uint64_t)sum); sym_reach("done");
}
