// P26, P28, P29, P30, P31: the sample generators as GF(2)-linear generators.
#include "gen.h"
static int K, mexp; static Src draws;
static U pat[4], msk[4]; static bool rev;
static void params(Gen &x) {
    Src s = draws; s.at = 0;
    if (DRAWS) { x.g->setUpParam(s); }
    for (int i = 0; i < TEMPER; i++) g_temper(*x.g, i, (U)msk[i], (U)pat[i]);
}
static void setup() {
    mexp = (int)sym_config("MEXP", 89); K = (int)sym_config("K", 1);
    fill_draws(draws, DRAWS, DW, sym_config("POS", 0) + 1);
    for (int i = 0; i < TEMPER; i++) { w_set(msk[i], ~(uint64_t)0); long c = sym_config("TM", -1); if (c == -1) w_sym("temper", pat[i]); else w_set(pat[i], (uint64_t)c); }
    find_state(mexp, draws);
}
static void fresh(Gen &x, int steps, bool dirty = false) {
    U v; w_sym("seed", v);
    x.build(mexp, v, dirty); params(x); warm(*x.g, steps); any_state(x);
}
static void linear() {
    static Gen a, b, c, d, e;
    fresh(a, (int)sym_config("R1", 0)); fresh(b, (int)sym_config("R2", 0));
    c.copy(a); e.copy(b);
    c.g->add(*b.g);
    sym_assert(e.same(b), "addend-unchanged");
    for (int i = 0; i < K; i++) {
        U oa = a.g->generate(), ob = b.g->generate(), oc = c.g->generate();
        w_assert_eq(oc, w_xor(oa, ob), "sum-of-outputs"); sym_observe("out", w_low(oc));
    }
    // stepping the sum leads to the sum of the stepped states: by induction the outputs agree for ever
    d.copy(a); d.g->add(*b.g);
    if (!c.same(d)) for (int i = 0; i < 2 * g_ring(*a.g) + 2; i++) sym_assert(w_eq(c.g->generate(), d.g->generate()), "sum-then-step-is-step-then-sum");
    sym_reach("done");
}

// ---- P28
static const int W = (int)sizeof(U) * 8;
static U some(G &g, int i) { if (i % 3 == 1) return g.generate(1 + (i * 7) % W); if (i % 3 == 2) return g.generate(W); return g.generate(); }
static void disturb(Gen &x) {       // everything that may be done to one generator
    U v; w_sym("other", v); x.g->generate(); x.g->seed(v); x.g->generate(3); x.g->setZero();
    Src s; s.n = 16; for (int i = 0; i < 16; i++) s.v[i] = 0x97531 * (i + 3);
    if (DRAWS) x.g->setUpParam(s);
    for (int i = 0; i < TEMPER; i++) { U p; w_sym("other", p); g_temper(*x.g, i, (U)msk[i], (U)p); }
    g_reverse(*x.g, !rev); x.g->seed(v); x.g->generate();
#if GEN == 6 || GEN == 7
    x.g->setStartMode(1 - (int)sym_config("START", 0) % 2); x.g->setWeightMode(1);
#endif
}
static void same_modes(G &a, G &b) {
#if GEN >= 2 && GEN <= 5
    sym_assert(a.isReverseOutput() == b.isReverseOutput(), "same-output-direction");
#endif
#if GEN == 6 || GEN == 7
    sym_assert(a.getStartMode() == b.getStartMode() && a.getWeightMode() == b.getWeightMode(), "same-modes");
#endif
    sym_assert(a.bitSize() == b.bitSize(), "same-size");
    if (sym_config("PSTR", 0)) { sym_assert(a.getParamString() == b.getParamString(), "same-parameters"); }
    (void)a; (void)b;
}
static void copies() {
    static Gen a, b; U o[700]; int n = g_nword >= 0 ? (int)sym_config("OUT", 0) : 0;
    fresh(a, (int)sym_config("R1", 0)); rev = sym_config("REV", 0) != 0; g_reverse(*a.g, rev);
    if (sym_config("PRE", 0)) some(*a.g, 0);
    if (!n) n = g_ring(*a.g) + 3;
    b.copy(a); G *c = dynamic_cast<G *>(a.g->clone());
    sym_assert(c != 0, "clone-has-the-same-type"); same_modes(*a.g, *b.g); same_modes(*a.g, *c);
    for (int i = 0; i < n; i++) { o[i] = some(*a.g, i); sym_observe("out", w_low(o[i])); }
    disturb(a); a.g->~G();                      // the original changes and goes away
    U ob[700]; for (int i = 0; i < n; i++) { ob[i] = some(*c, i); sym_assert(w_eq(ob[i], o[i]), "clone-continues-the-original"); }
    Gen d; d.g = c; disturb(d); delete c;       // and so does the clone
    for (int i = 0; i < n; i++) sym_assert(w_eq(some(*b.g, i), o[i]), "copy-continues-the-original");
    sym_reach("done");
}
// ---- P29
static void zeros() {
    static Gen a; fresh(a, (int)sym_config("R1", 0)); int n = (int)sym_config("OUT", 2 * g_ring(*a.g) + 2), how = (int)sym_config("HOW", 0);
    if (how == 0) {                              // setZero
        a.g->setZero(); sym_assert(a.g->isZero(), "setZero-is-zero");
        for (int i = 0; i < n; i++) sym_assert(w_zero(a.g->generate()), "setZero-outputs");
        sym_assert(a.g->isZero(), "still-zero"); sym_reach("done"); return;
    }
    bool z = a.g->isZero(); sym_observe("zero", z);
    if (how == 2) { static Gen b; b.copy(a); b.g->add(*a.g); sym_assert(b.g->isZero(), "sum-with-itself-is-zero"); }
    bool all = true; for (int i = 0; i < n; i++) all &= w_zero(a.g->generate());
    if (z) { sym_assert(all, "isZero-but-output"); sym_reach("zero"); return; }
    sym_assert(!all, "all-outputs-zero-but-not-isZero"); sym_reach("nonzero");
}
// ---- P30
static void seeding() {
    static Gen a, b; int n = (int)sym_config("OUT", 0); U v;
    fresh(a, (int)sym_config("R1", 0), true);    // any memory, any history
    { U x; w_set(x, 5); b.build(mexp, x, false); params(b); }
    g_reverse(*a.g, false);
    w_sym("reseed", v); if (!n) n = 2 * g_ring(*b.g) + 2;
#if GEN == 5
    sym_assume(v != 0);                          // TinyMT stores the seed itself
#endif
    a.g->seed(v); b.g->seed(v);
    sym_assert(!a.g->isZero() && !b.g->isZero(), "seed-gives-nonzero-state");
    for (int i = 0; i < n; i++) { U x = a.g->generate(), y = b.g->generate(); w_assert_eq(x, y, "seeding-forgets-history"); sym_observe("out", w_low(x)); }
    sym_reach("done");
}
// ---- P31
static void accuracy() {
    static Gen a, b; fresh(a, (int)sym_config("R1", 0)); b.copy(a);
    int v = (int)sym_config("V", 0); if (!v) { v = (int)sym_bits("v", 8); sym_assume(v >= 1 && v <= W); }
    U x = a.g->generate(v), y = b.g->generate(); sym_assert(w_eq(x, w_top(y, v)), "leading-bits"); sym_observe("v", w_low(x));
    sym_assert(w_eq(a.g->generate(), b.g->generate()), "advances-once");
    if (REVERSE || GEN == 6) {
        g_reverse(*a.g, true);
#if GEN >= 2 && GEN <= 5
        sym_assert(a.g->isReverseOutput() && !b.g->isReverseOutput(), "mode-reported");
#endif
        x = a.g->generate(v); y = b.g->generate(); sym_assert(w_eq(x, w_top(w_rev(y), v)), "leading-bits-of-reversed"); sym_observe("r", w_low(x));
        static Gen c; c.copy(a); c.g->generate(v);
        g_reverse(*a.g, false);
#if GEN >= 2 && GEN <= 5
        sym_assert(!a.g->isReverseOutput(), "mode-reported");
#endif
        x = a.g->generate(v); y = b.g->generate(); sym_assert(w_eq(x, w_top(y, v)), "leading-bits-again");
    }
    for (int i = 0; i < 3; i++) sym_assert(w_eq(a.g->generate(), b.g->generate()), "same-afterwards");
    sym_reach("done");
}
// ---- P32 tempering: only the masked bits of the selected parameter change
static void tempering() {
#if GEN >= 2 && GEN <= 5
    static Gen a, b; int i = (int)sym_choice("which", TEMPER); U m, q; w_sym("mask", m); w_sym("pattern", q);
    fresh(a, (int)sym_config("R1", 0)); b.copy(a);
    g_temper(*a.g, i, m, q); g_temper(*b.g, i, ~(U)0, (pat[i] & ~m) | (q & m));
    if (!a.same(b)) for (int k = 0; k < 3; k++) w_assert_eq(a.g->generate(), b.g->generate(), "masked-bits-only");
    U y = a.g->generate(), x = b.g->generate(); sym_assert(w_eq(x, y), "masked-bits-only-output"); sym_observe("out", w_low(x));
#if GEN == 3
    for (int k = 0; k < TEMPER; k++) sym_assert(a.g->get_param().tmp_tbl[k] == (k == i ? (pat[i] & ~m) | (q & m) : pat[k]), "stored-table");
#elif GEN == 5
    sym_assert(a.g->get_param().tmat == ((pat[i] & ~m) | (q & m)), "stored-word");
#endif
    sym_reach("done");
#endif
}
// ---- P27, P32: the outputs are those of the reference with the parameters the source's numbers stand for
#include "gen_ref.h"
static void conform() {
    static Gen a; static Ref r; U v, o; int n = (int)sym_config("OUT", 0);
    w_sym("seed", v); r.init(mexp); r.param(draws);
    long fix = sym_config("TSYM", -1);
    int p = r.posn(); if (sym_config("SPLIT", 0)) p = (int)sym_concretize((uint64_t)p);
    a.build(mexp, v, true);
    { Src s = draws; s.at = 0; if (DRAWS) { a.g->setUpParam(s); } }
    for (int i = 0; i < TEMPER; i++) if ((fix >> i) & 1) { g_temper(*a.g, i, msk[i], pat[i]); r.temper(i, pat[i]); }
    if (sym_config("RESEED", 0)) { w_sym("reseed", v); a.g->generate(); a.g->seed(v); }
    r.seed(v); if (!n) n = 2 * g_ring(*a.g) + 2;
    for (int i = 0; i < n; i++) { U x = a.g->generate(); o = r.next(); w_assert_eq(x, o, "published-output"); if (i < 3 || i == n - 1) sym_observe("out", w_low(x));
#if GEN == 3 || GEN == 6 || GEN == 7
        if (!sym_config("NOSYNC", 0)) r.sync(x, *a.g);
#endif
    }
#if GEN == 3
    mtgp::mtgp_param<uint32_t> q = a.g->get_param();
    sym_assert(q.pos >= 3 && q.pos < g_ring(*a.g) && q.id == r.id && q.mexp == mexp, "parameter-ranges");
    sym_assert(((q.tbl[2] >> 4) & 0xffff) == (r.id & 0xffff) && (q.tbl[3] & 0xffff0000u) == (r.id & 0xffff0000u), "identifier-embedded");
#elif GEN == 5
    sym_assert(a.g->get_param().mat1 == r.m1 && a.g->get_param().mat2 == r.m2 && a.g->get_param().id == r.id, "stored-parameters");
#endif
    sym_reach("done");
}
// the output function (tempering, start and weight mode) over the recurrence's words
static void outputs() {
#if GEN == 3 || GEN == 6 || GEN == 7
    static Gen a, b; static Ref r; static U u[300]; int n = (int)sym_config("OUT", 0), k = 0; U v; w_set(v, 0x3c6ef35f);
    r.init(mexp); r.param(draws);
    a.build(mexp, v, true); { Src s = draws; s.at = 0; a.g->setUpParam(s); }
    for (int i = 0; i < TEMPER; i++) { U z; w_set(z, 0); g_temper(*a.g, i, ~z, z); }
#if GEN == 6 || GEN == 7
    a.g->setStartMode(0); a.g->setWeightMode(GEN == 6 ? 4 : 2);
#endif
    warm(*a.g, (int)sym_config("R1", 0)); any_state(a); b.copy(a);
    for (int i = 0; i < TEMPER; i++) { g_temper(*b.g, i, msk[i], pat[i]); r.temper(i, pat[i]); }
#if GEN == 6 || GEN == 7
    b.g->setStartMode(r.start); b.g->setWeightMode(r.weight); sym_assert(b.g->getStartMode() == r.start && b.g->getWeightMode() == r.weight, "modes-reported");
#endif
    if (!n) n = g_ring(*a.g) + 3;
    for (; k < r.n; k++) { u[k] = a.g->generate(); b.g->generate(); }
    for (; k < r.n + n; k++) { u[k] = a.g->generate(); U y = b.g->generate(); w_assert_eq(y, r.view(u, k), "output-function"); sym_observe("out", w_low(y)); }
    sym_reach("done");
#endif
}
// the recurrence from an arbitrary state: which word of memory is which element of the sequence is
// found by running the generator once on numbers
static void recurrence() {
#if GEN == 3 || GEN == 6 || GEN == 7
    enum { PW = sizeof(U) / 4 }; static Gen a; static Ref r; static int pk[300][PW], po[300][PW]; U v; r.init(mexp);
    int W = r.n + (int)sym_config("R1", 0), n = (int)sym_config("OUT", 0);
    { static Gen c; static U u[600]; w_set(v, 0x6b43a9d5); c.build(mexp, v, false); Src s; s.n = 16; for (int i = 0; i < 16; i++) s.v[i] = 0x1357ull * (i + 1); c.g->setUpParam(s);
      for (int i = 0; i < W; i++) u[i] = c.g->generate();
      for (int k = 0; k < r.n; k++) for (int e = 0; e < PW; e++) {
          uint32_t want = (uint32_t)((e < 2 ? w_low(u[W - r.n + k]) : w_hi(u[W - r.n + k])) >> (32 * (e & 1))); bool hit = false;
          for (int b = 0; b < c.nblk; b++) for (size_t i = 0; i + 4 <= c.blk[b].n; i += 4) { uint32_t x; memcpy(&x, c.blk[b].p + i, 4); if (x == want && !hit) { hit = true; pk[k][e] = b; po[k][e] = (int)i; } }
          if (!hit) { sym_reach("layout-unknown"); sym_reach("done"); return; }   // state kept in another form: only `conform` applies
      }
      c.g->~G(); }
    w_set(v, 0x3c6ef35f); r.param(draws); a.build(mexp, v, true); { Src s = draws; s.at = 0; a.g->setUpParam(s); }
    for (int i = 0; i < TEMPER; i++) { U z; w_set(z, 0); g_temper(*a.g, i, ~z, z); }
    warm(*a.g, W); any_state(a); r.at = 0;
    for (int k = 0; k < r.n; k++) { uint32_t w[4]; for (int e = 0; e < PW; e++) memcpy(&w[e], a.blk[pk[k][e]].p + po[k][e], 4);
#if GEN == 3
        r.x[k] = w[0];
#elif GEN == 6
        for (int e = 0; e < 4; e++) r.x[k][e] = w[e];
#else
        r.x[k][0] = (uint64_t)w[1] << 32 | w[0]; r.x[k][1] = (uint64_t)w[3] << 32 | w[2];
#endif
    }
#if GEN == 7
    r.L[0] = a.g->getParityValue().u64[0]; r.L[1] = a.g->getParityValue().u64[1];
#endif
    if (!n) n = r.n + 2;
    for (int i = 0; i < n; i++) { U x = a.g->generate(), o = r.next(); w_assert_eq(x, o, "published-recurrence"); if (i < 3 || i == n - 1) sym_observe("out", w_low(x)); r.sync(x, *a.g); }
    sym_reach("done");
#endif
}
// every word the seeding writes (GEN 3: a table-driven recurrence makes long outputs of seeds hard)
static void seedwords() {
#if GEN == 3
    static Gen c, a; static Ref r; U v; int pb[300], po[300]; w_set(v, 0x6b43a9d5); r.init(mexp); c.build(mexp, v, false); r.seed(v);
    for (int k = 0; k < r.n; k++) {
        bool hit = false;
        for (int b = 0; b < c.nblk; b++) for (size_t i = 0; i + 4 <= c.blk[b].n; i += 4) { uint32_t x; memcpy(&x, c.blk[b].p + i, 4); if (x == r.x[k] && !hit) { hit = true; pb[k] = b; po[k] = (int)i; } }
        if (!hit) { sym_reach("layout-unknown"); sym_reach("done"); return; }
    }
    w_sym("seed", v); a.build(mexp, v, true); r.seed(v);
    if (sym_config("RESEED", 0)) { Src s; s.n = 16; for (int i = 0; i < 16; i++) s.v[i] = 0x1357ull * (i + 1); a.g->setUpParam(s); warm(*a.g, r.n + 1); any_state(a); a.g->seed(v); }
    for (int k = 0; k < r.n; k++) { uint32_t x; memcpy(&x, a.blk[pb[k]].p + po[k], 4); sym_assert(x == r.x[k], "published-seeding"); if (k < 3) sym_observe("word", x); }
    sym_reach("done");
#endif
}
// ---- P33
static void units() {
#if GEN == 4 || GEN == 6 || GEN == 7
    static Gen a, b; fresh(a, (int)sym_config("R1", 0)); b.copy(a); int n = a.g->bitSize();
    unsigned p = sym_u32("p"), q = sym_u32("q"); sym_assume(p < (unsigned)n && q < (unsigned)n && p != q);
    if (sym_config("P", -1) >= 0) sym_assume(p == (unsigned)sym_config("P", 0));
    a.g->setOneBit((int)p); b.g->setOneBit((int)q);
    uint64_t diff = 0, many = 0, seen = 0;
    for (int k = 0; k < a.nblk; k++) for (size_t i = 0; i + 8 <= a.blk[k].n; i += 8) {
        uint64_t x, y; memcpy(&x, a.blk[k].p + i, 8); memcpy(&y, b.blk[k].p + i, 8);
        diff |= x ^ y; many |= (x & (x - 1)) | (seen & (0 - (uint64_t)(x != 0))); seen |= 0 - (uint64_t)(x != 0);
    }
#if GEN == 7
    for (int k = 0; k < 2; k++) { uint64_t x = a.g->getParityValue().u64[k], y = b.g->getParityValue().u64[k]; diff |= x ^ y; many |= (x & (x - 1)) | (seen & (0 - (uint64_t)(x != 0))); seen |= 0 - (uint64_t)(x != 0); }
#endif
    sym_assert(seen != 0, "a-bit-is-set"); sym_assert(many == 0, "only-one-bit-is-set"); sym_assert(diff != 0, "unit-states-differ");
    sym_assert(!a.g->isZero(), "unit-state-is-not-zero");
    sym_observe("seen", seen); sym_reach("done");
#endif
}
// ---- P36: what is printed about a generator says what its parameters are
// columns of a line of decimal numbers, hexadecimal numbers and names
static std::string g_line; static size_t g_at;
static uint64_t column(int base) {
    uint64_t v = 0; size_t k = g_at;
    while (g_at < g_line.size() && g_line[g_at] != ',') {
        unsigned c = (unsigned char)g_line[g_at], x = c - '0', h = c - 'a'; sym_assert(x < 10 || (base == 16 && h < 6), "digits-only");
        v = v * (unsigned)base + (x < 10 ? x : h + 10); g_at++;
    }
    sym_assert(g_at > k, "column-present"); g_at++; sym_observe("column", v); return v;
}
static bool name(const char *t) { while (*t && g_at < g_line.size() && g_line[g_at] == *t) { g_at++; t++; } bool ok = !*t && g_at < g_line.size() && g_line[g_at] == ','; g_at++; return ok; }
static void col(int base, uint64_t want, const char *label) { sym_assert(column(base) == want, label); }
#ifdef USE_SHA
enum { SHA = 1 };
#else
enum { SHA = 0 };
#endif
static void printed() {
#if GEN >= 2 && GEN <= 7
    static Gen a, b; static Ref r; fresh(a, (int)sym_config("R1", 0), true);
    r.init(mexp); r.param(draws); for (int i = 0; i < TEMPER; i++) r.temper(i, pat[i]);
#if GEN == 3 && defined(USE_SHA)
    if (sym_config("SHA", 1)) { std::string sha("0123456789abcdef0123456789abcdef01234567"); mtgp::mtgp_param<uint32_t> q = a.g->get_param(); q.set_sha1(sha); a.g->set_param(q); }
#elif GEN == 4
    uint64_t par = sym_u64("parity"); a.g->setParityValue(par);
#elif GEN == 6 || GEN == 7
    w128_t par; w_sym("parity", par); a.g->setParityValue(par);
#if GEN == 7
    w128_t fix; w_sym("fix", fix); a.g->setFixPoint(fix);
#endif
#endif
    b.copy(a); g_line = a.g->getParamString(); g_at = 0;
#if GEN == 2
    col(10, (uint64_t)mexp, "mexp"); col(10, (uint64_t)sym_config("ID", 7), "id"); col(10, (uint64_t)r.m, "pos"); col(16, r.a, "mata"); col(16, r.b, "maskb"); col(16, r.c, "maskc");
#elif GEN == 3
    sym_assert(name(SHA && sym_config("SHA", 1) ? "\"0123456789abcdef0123456789abcdef01234567\"" : "\"\""), "sha1"); col(10, (uint64_t)mexp, "mexp"); sym_assert(name("uint32_t"), "type"); col(10, r.id, "id"); col(10, (uint64_t)r.pos, "pos"); col(10, 13, "sh1"); col(10, 4, "sh2");
    for (int i = 0; i < 4; i++) { col(16, r.tbl[i], "tbl"); } for (int i = 0; i < 4; i++) { col(16, r.tmp[i], "tmp"); } col(16, r.mask, "mask");
#elif GEN == 4
    col(10, (uint64_t)mexp, "mexp"); col(10, (uint64_t)r.pos, "pos"); col(16, r.a, "mata"); col(16, par, "parity");
    sym_assert((column(16) ^ r.b) >> 17 == 0, "maskb"); sym_assert((column(16) ^ r.c) >> 37 == 0, "maskc");      // the bits the shifts can reach
#elif GEN == 5
    col(10, r.id, "id"); col(16, r.m1, "mat1"); col(16, r.m2, "mat2"); col(16, r.tm, "tmat");
#elif GEN == 6
    col(10, (uint64_t)mexp, "mexp"); col(10, (uint64_t)r.p1, "pos1"); col(10, (uint64_t)r.l1, "sl1"); col(10, (uint64_t)r.l2, "sl2"); col(10, (uint64_t)r.r1, "sr1"); col(10, (uint64_t)r.r2, "sr2");
    for (int i = 0; i < 4; i++) { col(16, r.k[i], "msk"); } for (int i = 0; i < 4; i++) col(16, (uint32_t)(par.u64[i / 2] >> (32 * (i & 1))), "parity");
#elif GEN == 7
    col(10, (uint64_t)mexp, "mexp"); col(10, (uint64_t)r.p1, "pos1"); col(10, (uint64_t)r.l1, "sl1"); for (int i = 0; i < 2; i++) { col(16, r.k[i], "msk"); }
    for (int i = 0; i < 2; i++) { col(16, fix.u64[i], "fix"); } for (int i = 0; i < 2; i++) col(16, par.u64[i], "parity");
#endif
    sym_assert(g_at >= g_line.size(), "no-more-columns");
    // one title per column
    { const std::string h = a.g->getHeaderString(); int t = 1, c = 0; for (size_t i = 0; i < h.size(); i++) { if (h[i] == ',') t++; } for (size_t i = 0; i + 1 < g_line.size(); i++) { if (g_line[i] == ',') c++; } sym_assert(t == c + 1, "title-per-column"); }
    for (int i = 0; i < 3; i++) sym_assert(w_eq(a.g->generate(), b.g->generate()), "printing-changes-nothing");
    sym_reach("done");
#endif
}
// ---- P37 period certification of a freshly seeded state; P35 the constant of the prefixed recursion
#if GEN == 6 || GEN == 7
static uint64_t odd128(w128_t a, w128_t b) { uint64_t x = (a.u64[0] & b.u64[0]) ^ (a.u64[1] & b.u64[1]); for (int k = 32; k; k >>= 1) { x ^= x >> k; } return x & 1; }
#endif
static void certify() {
#if GEN == 6 || GEN == 7
    static Gen a, b; U v, zero, par, fix; w_set(zero, 0); w_set(fix, 0); w_sym("parity", par); w_set(v, 0x2b7e1516); long pz = sym_config("PAR", -1);
    if (pz >= 0) { par = zero; par.u64[pz / 64] = 1ull << (pz % 64); }
    a.build(mexp, v, false); params(a); a.g->setParityValue(par);
#if GEN == 7
    bool nofix = sym_config("NOFIX", 0) != 0; if (!nofix) { w_sym("fix", fix); a.g->setFixPoint(fix); }
#endif
    a.g->seed(v); any_state(a); b.copy(a); w128_t s0        /* arbitrary content at the position seeding leaves */ = a.g->getParityValue(), s = s0; s.u64[0] ^= fix.u64[0]; s.u64[1] ^= fix.u64[1];
#if GEN == 7
    int r = nofix ? a.g->periodCertification(true) : a.g->periodCertification();
#else
    int r = a.g->periodCertification();
#endif
    w128_t t0 = a.g->getParityValue(), d = w_xor(t0, s0), t = t0; t.u64[0] ^= fix.u64[0]; t.u64[1] ^= fix.u64[1];
    sym_assert(r == 0 || r == 1, "answer"); sym_assert((r == 1) == (odd128(s, par) == 1), "answer-is-the-parity-check"); sym_observe("r", (uint64_t)r); sym_observe("d", d.u64[0]); sym_observe("d", d.u64[1]);
    if (r == 1) { sym_assert(w_zero(d), "certified-state-unchanged"); sym_reach("certified"); }
    else if (!w_zero(par)) {
        sym_assert(odd128(t, par) == 1, "repaired");
        // the bit the published procedure takes: the lowest of the parity vector (dSFMT: of its second word, if there is one)
        w128_t w = zero; int f = GEN == 6 ? 0 : 1; if (par.u64[f]) { w.u64[f] = par.u64[f] & (0 - par.u64[f]); } else { w.u64[1 - f] = par.u64[1 - f] & (0 - par.u64[1 - f]); }
        sym_assert(w_eq(d, w), "repaired-in-the-published-bit"); sym_reach("repaired");
    } else sym_assert(w_zero(d), "no-parity-no-change");
    a.g->setParityValue(zero); b.g->setParityValue(zero); sym_assert(a.same(b), "nothing-else-changes");
    sym_reach("done");
#endif
}
static void constant() {
#if GEN == 7
    // with c = setConst(): stepping with the exponent prefix is stepping without it and adding c
    static Gen a, b, c; fresh(a, (int)sym_config("R1", 0)); b.copy(a); c.copy(a);
    c.g->setConst(); const uint64_t high = 0x3ff0000000000000ull;
    // a: the same state with every word prefixed
    a.g->setPrefix(high); b.g->setPrefix(0);
    for (int k = 0; k < a.nblk; k++) for (size_t i = 0; i + 8 <= a.blk[k].n; i += 8) { uint64_t x; memcpy(&x, a.blk[k].p + i, 8); x |= high; memcpy(a.blk[k].p + i, &x, 8); }
    U ya = a.g->generate(), yb = b.g->generate(); ya.u64[0] ^= high; ya.u64[1] ^= high;
    b.g->add(c.g); sym_assert(w_eq(b.g->getParityValue(), a.g->getParityValue()), "constant-of-the-carry"); sym_observe("carry", b.g->getParityValue().u64[0]); (void)yb;
    for (int k = 0; k < a.nblk; k++) for (size_t i = 0; i + 8 <= a.blk[k].n; i += 8) { uint64_t x, y; memcpy(&x, a.blk[k].p + i, 8); memcpy(&y, b.blk[k].p + i, 8); sym_assert((x ^ high) == y, "constant-of-the-state"); }
    sym_reach("done");
#endif
}
extern "C" void harness_main() {
    setup();
    switch (sym_config("CASE", 1)) {
    case 1: linear(); break;
    case 2: copies(); break;
    case 3: zeros(); break;
    case 4: seeding(); break;
    case 5: accuracy(); break;
    case 6: tempering(); break;
    case 7: conform(); break;
    case 8: units(); break;
    case 9: outputs(); break;
    case 10: recurrence(); break;
    case 11: seedwords(); break;
    case 12: printed(); break;
    case 13: certify(); break;
    case 14: constant(); break;
    }
}
