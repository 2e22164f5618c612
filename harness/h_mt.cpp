// P05, P06, P07: MersenneTwister / MersenneTwister64 against the published recurrences.
#include <new>
#include <MTToolBox/util.hpp>
#include <MTToolBox/MersenneTwister.hpp>
#include <MTToolBox/MersenneTwister64.hpp>
#include "sym.h"
using namespace MTToolBox;
enum { MAXOUT = 2600 };
// reference: Matsumoto-Nishimura, written as the plain recurrence over an unbounded sequence
struct Ref32 {
    uint32_t x[624 + MAXOUT]; int k;
    void init(uint32_t s) { x[0] = s; for (int i = 1; i < 624; i++) x[i] = 1812433253u * (x[i - 1] ^ (x[i - 1] >> 30)) + i; k = 0; }
    void initKey(const uint32_t *key, int n) {
        init(19650218u);
        int i = 1, j = 0;
        for (int c = 0; c < (n > 624 ? n : 624); c++) {
            x[i] = (x[i] ^ ((x[i - 1] ^ (x[i - 1] >> 30)) * 1664525u)) + key[j] + j;
            if (++i == 624) { x[0] = x[623]; i = 1; }
            if (++j == n) j = 0;
        }
        for (int c = 0; c < 623; c++) {
            x[i] = (x[i] ^ ((x[i - 1] ^ (x[i - 1] >> 30)) * 1566083941u)) - i;
            if (++i == 624) { x[0] = x[623]; i = 1; }
        }
        x[0] = 0x80000000u; k = 0;
    }
    uint32_t next() {
        uint32_t y = (x[k] & 0x80000000u) | (x[k + 1] & 0x7fffffffu);
        x[k + 624] = x[k + 397] ^ (y >> 1) ^ ((0u - (y & 1)) & 0x9908b0dfu);
        y = x[k + 624]; k++;
        y ^= y >> 11; y ^= (y << 7) & 0x9d2c5680u; y ^= (y << 15) & 0xefc60000u; y ^= y >> 18;
        return y;
    }
};
struct Ref64 {
    uint64_t x[312 + MAXOUT]; int k;
    void init(uint64_t s) { x[0] = s; for (int i = 1; i < 312; i++) x[i] = 6364136223846793005ULL * (x[i - 1] ^ (x[i - 1] >> 62)) + i; k = 0; }
    void initKey(const uint64_t *key, int n) {
        init(19650218ULL);
        int i = 1, j = 0;
        for (int c = 0; c < (n > 312 ? n : 312); c++) {
            x[i] = (x[i] ^ ((x[i - 1] ^ (x[i - 1] >> 62)) * 3935559000370003845ULL)) + key[j] + j;
            if (++i == 312) { x[0] = x[311]; i = 1; }
            if (++j == n) j = 0;
        }
        for (int c = 0; c < 311; c++) {
            x[i] = (x[i] ^ ((x[i - 1] ^ (x[i - 1] >> 62)) * 2862933555777941757ULL)) - i;
            if (++i == 312) { x[0] = x[311]; i = 1; }
        }
        x[0] = 1ULL << 63; k = 0;
    }
    uint64_t next() {
        uint64_t y = (x[k] & 0xFFFFFFFF80000000ULL) | (x[k + 1] & 0x7FFFFFFFULL);
        x[k + 312] = x[k + 156] ^ (y >> 1) ^ ((0ULL - (y & 1)) & 0xB5026F5AA96619E9ULL);
        y = x[k + 312]; k++;
        y ^= (y >> 29) & 0x5555555555555555ULL; y ^= (y << 17) & 0x71D67FFFEDA60000ULL; y ^= (y << 37) & 0xFFF7EEE000000000ULL; y ^= y >> 43;
        return y;
    }
};
static Ref32 r32; static Ref64 r64;
static uint32_t key32[2000]; static uint64_t key64[2000]; static char str[2000];
// how the generator was used before the seeding under test
static MersenneTwister *make32(int mode, void *mem, int hist) {
    MersenneTwister *g;
    switch (mode) {
    case 0: g = new (mem) MersenneTwister(); break;
    case 1: g = new (mem) MersenneTwister(sym_u32("s0")); break;
    default: { static uint32_t k[3]; for (auto &x : k) x = sym_u32("k0"); g = new (mem) MersenneTwister(k, 3); } break;
    }
    for (int i = 0; i < hist; i++) g->next();
    return g;
}
static void cmp32(MersenneTwister &g, int n) {
    int kind = (int)sym_config("KIND", 0);
    for (int i = 0; i < n; i++) {
        uint32_t e = r32.next();
        if (kind == 1) { ParameterGenerator &p = g; sym_assert(p.getUint32() == e, "getUint32"); }
        else if (kind == 2) { ParameterGenerator &p = g; uint64_t v = p.getUint64(); sym_assert((uint32_t)(v >> 32) == e, "getUint64-high"); e = r32.next(); sym_assert((uint32_t)v == e, "getUint64-low"); i++; }
        else if (kind == 3) {   // mixed calls keep one stream
            if (i % 3 == 0) sym_assert(g.next() == e, "mixed-next");
            else if (i % 3 == 1) sym_assert(g.getUint32() == e, "mixed-32");
            else { uint64_t v = g.getUint64(); uint32_t f = r32.next(); sym_assert(v == (((uint64_t)e << 32) | f), "mixed-64"); i++; }
        } else { uint32_t v = g.next(); sym_assert(v == e, "output"); if (i < 3 || i == n - 1) sym_observe("out", v); }
    }
}
static void cmp64(MersenneTwister64 &g, int n) {
    int kind = (int)sym_config("KIND", 0);
    for (int i = 0; i < n; i++) {
        uint64_t e = r64.next();
        if (kind == 1) { ParameterGenerator &p = g; sym_assert(p.getUint64() == e, "getUint64"); }
        else if (kind == 2) { ParameterGenerator &p = g; sym_assert(p.getUint32() == (uint32_t)(e >> 32), "getUint32"); }
        else { uint64_t v = g.next(); sym_assert(v == e, "output"); if (i < 3 || i == n - 1) sym_observe("out", v); }
    }
}
extern "C" void harness_main() {
    int out = (int)sym_config("OUT", 1700), hist = (int)sym_config("HIST", 0), mode = (int)sym_config("MODE", 0), klen = (int)sym_config("KLEN", 4);
    switch (sym_config("CASE", 0)) {
    case 1: { // reseed with an integer
        SymStorage<MersenneTwister> st("paint"); MersenneTwister *g = make32(mode, st.p(), hist);
        uint32_t s = sym_u32("seed");
        switch (sym_config("HOW", 0)) {
        case 0: g->seed(s); break;
        case 1: { uint64_t w = sym_u64("wide"); s = (uint32_t)w; ParameterGenerator *p = g; p->seed(w); } break;   // only the low 32 bits count
        }
        r32.init(s); cmp32(*g, out);
        g->~MersenneTwister(); break; }
    case 2: { // constructor
        SymStorage<MersenneTwister> st("paint"); MersenneTwister *g; uint32_t s;
        if (mode == 0) { g = new (st.p()) MersenneTwister(); s = 5489; } else { s = sym_u32("seed"); g = new (st.p()) MersenneTwister(s); }
        r32.init(s); cmp32(*g, out); g->~MersenneTwister(); break; }
    case 3: { // array and string keys
        SymStorage<MersenneTwister> st("paint"); MersenneTwister *g;
        for (int i = 0; i < klen; i++) key32[i] = sym_u32("key");
        int how = (int)sym_config("HOW", 0);
        if (how == 0) { g = new (st.p()) MersenneTwister(key32, klen); }
        else if (how == 1) { g = make32(mode, st.p(), hist); g->seed(key32, klen); }
        else {
            for (int i = 0; i < klen; i++) { uint8_t c = (uint8_t)sym_bits("chr", 7); sym_assume(c != 0); str[i] = (char)c; key32[i] = c; }
            str[klen] = 0; std::string s(str);
            sym_assert((int)s.size() == klen, "string-built");
            if (how == 2) g = new (st.p()) MersenneTwister(s);
            else { g = make32(mode, st.p(), hist); g->seed(s); }
        }
        r32.initKey(key32, klen); cmp32(*g, out); g->~MersenneTwister(); break; }
    case 4: { // 64-bit
        SymStorage<MersenneTwister64> st("paint"); MersenneTwister64 *g;
        int how = (int)sym_config("HOW", 0); uint64_t s = 19650218;
        if (how == 0) g = new (st.p()) MersenneTwister64();
        else if (how == 1) { s = sym_u64("seed"); g = new (st.p()) MersenneTwister64(s); }
        else {
            if (mode == 0) g = new (st.p()) MersenneTwister64(); else { uint64_t k0[2] = {sym_u64("k0"), sym_u64("k0")}; g = new (st.p()) MersenneTwister64(k0, 2); }
            for (int i = 0; i < hist; i++) g->next();
            s = sym_u64("seed"); ParameterGenerator *p = g; p->seed(s);
        }
        r64.init(s); cmp64(*g, out); g->~MersenneTwister64(); break; }
    case 5: {
        SymStorage<MersenneTwister64> st("paint"); MersenneTwister64 *g;
        for (int i = 0; i < klen; i++) key64[i] = sym_u64("key");
        int how = (int)sym_config("HOW", 0);
        if (how == 0) g = new (st.p()) MersenneTwister64(key64, klen);
        else if (how == 1) { g = new (st.p()) MersenneTwister64(sym_u64("s0")); for (int i = 0; i < hist; i++) g->next(); g->seed(key64, klen); }
        else {
            for (int i = 0; i < klen; i++) { uint8_t c = (uint8_t)sym_bits("chr", 7); sym_assume(c != 0); str[i] = (char)c; key64[i] = c; }
            str[klen] = 0; std::string s(str);
            if (how == 2) g = new (st.p()) MersenneTwister64(s);
            else { g = new (st.p()) MersenneTwister64(); for (int i = 0; i < hist; i++) g->next(); g->seed(s); }
        }
        r64.initKey(key64, klen); cmp64(*g, out); g->~MersenneTwister64(); break; }
    }
    sym_reach("compared");
}
