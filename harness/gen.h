// Common ground for the sample generators' harnesses: adapters that build one generator from an
// arbitrary parameter source, memory whose initial content is arbitrary, and arbitrary states.
#ifndef GEN_H
#define GEN_H
#include <stdlib.h>
#include <string.h>
#include <new>
#include "sym.h"
// ---- every heap block can be given arbitrary initial content, and can be found again
struct Blk { unsigned char *p; size_t n; };
static Blk g_blk[64]; static int g_nblk = 0; static bool g_rec = false, g_any = true;
#ifdef SYM_NATIVE
extern "C" int sym_busy;
#else
static const int sym_busy = 0;
#endif
static void *h_alloc(size_t n) {
    void *p = malloc(n ? n : 1);
    if (g_rec && !sym_busy) {
        unsigned char *b = (unsigned char *)p;
        if (g_any) for (size_t i = 0; i < n; i += 8) { uint64_t v = sym_bits("heap", 64); for (size_t j = 0; j < 8 && i + j < n; j++) b[i + j] = (unsigned char)(v >> (8 * j)); }
        if (g_nblk < 64) { g_blk[g_nblk].p = b; g_blk[g_nblk].n = n; g_nblk++; }
    }
    return p;
}
static void h_free(void *p) {
    for (int i = 0; i < g_nblk; i++) if (g_blk[i].p == p) { g_blk[i] = g_blk[--g_nblk]; break; }
    free(p);
}
void *operator new(size_t n) { return h_alloc(n); }
void *operator new[](size_t n) { return h_alloc(n); }
void operator delete(void *p) noexcept { h_free(p); }
void operator delete[](void *p) noexcept { h_free(p); }
void operator delete(void *p, size_t) noexcept { h_free(p); }
void operator delete[](void *p, size_t) noexcept { h_free(p); }

#define main sample_main
#if GEN == 1
#include "MTDC/mt1.cpp"
#elif GEN == 2
#include "MTDC/mt2.cpp"
#elif GEN == 3
#include "MTGPDC/MTGP32search.hpp"
#elif GEN == 4
#include "RMT/rmt64.hpp"
#elif GEN == 5
#include "TinyMTDC/tinymt32search.hpp"
#elif GEN == 6
#include "sfmtdc/sfmtsearch.hpp"
#elif GEN == 7
#include "dSFMTdc/dSFMTsearch.hpp"
#elif GEN == 12
#include "XORSHIFT/xorshift-2.cpp"
#elif GEN == 13
#include "XORSHIFT/xorshift-3.cpp"
#elif GEN == 14
#include "XORSHIFT/xorshift-4.cpp"
#elif GEN == 15
#include "XORSHIFT/xorshift-5.cpp"
#endif
#undef main
#include <MTToolBox/ParameterGenerator.hpp>
// ---- words of 32, 64 and 128 bits
static inline bool w_eq(uint32_t a, uint32_t b) { return a == b; }
static inline bool w_eq(uint64_t a, uint64_t b) { return a == b; }
static inline uint32_t w_xor(uint32_t a, uint32_t b) { return a ^ b; }
static inline uint64_t w_xor(uint64_t a, uint64_t b) { return a ^ b; }
static inline bool w_zero(uint32_t a) { return a == 0; }
static inline bool w_zero(uint64_t a) { return a == 0; }
static inline void w_sym(const char *n, uint32_t &a) { a = sym_u32(n); }
static inline void w_sym(const char *n, uint64_t &a) { a = sym_u64(n); }
static inline void w_set(uint32_t &a, uint64_t v) { a = (uint32_t)v; }
static inline void w_set(uint64_t &a, uint64_t v) { a = v; }
static inline uint32_t w_rev(uint32_t a) { uint32_t r = 0; for (int i = 0; i < 32; i++) r |= ((a >> i) & 1u) << (31 - i); return r; }
static inline uint64_t w_rev(uint64_t a) { uint64_t r = 0; for (int i = 0; i < 64; i++) r |= ((a >> i) & 1ull) << (63 - i); return r; }
static inline uint32_t w_top(uint32_t a, int v) { return v >= 32 ? a : a & ~(~(uint32_t)0 >> v); }
static inline uint64_t w_top(uint64_t a, int v) { return v >= 64 ? a : a & ~(~(uint64_t)0 >> v); }
static inline uint64_t w_low(uint32_t a) { return a; }
static inline uint64_t w_low(uint64_t a) { return a; }
#if GEN == 6 || GEN == 7
using MTToolBox::w128_t;
static inline bool w_eq(w128_t a, w128_t b) { return ((a.u64[0] ^ b.u64[0]) | (a.u64[1] ^ b.u64[1])) == 0; }
static inline w128_t w_xor(w128_t a, w128_t b) { w128_t r; r.u64[0] = a.u64[0] ^ b.u64[0]; r.u64[1] = a.u64[1] ^ b.u64[1]; return r; }
static inline bool w_zero(w128_t a) { return (a.u64[0] | a.u64[1]) == 0; }
static inline void w_sym(const char *n, w128_t &a) { a.u64[0] = sym_u64(n); a.u64[1] = sym_u64(n); }
static inline void w_set(w128_t &a, uint64_t v) { a.u64[0] = v; a.u64[1] = 0; }
static inline w128_t w_rev(w128_t a) { w128_t r; r.u64[0] = w_rev(a.u64[1]); r.u64[1] = w_rev(a.u64[0]); return r; }
static inline w128_t w_top(w128_t a, int v) { w128_t r = a; if (v < 64) { r.u64[0] = 0; r.u64[1] = w_top(a.u64[1], v); } else if (v < 128) r.u64[0] = v == 64 ? 0 : w_top(a.u64[0], v - 64); return r; }
static inline uint64_t w_low(w128_t a) { return a.u64[0]; }
#endif
// equality, one question per output bit when BITS is configured (easier for tables)
static inline uint64_t w_hi(uint32_t) { return 0; }
static inline uint64_t w_hi(uint64_t) { return 0; }
#if GEN == 6 || GEN == 7
static inline uint64_t w_hi(w128_t a) { return a.u64[1]; }
#endif
template <class W> static void w_assert_eq(W a, W b, const char *label) {
    if (!sym_config("BITS", 0)) { sym_assert(w_eq(a, b), label); return; }
    uint64_t l = w_low(w_xor(a, b)), h = w_hi(w_xor(a, b)); int n = sizeof(W) * 8;
    for (int i = 0; i < n; i++) sym_assert((((i < 64 ? l : h) >> (i & 63)) & 1) == 0, label);
}
// ---- parameter source: arbitrary numbers, or the listed ones
struct Src : MTToolBox::ParameterGenerator {
    uint64_t v[16]; int n, at;
    Src() : n(0), at(0) {}
    uint64_t draw() { if (at < n) return v[at++]; sym_fail("parameter-source-read-too-often"); }
    uint32_t getUint32() { return (uint32_t)draw(); }
    uint64_t getUint64() { return draw(); }
    void seed(uint64_t) {}
};
// one configuration number per draw: Da, Db, ... >= 0 fixes the draw, otherwise it is arbitrary
static void fill_draws(Src &s, int n, int width, uint64_t fix0) {
    s.n = n;
    for (int i = 0; i < n; i++) { char nm[3] = {'D', (char)('a' + i), 0}; long c = sym_config(nm, i == 0 && fix0 ? (long)fix0 - 1 : -1); s.v[i] = c != -1 ? (uint64_t)c : sym_bits("draw", width); }
    // every residue: small numbers and the largest ones
    long m = sym_config("PCH", 0); if (m && n) { uint64_t c = sym_concretize((uint64_t)sym_choice("position", (unsigned)(2 * m))); s.v[0] = c < (uint64_t)m ? c : ~(uint64_t)0 - (c - (uint64_t)m); if (width == 32) s.v[0] &= 0xffffffffu; }
}
#if GEN == 1
typedef MT19937 G; typedef uint32_t U; enum { DRAWS = 0, DW = 32, REVERSE = 0, TEMPER = 0 };
static G *g_new(void *at, int, U v) { return new (at) G(v); }
static int g_ring(const G &) { return 624; }
#elif GEN == 2
typedef MT32Search G; typedef uint32_t U; enum { DRAWS = 2, DW = 32, REVERSE = 1, TEMPER = 2 };
static G *g_new(void *at, int mexp, U v) { return new (at) G(mexp, (int)sym_config("ID", 7), v); }
static int g_ring(const G &g) { return g.bitSize() / 32 + 1; }
#elif GEN == 3
typedef mtgp::mtgp32 G; typedef uint32_t U; enum { DRAWS = 5, DW = 32, REVERSE = 1, TEMPER = 4 };
static G *g_new(void *at, int mexp, U v) { G *g = new (at) G(mexp, (uint32_t)sym_config("ID", 0x1234567)); g->seed(v); return g; }
static int g_ring(const G &g) { return g.bitSize() / 32 + 1; }
#elif GEN == 4
typedef RMT64Search G; typedef uint64_t U; enum { DRAWS = 2, DW = 64, REVERSE = 1, TEMPER = 2 };
static G *g_new(void *at, int mexp, U v) { return new (at) G(mexp, v); }
static int g_ring(const G &g) { return g.bitSize() / 64; }
#elif GEN == 5
typedef tinymt::tinymt32 G; typedef uint32_t U; enum { DRAWS = 1, DW = 32, REVERSE = 1, TEMPER = 1 };
static G *g_new(void *at, int, U v) { G *g = new (at) G((uint32_t)sym_config("ID", 0x9abcdef)); g->seed(v); return g; }
static int g_ring(const G &) { return 4; }
#elif GEN == 6
typedef MTToolBox::sfmt G; typedef w128_t U; enum { DRAWS = 13, DW = 32, REVERSE = 0, TEMPER = 0 };
static G *g_new(void *at, int mexp, U v) { G *g = new (at) G(mexp); g->seed(v); g->setStartMode((int)sym_config("START", 0)); g->setWeightMode((int)sym_config("WEIGHT", 4)); return g; }
static int g_ring(const G &g) { return g.bitSize() / 128; }
#elif GEN == 7
typedef MTToolBox::dSFMT G; typedef w128_t U; enum { DRAWS = 6, DW = 64, REVERSE = 0, TEMPER = 0 };
static G *g_new(void *at, int mexp, U v) { G *g = new (at) G(mexp); g->seed(v); g->setStartMode((int)sym_config("START", 0)); g->setWeightMode((int)sym_config("WEIGHT", 2)); return g; }
static int g_ring(const G &g) { return (g.bitSize() - 128) / 104; }
#else
typedef XorShift G; typedef uint32_t U; enum { DW = 32, REVERSE = 0, TEMPER = 0 };
#if GEN == 13 || GEN == 14
enum { DRAWS = 1 };
#else
enum { DRAWS = 0 };
#endif
static G *g_new(void *at, int, U v) { return new (at) G(v); }
static int g_ring(const G &) { return 4; }
#endif
#if GEN >= 2 && GEN <= 5
static void g_temper(G &g, int i, U mask, U pat) { g.setTemperingPattern(mask, pat, i); g.setUpTempering(); }
static void g_reverse(G &g, bool on) { if (on) g.setReverseOutput(); else g.resetReverseOutput(); }
#else
static void g_temper(G &, int, U, U) {}
#if GEN == 6
static void g_reverse(G &g, bool on) { if (on) g.set_reverse_bit(); else g.reset_reverse_bit(); }
#else
static void g_reverse(G &, bool) {}
#endif
#endif
// ---- one generator with its storage
struct Gen {
    alignas(16) unsigned char mem[sizeof(G)]; G *g; Blk blk[8]; int nblk;
    void build(int mexp, U v, bool dirty) {
        if (dirty) for (size_t i = 0; i < sizeof(G); i += 8) { uint64_t x = sym_bits("mem", 64); for (size_t j = 0; j < 8 && i + j < sizeof(G); j++) mem[i + j] = (unsigned char)(x >> (8 * j)); }
        else memset(mem, 0, sizeof mem);
        g_nblk = 0; g_rec = true; g = g_new(mem, mexp, v); g_rec = false;
        take();
    }
    void take() { nblk = 0; for (int i = 0; i < g_nblk && nblk < 8; i++) blk[nblk++] = g_blk[i]; g_nblk = 0; }
    void copy(const Gen &o) { memset(mem, 0, sizeof mem); g_nblk = 0; g_rec = true; g_any = false; g = new (mem) G(*o.g); g_rec = false; g_any = true; take(); }
    // same bytes everywhere, except for the addresses of the blocks each one owns
    bool same(const Gen &o) const {
        uint64_t d = 0; if (nblk != o.nblk) return false;
        for (size_t i = 0; i < sizeof(G); i += 8) {
            uint64_t x = 0, y = 0; size_t n = sizeof(G) - i < 8 ? sizeof(G) - i : 8; memcpy(&x, mem + i, n); memcpy(&y, o.mem + i, n);
            if (n == 8 && is_block(x) && o.is_block(y)) continue;
            d |= x ^ y;
        }
        for (int k = 0; k < nblk; k++) { if (blk[k].n != o.blk[k].n) return false; for (size_t i = 0; i + 4 <= blk[k].n; i += 4) { uint32_t x, y; memcpy(&x, blk[k].p + i, 4); memcpy(&y, o.blk[k].p + i, 4); d |= x ^ y; } }
        if (sym_config("BITS", 0)) for (int i = 0; i < 32; i++) if ((d >> i) & 0x100000001ull) return false;
        return d == 0;
    }
    bool is_block(uint64_t a) const { for (int i = 0; i < nblk; i++) if (a == (uint64_t)blk[i].p) return true; return false; }
    bool owns(uint64_t a) const { for (int i = 0; i < nblk; i++) if (a >= (uint64_t)blk[i].p && a < (uint64_t)blk[i].p + blk[i].n) return true; return false; }
};
static int g_word[2048], g_nword = -1;
// which words inside the object hold state: those that depend on the seed after some steps
static void find_state(int mexp, const Src &draws) {
    static Gen a, b, c; U v;
    w_set(v, 0x12345678); a.build(mexp, v, false); w_set(v, 0x9abcdef1); b.build(mexp, v, false); w_set(v, 0x5a17b3c2); c.build(mexp, v, false);
    Src s1; s1.n = 16; for (int i = 0; i < 16; i++) s1.v[i] = 0x1357 * (i + 1); Src s2 = s1, s3 = s1;
    if (DRAWS) { a.g->setUpParam(s1); b.g->setUpParam(s2); c.g->setUpParam(s3); }
    int R = g_ring(*a.g); for (int i = 0; i < R; i++) { a.g->generate(); b.g->generate(); c.g->generate(); }
    g_nword = 0;
    for (size_t i = 0; i + 4 <= sizeof(G); i += 4) {
        uint64_t q; memcpy(&q, a.mem + (i & ~(size_t)7), 8);
        if (a.owns(q)) continue;
        uint32_t x, y, z; memcpy(&x, a.mem + i, 4); memcpy(&y, b.mem + i, 4); memcpy(&z, c.mem + i, 4);
        if (x != y || y != z) g_word[g_nword++] = (int)i;
    }
    a.g->~G(); b.g->~G(); c.g->~G(); (void)draws;
}
// an arbitrary state at the current internal position
static void any_state(Gen &x) {
    for (int k = 0; k < x.nblk; k++) for (size_t i = 0; i + 4 <= x.blk[k].n; i += 4) {
        long few = sym_config("FEW", 0);         // only the first and last words of the array, the others zero
        uint32_t w = few && i >= 4 * (size_t)few && i + 4 * (size_t)few < x.blk[k].n ? 0 : sym_u32("state");
#if GEN == 7
        if (i & 4) w &= 0xfffff;            // 52-bit state words (the prefix bits are zero)
#endif
        memcpy(x.blk[k].p + i, &w, 4);
    }
    long few = sym_config("FEW", 0);
    for (int k = 0; k < g_nword; k++) { uint32_t w = few && k >= few && k + few < g_nword && k % 16 != few % 16 ? 0 : sym_u32("istate"); memcpy(x.mem + g_word[k], &w, 4); }
}
static void warm(G &g, int n) { for (int i = 0; i < n; i++) g.generate(); }
#endif
