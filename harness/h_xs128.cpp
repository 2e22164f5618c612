// P27, P30: the plain C xorshift128 generator.
#include <stdint.h>
#include "sym.h"
extern "C" {
struct XORSHIFT128_T { uint32_t x, y, z, w; };
uint32_t xorshift128_generate(XORSHIFT128_T *);
void xorshift128_init(XORSHIFT128_T *, uint32_t);
void xorshift128_init_by_array(XORSHIFT128_T *, const uint32_t[], int);
}
typedef XORSHIFT128_T X;
static void any(X &x) { x.x = sym_u32("s"); x.y = sym_u32("s"); x.z = sym_u32("s"); x.w = sym_u32("s"); }
static bool same(const X &a, const uint32_t *r) { return a.x == r[0] && a.y == r[1] && a.z == r[2] && a.w == r[3]; }
static void step(uint32_t *r) {
    uint32_t t = r[0] ^ r[0] << 11; t ^= t >> 7; uint32_t n = r[3] ^ r[3] << 20 ^ t;
    r[0] = r[1]; r[1] = r[2]; r[2] = r[3]; r[3] = n;
}
static void recurrence() {
    X x; any(x); uint32_t r[4] = { x.x, x.y, x.z, x.w }; bool zero = !(r[0] | r[1] | r[2] | r[3]);
    for (int i = 0; i < 8; i++) {
        uint32_t v = xorshift128_generate(&x); step(r); sym_assert(v == r[3] && same(x, r), "recurrence"); sym_observe("out", v);
        if (i < 2) sym_assert((x.x | x.y | x.z | x.w) == 0 ? zero : !zero, "nonzero-stays-nonzero");
    }
    sym_reach("done");
}
static void seed() {
    X x; any(x); uint32_t s = sym_u32("seed"), r[4]; xorshift128_init(&x, s);
    r[0] = s; for (int i = 1; i < 4; i++) r[i] = 1812433253u * (r[i - 1] ^ r[i - 1] >> 30) + i;
    for (int i = 4; i < 8; i++) r[i & 3] = 1812433253u * (r[(i - 1) & 3] ^ r[(i - 1) & 3] >> 30) + i;
    sym_assert(same(x, r), "init");
    // nonzero, or a nonzero step: the last assignment makes r3 a function of r2, so r2 = 0 gives r3 = 7
    sym_assert((x.x | x.y | x.z | x.w) != 0, "seed-gives-nonzero-state"); sym_observe("x", x.x); sym_reach("done");
}
// init_by_array of the SFMT / TinyMT family for a state of four words
static uint32_t f1(uint32_t x) { return (x ^ x >> 27) * 1664525u; }
static uint32_t f2(uint32_t x) { return (x ^ x >> 27) * 1566083941u; }
static void array() {
    int n = (int)sym_config("KLEN", 1), count = n + 1 > 8 ? n + 1 : 8, i = 0; uint32_t key[64], s[4] = { 0, 0, 0, 0 };
    for (int k = 0; k < n; k++) key[k] = sym_u32("key");
    X x; any(x); xorshift128_init_by_array(&x, key, n);
    for (int k = 0; k < count; k++, i = (i + 1) & 3) {      // mixing steps; the first absorbs the length
        uint32_t r = f1(s[i] ^ s[(i + 1) & 3] ^ s[(i + 3) & 3]); s[(i + 1) & 3] += r;
        r += k == 0 ? (uint32_t)n : (k <= n ? key[k - 1] : 0) + (uint32_t)i; s[(i + 2) & 3] += r; s[i] = r;
    }
    for (int k = 0; k < 4; k++, i = (i + 1) & 3) {
        uint32_t r = f2(s[i] + s[(i + 1) & 3] + s[(i + 3) & 3]); s[(i + 1) & 3] ^= r; r -= i; s[(i + 2) & 3] ^= r; s[i] = r;
    }
    bool z = !(s[0] | s[1] | s[2] | s[3]);
    sym_assert((x.x | x.y | x.z | x.w) != 0, "array-gives-nonzero-state");
    sym_assert(z || same(x, s), "init-by-array"); sym_observe("x", x.x); sym_reach("done");
}
extern "C" void harness_main() { switch (sym_config("CASE", 0)) { case 1: recurrence(); break; case 2: seed(); break; case 3: array(); break; } }
