// P04, P03: the 128-bit word type of the SIMD samples against 128-bit unsigned arithmetic.
#include <MTToolBox/util.hpp>
#include <w128.hpp>
#include "sym.h"
using namespace MTToolBox;
typedef unsigned __int128 O;
static O o(w128_t x) { return (O)x.u64[1] << 64 | x.u64[0]; }
static w128_t in(const char *n) { w128_t x; x.u64[0] = sym_u64(n); x.u64[1] = sym_u64(n); return x; }
static void see(const char *n, w128_t x) { sym_observe(n, x.u64[0]); sym_observe(n, x.u64[1]); }
static O o_rev(O x) { O r = 0; for (int i = 0; i < 128; i++) r |= ((x >> i) & 1) << (127 - i); return r; }
static void logic() {
    w128_t x = in("x"), y = in("y"); O a = o(x), b = o(y);
    sym_assert(o(x & y) == (a & b), "and"); sym_assert(o(x ^ y) == (a ^ b), "xor"); sym_assert(o(~x) == ~a, "not");
    w128_t z = x; w128_t &rz = (z |= y); sym_assert(o(z) == (a | b) && &rz == &z, "or-assign");
    z = x; w128_t &rx = (z ^= y); sym_assert(o(z) == (a ^ b) && &rx == &z, "xor-assign");
    sym_assert((x == y) == (a == b), "equal"); sym_assert(isZero(x) == (a == 0), "isZero");
    sym_assert(o(and_mask(x, y)) == (a & b), "and_mask");
    z = x; setZero(z); sym_assert(o(z) == 0, "setZero"); sym_assert(o(getOne<w128_t>()) == 1, "getOne");
    sym_assert(o(convert<w128_t, uint64_t>(x.u64[0])) == (O)x.u64[0], "convert64"); sym_assert(o(convert<w128_t, uint32_t>(x.u[1])) == (O)x.u[1], "convert32");
    sym_assert(bit_size<w128_t>() == 128, "bit_size");
    sym_assert(o(reverse_bit(x)) == o_rev(a), "reverse_bit");
    sym_assert(x.u[0] == (uint32_t)a && x.u[1] == (uint32_t)(a >> 32) && x.u[2] == (uint32_t)(a >> 64) && x.u[3] == (uint32_t)(a >> 96), "lanes");
    see("and", x & y); see("rev", reverse_bit(x)); sym_reach("done");
}
static void shifts() {
    w128_t x = in("x"); O a = o(x); int lo = (int)sym_config("LO", 0), s = lo + (int)sym_choice("s", 32);
    sym_assert(o(x << s) == a << s, "shift-left"); sym_assert(o(x >> s) == a >> s, "shift-right");
    w128_t m = make_msb_mask(s); sym_assert(o(m) == (s ? ~(O)0 << (128 - s) : 0), "msb-mask");
    see("left", x << s); see("right", x >> s);
    if (lo == 96) sym_assert(o(make_msb_mask(128)) == ~(O)0, "msb-mask-128");
    sym_reach("done");
}
static void positions() {
    w128_t x = in("x"); O a = o(x); int pos = (int)sym_config("LO", 0) + (int)sym_choice("pos", 32); unsigned b = sym_u32("b"); O m = (O)1 << pos;
    sym_assert(getBitOfPos(x, pos) == (unsigned)((a >> pos) & 1), "getBitOfPos");
    w128_t y = x; setBitOfPos(&y, pos, b); sym_assert(o(y) == ((a & ~m) | (b & 1 ? m : 0)), "setBitOfPos");
    // every nonzero word has its least significant one at some position
    O c = (a | 1) << pos; w128_t z; z.u64[0] = (uint64_t)c; z.u64[1] = (uint64_t)(c >> 64);
    sym_assert(calc_1pos(z) == 127 - pos, "calc_1pos");
    setZero(z); sym_assert(calc_1pos(z) == -1, "calc_1pos-zero");
    see("set", y); sym_reach("done");
}
static void vectors() {
    int n = 128; NTL::vec_GF2 v; v.SetLength(n); w128_t w = in("v");
    for (int i = 0; i < n; i++) v.put(i, (long)((o(w) >> (127 - i)) & 1));
    w128_t r = fromGF2Vec<w128_t>(v);
    sym_assert(o(r) == o(w), "fromGF2Vec"); see("r", r); sym_reach("done");
}
extern "C" void harness_main() {
    switch (sym_config("CASE", 0)) { case 1: logic(); break; case 2: shifts(); break; case 3: positions(); break; case 4: vectors(); break; }
}
