// P01, P02, P03: bit utilities, range reduction, table expansion, GF(2)-vector conversion.
#include <MTToolBox/util.hpp>
#include "sym.h"
using namespace MTToolBox;
// number of one bits, as a balanced sum over the single bits
static unsigned o_tree(uint64_t x, int lo, int n) { return n == 1 ? (unsigned)((x >> lo) & 1) : o_tree(x, lo, n / 2) + o_tree(x, lo + n / 2, n / 2); }
template <class T> static int o_count(T x) { return (int)o_tree(x, 0, sizeof(T) * 8); }
template <class T> static T o_rev(T x) { T r = 0; int n = sizeof(T) * 8; for (int i = 0; i < n; i++) r |= (T)((T)((x >> i) & 1) << (n - 1 - i)); return r; }
template <class T> static void bits(const char *nm) {
    T x = (T)sym_bits(nm, sizeof(T) * 8);
    int n = sizeof(T) * 8;
    sym_assert(count_bit(x) == o_count(x), "count_bit");
    // every word is zero or has its least significant one at some position k
    int k = (int)sym_choice("k", n + 1);
    T z1 = k == n ? (T)0 : (T)((x | 1) << k);
    int p = calc_1pos(z1);
    sym_assert(p == (k == n ? -1 : n - 1 - k), "calc_1pos");
    int pos = (int)sym_choice("pos", n);
    unsigned b = sym_u32("b");
    sym_assert(getBitOfPos(x, pos) == (unsigned)((x >> pos) & 1), "getBitOfPos");
    T y = x; setBitOfPos(&y, pos, b);
    T m = (T)((T)1 << pos);
    sym_assert((T)(y & (T)~m) == (T)(x & (T)~m), "setBitOfPos-others");
    sym_assert(((y & m) != 0) == ((b & 1) != 0), "setBitOfPos-bit");
    sym_assert(isZero(x) == (x == 0), "isZero");
    T z = x; setZero(z); sym_assert(z == 0, "setZero");
    sym_assert(getOne<T>() == 1, "getOne");
    sym_assert(bit_size<T>() == n, "bit_size");
    sym_observe("count", (uint64_t)count_bit(x)); sym_observe("pos1", (uint64_t)(int64_t)p); sym_observe("set", y);
    sym_reach("bits");
}
template <class T> static void setget(const char *nm) {   // widths without count_bit
    T x = (T)sym_bits(nm, sizeof(T) * 8); int n = sizeof(T) * 8;
    int pos = (int)sym_choice("pos", n); unsigned b = sym_u32("b");
    sym_assert(getBitOfPos(x, pos) == (unsigned)((x >> pos) & 1), "getBitOfPos");
    T y = x; setBitOfPos(&y, pos, b); T m = (T)((T)1 << pos);
    sym_assert((T)(y & (T)~m) == (T)(x & (T)~m) && ((y & m) != 0) == ((b & 1) != 0), "setBitOfPos");
    sym_reach("setget");
}
template <class T> static void rev(const char *nm) {
    T x = (T)sym_bits(nm, sizeof(T) * 8);
    sym_assert(reverse_bit(x) == o_rev(x), "reverse_bit");
    sym_assert(reverse_bit(reverse_bit(x)) == x, "reverse_bit-involution");
    sym_observe("rev", reverse_bit(x));
    sym_reach("rev");
}
template <class T> static void fl2(const char *nm) {
    T x = (T)sym_bits(nm, sizeof(T) * 8);
    sym_assume(x > 0);
    T r = floor2p(x);
    sym_assert(r > 0 && (r & (T)(r - 1)) == 0 && r <= x && x - r < r, "floor2p");
    sym_observe("fl2", (uint64_t)r);
    sym_reach("fl2");
}
template <class T> static void range(const char *nm) {
    T x = (T)sym_bits(nm, sizeof(T) * 8);
    int start = (int)sym_u32("start"), end = (int)sym_u32("end");
    int64_t lim = (int64_t)sym_config("LIM", 0x7fffffff);
    sym_assume(start <= end && (int64_t)start >= -lim && (int64_t)end <= lim && (int64_t)end - start < 0x7fffffff);
    int r = get_range(x, start, end);
    sym_assert(r >= start && r <= end, "range-within");
    T size = (T)((unsigned)(end - start) + 1u);
    sym_assert((unsigned)r - (unsigned)start == (unsigned)(x % size), "range-mod");
    // every value is reachable: the word v - start maps to v
    if (!sym_config("ONTO", 0)) { sym_observe("r", (uint64_t)(int64_t)r); sym_reach("range"); return; }
    int v = (int)sym_u32("v"); sym_assume(v >= start && v <= end);
    sym_assume((uint64_t)((int64_t)v - start) == (uint64_t)(T)((int64_t)v - start));
    sym_assert(get_range((T)((int64_t)v - start), start, end) == v, "range-onto");
    sym_observe("r", (uint64_t)(int64_t)r);
    sym_reach("range");
}
template <class T> static void table(const char *nm) {
    int lg = (int)sym_config("LG", 4), size = (int)sym_config("SIZE", 1 << lg);
    T d[256], src[8], old[256];
    for (int i = 0; i < size; i++) old[i] = d[i] = (T)sym_bits("d", sizeof(T) * 8);
    for (int i = 0; i < 8; i++) src[i] = (T)sym_bits(nm, sizeof(T) * 8);
    fill_table(d, src, size);
    for (int i = 0; i < size; i++) {
        T e = old[i];
        for (int k = 0; k < 8; k++) if ((i >> k) & 1) e ^= src[k];
        sym_assert(d[i] == e, "fill_table");
    }
    for (int k = 0; k < 8; k++) sym_observe("src", src[k]);
    sym_observe("d", d[size - 1]);
    sym_reach("table");
}
template <class T> static void conv(const char *nm) {
    T x = (T)sym_bits(nm, sizeof(T) * 8); int n = sizeof(T) * 8;
    NTL::vec_GF2 v;
    int pre = (int)sym_config("PRE", 0); if (pre) v.SetLength(pre);   // a vector used before, of another length
    toGF2Vec(v, x);
    sym_assert(v.length() == n, "length");
    for (int i = 0; i < n; i++) sym_assert((NTL::rep(v.get(i)) & 1) == (long)((x >> (n - 1 - i)) & 1), "toGF2Vec-entry");
    sym_assert(fromGF2Vec<T>(v) == x, "roundtrip");
    sym_observe("rt", (uint64_t)fromGF2Vec<T>(v));
    // and from an arbitrary vector
    NTL::vec_GF2 w; w.SetLength(n); T e = 0; T y = (T)sym_bits("y", n);
    for (int i = 0; i < n; i++) w.put(i, (long)((y >> i) & 1));
    T back = fromGF2Vec<T>(w);
    for (int i = 0; i < n; i++) sym_assert(((back >> (n - 1 - i)) & 1) == ((y >> i) & 1), "fromGF2Vec-bit");
    NTL::vec_GF2 u; toGF2Vec(u, back);
    bool same = u.length() == n; for (int i = 0; i < n; i++) same &= NTL::rep(u.get(i)) == NTL::rep(w.get(i));
    sym_assert(same, "roundtrip-vec"); (void)e;
    sym_reach("conv");
}
extern "C" void harness_main() {
    switch (sym_config("CASE", 0)) {
    case 1: bits<uint16_t>("x"); break;
    case 2: bits<uint32_t>("x"); break;
    case 3: bits<uint64_t>("x"); break;
    case 4: setget<uint8_t>("x"); break;
    case 5: rev<uint32_t>("x"); break;
    case 6: rev<uint64_t>("x"); break;
    case 7: fl2<uint32_t>("x"); break;
    case 8: fl2<uint64_t>("x"); break;
    case 9: fl2<int>("x"); break;
    case 10: range<uint32_t>("x"); break;
    case 11: range<uint64_t>("x"); break;
    case 12: table<uint32_t>("x"); break;
    case 13: table<uint64_t>("x"); break;
    case 14: conv<uint8_t>("x"); break;
    case 15: conv<uint16_t>("x"); break;
    case 16: conv<uint32_t>("x"); break;
    case 17: conv<uint64_t>("x"); break;
    case 18: table<uint16_t>("x"); break;
    }
}
