// Bounded model of the part of NTL that MTToolBox uses, written from NTL's documented contract.
// Polynomials over GF(2) are held in one machine word (degree < NTL_MODEL_BITS), integers in 64 bits.
// Degree/size overflow of the model is reported as a failed "model bound" check, never ignored.
#ifndef NTL_MODEL_H
#define NTL_MODEL_H
#include <stdint.h>
#include <stddef.h>
#include "sym.h"
#ifndef NTL_MODEL_BITS
#define NTL_MODEL_BITS 64
#endif
#ifndef NTL_MODEL_STEPS
#define NTL_MODEL_STEPS NTL_MODEL_BITS
#endif
namespace NTL {
#if NTL_MODEL_BITS > 64
typedef unsigned __int128 PW;
#else
typedef uint64_t PW;
#endif
static inline void model_bound(bool ok) { if (!ok) sym_fail("NTL model bound exceeded"); }

struct GF2 {
    unsigned char v;
    GF2() : v(0) {}
    GF2(long a) : v((unsigned char)(a & 1)) {}
    GF2 &operator=(long a) { v = (unsigned char)(a & 1); return *this; }
    GF2 &operator+=(const GF2 &o) { v ^= o.v; return *this; }
};
inline long rep(const GF2 &a) { return a.v; }
inline long IsZero(const GF2 &a) { return a.v == 0; }
inline long IsOne(const GF2 &a) { return a.v == 1; }
inline bool operator==(const GF2 &a, long b) { return a.v == (b & 1); }
inline bool operator!=(const GF2 &a, long b) { return a.v != (b & 1); }
inline bool operator==(const GF2 &a, const GF2 &b) { return a.v == b.v; }
inline bool operator!=(const GF2 &a, const GF2 &b) { return a.v != b.v; }
inline GF2 operator+(const GF2 &a, const GF2 &b) { GF2 r; r.v = a.v ^ b.v; return r; }
inline GF2 operator*(const GF2 &a, const GF2 &b) { GF2 r; r.v = a.v & b.v; return r; }
inline void conv(GF2 &x, long a) { x = a; }

template <class T> class Vec {
public:
    T *p; long n, cap;
    Vec() : p(0), n(0), cap(0) {}
    Vec(const Vec &o) : p(0), n(0), cap(0) { *this = o; }
    ~Vec() { delete[] p; }
    Vec &operator=(const Vec &o) { if (this != &o) { SetLength(o.n); for (long i = 0; i < n; i++) p[i] = o.p[i]; } return *this; }
    void SetLength(long m) { if (m > cap) { T *q = new T[m]; for (long i = 0; i < n; i++) q[i] = p[i]; delete[] p; p = q; cap = m; } n = m; }
    long length() const { return n; }
    T &operator[](long i) { model_bound(i >= 0 && i < n); return p[i]; }
    const T &operator[](long i) const { model_bound(i >= 0 && i < n); return p[i]; }
    T &operator()(long i) { return (*this)[i - 1]; }
    void put(long i, const T &a) { (*this)[i] = a; }
    void put(long i, long a) { (*this)[i] = T(a); }
    const T get(long i) const { return (*this)[i]; }
    void append(const T &a) { SetLength(n + 1); p[n - 1] = a; }
    void kill() { delete[] p; p = 0; n = cap = 0; }
    void swap(Vec &o) { T *q = p; p = o.p; o.p = q; long t = n; n = o.n; o.n = t; t = cap; cap = o.cap; o.cap = t; }
};
typedef Vec<GF2> vec_GF2;
inline long IsZero(const vec_GF2 &a) { unsigned char r = 0; for (long i = 0; i < a.n; i++) r |= a.p[i].v; return r == 0; }

struct mat_GF2 {
    Vec<vec_GF2> r; long c;
    mat_GF2() : c(0) {}
    void SetDims(long n, long m) { r.SetLength(n); c = m; for (long i = 0; i < n; i++) { r[i].SetLength(m); for (long j = 0; j < m; j++) r[i].put(j, 0L); } }
    long NumRows() const { return r.length(); }
    long NumCols() const { return c; }
    void put(long i, long j, long a) { r[i].put(j, a); }
    void put(long i, long j, GF2 a) { r[i].put(j, a); }
    GF2 get(long i, long j) const { return r[i].get(j); }
    vec_GF2 &operator[](long i) { return r[i]; }
    const vec_GF2 &operator[](long i) const { return r[i]; }
};
// rows of X: basis of { x : x*A = 0 }
inline void kernel(mat_GF2 &X, const mat_GF2 &A) {
    long n = A.NumRows(), m = A.NumCols();
    mat_GF2 B, T; B.SetDims(n, m); T.SetDims(n, n);
    for (long i = 0; i < n; i++) { for (long j = 0; j < m; j++) B.put(i, j, A.get(i, j)); T.put(i, i, 1L); }
    long row = 0;
    for (long j = 0; j < m && row < n; j++) {
        long piv = -1;
        for (long i = row; i < n; i++) if (sym_concretize(B.get(i, j).v)) { piv = i; break; }
        if (piv < 0) continue;
        if (piv != row) for (long k = 0; k < m || k < n; k++) {
            if (k < m) { GF2 t = B.get(piv, k); B.put(piv, k, B.get(row, k)); B.put(row, k, t); }
            if (k < n) { GF2 t = T.get(piv, k); T.put(piv, k, T.get(row, k)); T.put(row, k, t); }
        }
        for (long i = row + 1; i < n; i++) {
            GF2 f = B.get(i, j);
            for (long k = 0; k < m; k++) B.put(i, k, B.get(i, k) + f * B.get(row, k));
            for (long k = 0; k < n; k++) T.put(i, k, T.get(i, k) + f * T.get(row, k));
        }
        row++;
    }
    X.SetDims(n - row, n);
    for (long i = row; i < n; i++) for (long k = 0; k < n; k++) X.put(i - row, k, T.get(i, k));
}

// ------------------------------------------------------------------ ZZ (64-bit signed)
struct ZZ {
    int64_t v;
    ZZ() : v(0) {}
    ZZ(long a) : v(a) {}
    ZZ &operator=(long a) { v = a; return *this; }
    ZZ &operator-=(long a) { v -= a; return *this; }
    ZZ &operator+=(long a) { v += a; return *this; }
    ZZ &operator*=(long a) { v *= a; return *this; }
    ZZ &operator-=(const ZZ &a) { v -= a.v; return *this; }
    ZZ &operator+=(const ZZ &a) { v += a.v; return *this; }
    ZZ &operator*=(const ZZ &a) { v *= a.v; return *this; }
    ZZ &operator/=(const ZZ &a) { v /= a.v; return *this; }
    ZZ &operator%=(const ZZ &a) { v %= a.v; return *this; }
};
inline ZZ operator*(const ZZ &a, const ZZ &b) { return ZZ(a.v * b.v); }
inline ZZ operator+(const ZZ &a, const ZZ &b) { return ZZ(a.v + b.v); }
inline ZZ operator-(const ZZ &a, const ZZ &b) { return ZZ(a.v - b.v); }
inline ZZ operator*(const ZZ &a, long b) { return ZZ(a.v * b); }
inline ZZ operator+(const ZZ &a, long b) { return ZZ(a.v + b); }
inline ZZ operator-(const ZZ &a, long b) { return ZZ(a.v - b); }
inline ZZ operator/(const ZZ &a, const ZZ &b) { return ZZ(a.v / b.v); }
inline ZZ operator%(const ZZ &a, const ZZ &b) { return ZZ(a.v % b.v); }
inline ZZ operator/(const ZZ &a, long b) { return ZZ(a.v / b); }
inline long operator%(const ZZ &a, long b) { return a.v % b; }
inline bool operator==(const ZZ &a, const ZZ &b) { return a.v == b.v; }
inline bool operator!=(const ZZ &a, const ZZ &b) { return a.v != b.v; }
inline bool operator==(const ZZ &a, long b) { return a.v == b; }
inline bool operator<(const ZZ &a, const ZZ &b) { return a.v < b.v; }
inline bool operator>(const ZZ &a, const ZZ &b) { return a.v > b.v; }
inline long IsZero(const ZZ &a) { return a.v == 0; }
inline long IsOne(const ZZ &a) { return a.v == 1; }
inline ZZ power(const ZZ &a, long e) { ZZ r(1); model_bound(e <= 62); for (long i = 0; i < e; i++) r.v *= a.v; return r; }
inline void power(ZZ &x, const ZZ &a, long e) { x = power(a, e); }
inline ZZ power2_ZZ(long e) { ZZ r; model_bound(e <= 62); r.v = (int64_t)1 << e; return r; }
inline ZZ to_ZZ(long a) { return ZZ(a); }
inline long to_long(const ZZ &a) { return a.v; }
inline void conv(ZZ &x, long a) { x.v = a; }
inline long bit(const ZZ &a, long i) { return i > 62 ? 0 : (a.v >> i) & 1; }
inline long NumBits(const ZZ &a) { return a.v == 0 ? 0 : 64 - __builtin_clzll((uint64_t)(a.v < 0 ? -a.v : a.v)); }

// ------------------------------------------------------------------ GF2X
inline long pdeg(PW r) {
#if NTL_MODEL_BITS > 64
    uint64_t hi = (uint64_t)(r >> 64), lo = (uint64_t)r;
    return hi ? 127 - __builtin_clzll(hi) : lo ? 63 - __builtin_clzll(lo) : -1;
#else
    return r ? 63 - __builtin_clzll(r) : -1;
#endif
}
inline long cdeg(PW r) {            // degree, as a concrete number on each path
    uint64_t d = (uint64_t)(pdeg(r) + 1);
    return (long)sym_concretize(d) - 1;
}
struct GF2X {
    PW r;
    GF2X() : r(0) {}
    GF2X(long a) : r((PW)(a & 1)) {}
    GF2X(long i, long a) : r(0) { model_bound(i < NTL_MODEL_BITS); r = (PW)(a & 1) << i; }
    GF2X(long i, GF2 a) : r(0) { model_bound(i < NTL_MODEL_BITS); r = (PW)(a.v & 1) << i; }
    GF2X &operator=(long a) { r = (PW)(a & 1); return *this; }
    GF2X &operator=(GF2 a) { r = (PW)(a.v & 1); return *this; }
    inline GF2X &operator+=(const GF2X &b) { r ^= b.r; return *this; }
    inline GF2X &operator-=(const GF2X &b) { r ^= b.r; return *this; }
    inline GF2X &operator+=(long b) { r ^= (PW)(b & 1); return *this; }
    inline GF2X &operator*=(const GF2X &b);
    inline GF2X &operator/=(const GF2X &b);
    inline GF2X &operator%=(const GF2X &b);
    inline GF2X &operator<<=(long n) { r <<= n; return *this; }
    inline GF2X &operator>>=(long n) { r >>= n; return *this; }
    void kill() { r = 0; }
    void swap(GF2X &o) { PW t = r; r = o.r; o.r = t; }
    static const GF2X &zero() { static const GF2X z; return z; }
};
inline void swap(GF2X &a, GF2X &b) { a.swap(b); }
inline long deg(const GF2X &a) { return pdeg(a.r); }
inline GF2 coeff(const GF2X &a, long i) { GF2 g; g.v = i < 0 || i >= NTL_MODEL_BITS ? 0 : (unsigned char)((a.r >> i) & 1); return g; }
inline GF2 ConstTerm(const GF2X &a) { return coeff(a, 0); }
inline GF2 LeadCoeff(const GF2X &a) { GF2 g; g.v = a.r != 0; return g; }
inline void GetCoeff(GF2 &x, const GF2X &a, long i) { x = coeff(a, i); }
inline void SetCoeff(GF2X &a, long i, long c) { model_bound(i < NTL_MODEL_BITS); a.r = (a.r & ~((PW)1 << i)) | ((PW)(c & 1) << i); }
inline void SetCoeff(GF2X &a, long i, GF2 c) { SetCoeff(a, i, (long)c.v); }
inline void SetCoeff(GF2X &a, long i) { SetCoeff(a, i, 1L); }
inline void SetX(GF2X &a) { a.r = 2; }
inline void clear(GF2X &a) { a.r = 0; }
inline void set(GF2X &a) { a.r = 1; }
inline long IsZero(const GF2X &a) { return a.r == 0; }
inline long IsOne(const GF2X &a) { return a.r == 1; }
inline long IsX(const GF2X &a) { return a.r == 2; }
inline long weight(const GF2X &a) { return __builtin_popcountll((uint64_t)a.r) + (NTL_MODEL_BITS > 64 ? __builtin_popcountll((uint64_t)(a.r >> (NTL_MODEL_BITS / 2))) : 0); }
inline bool operator==(const GF2X &a, const GF2X &b) { return a.r == b.r; }
inline bool operator!=(const GF2X &a, const GF2X &b) { return a.r != b.r; }
inline bool operator==(const GF2X &a, long b) { return a.r == (PW)(b & 1); }
inline bool operator!=(const GF2X &a, long b) { return a.r != (PW)(b & 1); }
inline void add(GF2X &x, const GF2X &a, const GF2X &b) { x.r = a.r ^ b.r; }
inline void sub(GF2X &x, const GF2X &a, const GF2X &b) { x.r = a.r ^ b.r; }
inline void conv(GF2X &x, long a) { x = a; }
inline GF2X operator+(const GF2X &a, const GF2X &b) { GF2X x; x.r = a.r ^ b.r; return x; }
inline GF2X operator-(const GF2X &a, const GF2X &b) { GF2X x; x.r = a.r ^ b.r; return x; }
inline GF2X operator+(const GF2X &a, long b) { GF2X x; x.r = a.r ^ (PW)(b & 1); return x; }
inline PW pmul(PW a, PW b) {
    long da = cdeg(a), db = cdeg(b);
    if (da < 0 || db < 0) return 0;
    model_bound(da + db < NTL_MODEL_BITS);
    PW r = 0;
    for (long i = 0; i <= db; i++) r ^= ((PW)0 - ((b >> i) & 1)) & (a << i);
    return r;
}
inline void pdivrem(PW &q, PW &r, PW a, PW b) {
    long db = cdeg(b);
    if (db < 0) sym_fail("NTL: division by the zero polynomial");
    long da = cdeg(a);
    PW qq = 0;
    for (long i = da; i >= db; i--) {
        PW t = (a >> i) & 1;
        qq |= t << (i - db);
        a ^= ((PW)0 - t) & (b << (i - db));
    }
    q = qq; r = a;
}
inline PW prem(PW a, PW b) { PW q, r; pdivrem(q, r, a, b); return r; }
inline void mul(GF2X &x, const GF2X &a, const GF2X &b) { x.r = pmul(a.r, b.r); }
inline void sqr(GF2X &x, const GF2X &a) { x.r = pmul(a.r, a.r); }
inline void DivRem(GF2X &q, GF2X &r, const GF2X &a, const GF2X &b) { PW x, y; pdivrem(x, y, a.r, b.r); q.r = x; r.r = y; }
inline void div(GF2X &q, const GF2X &a, const GF2X &b) { PW x, y; pdivrem(x, y, a.r, b.r); q.r = x; }
inline void rem(GF2X &r, const GF2X &a, const GF2X &b) { r.r = prem(a.r, b.r); }
inline long divide(GF2X &q, const GF2X &a, const GF2X &b) { if (!b.r) { if (a.r) return 0; q.r = 0; return 1; } PW x, y; pdivrem(x, y, a.r, b.r); if (y) return 0; q.r = x; return 1; }
inline long divide(const GF2X &a, const GF2X &b) { GF2X q; return divide(q, a, b); }
inline GF2X operator*(const GF2X &a, const GF2X &b) { GF2X x; mul(x, a, b); return x; }
inline GF2X operator/(const GF2X &a, const GF2X &b) { GF2X x; div(x, a, b); return x; }
inline GF2X operator%(const GF2X &a, const GF2X &b) { GF2X x; rem(x, a, b); return x; }
inline GF2X operator<<(const GF2X &a, long n) { GF2X x; x.r = a.r << n; return x; }
inline GF2X operator>>(const GF2X &a, long n) { GF2X x; x.r = a.r >> n; return x; }
inline GF2X &GF2X::operator*=(const GF2X &b) { mul(*this, *this, b); return *this; }
inline GF2X &GF2X::operator/=(const GF2X &b) { div(*this, *this, b); return *this; }
inline GF2X &GF2X::operator%=(const GF2X &b) { rem(*this, *this, b); return *this; }
inline PW pgcd(PW a, PW b) { while (cdeg(b) >= 0) { PW t = prem(a, b); a = b; b = t; } return a; }
inline void GCD(GF2X &x, const GF2X &a, const GF2X &b) { x.r = pgcd(a.r, b.r); }
inline GF2X GCD(const GF2X &a, const GF2X &b) { GF2X x; x.r = pgcd(a.r, b.r); return x; }
inline void XGCD(GF2X &d, GF2X &s, GF2X &t, const GF2X &a, const GF2X &b) {
    PW r0 = a.r, r1 = b.r, s0 = 1, s1 = 0, t0 = 0, t1 = 1;
    while (cdeg(r1) >= 0) {
        PW q, r; pdivrem(q, r, r0, r1);
        r0 = r1; r1 = r;
        PW u = s0 ^ pmul(q, s1); s0 = s1; s1 = u;
        u = t0 ^ pmul(q, t1); t0 = t1; t1 = u;
    }
    d.r = r0; s.r = s0; t.r = t0;
}
inline PW pmulmod(PW a, PW b, PW f) { return prem(pmul(a, b), f); }
inline void MulMod(GF2X &x, const GF2X &a, const GF2X &b, const GF2X &f) { x.r = pmulmod(a.r, b.r, f.r); }
inline void SqrMod(GF2X &x, const GF2X &a, const GF2X &f) { x.r = pmulmod(a.r, a.r, f.r); }
// x^e mod f, deg f > 0.  e is a (path-)concrete integer, f may be symbolic
inline void PowerXMod(GF2X &x, const ZZ &e, const GF2X &f) {
    long n = cdeg(f.r);
    if (n <= 0) sym_fail("NTL: PowerXMod with constant modulus");
    uint64_t k = sym_concretize((uint64_t)e.v);
    PW r = 1;                       // left to right binary powering
    for (long i = 63; i >= 0; i--) {
        PW s = 0;
        for (long j = 0; j < n; j++) s ^= ((r >> j) & 1) << (2 * j);
        if ((k >> i) & 1) s <<= 1;
        for (long j = 2 * n - 1; j >= n; j--) s ^= ((PW)0 - ((s >> j) & 1)) & (f.r << (j - n));
        r = s;
    }
    x.r = r;
}
inline void PowerXMod(GF2X &x, long e, const GF2X &f) { PowerXMod(x, ZZ(e), f); }
inline long IterIrredTest(const GF2X &f) {
    long n = cdeg(f.r);
    if (n <= 0) return 0;
    if (n == 1) return 1;
    // no divisor of degree 1..n/2 (division by each constant polynomial is linear in f)
    uint64_t bad = 0;
    for (long d = 1; d <= n / 2; d++)
        for (PW p = (PW)1 << d; p < ((PW)2 << d); p++) {
            PW a = f.r;
            for (long i = n; i >= d; i--) a ^= ((PW)0 - ((a >> i) & 1)) & (p << (i - d));
            bad |= (uint64_t)(a == 0);
        }
    return bad == 0;
}
// Berlekamp-Massey: monic minimal polynomial of the linearly generated sequence a[0..2m-1], degree <= m
inline void MinPolySeq(GF2X &h, const vec_GF2 &a, long m) {
    model_bound(a.length() >= 2 * m);
    PW C = 1, B = 1; long Lc = 0, x = 1;
    for (long n = 0; n < 2 * m; n++) {
        uint64_t d = 0;
        for (long i = 0; i <= Lc; i++) d ^= (uint64_t)((C >> i) & 1) & a[n - i].v;
        if (!sym_concretize(d & 1)) { x++; }
        else if (2 * Lc <= n) { PW T = C; C ^= B << x; Lc = n + 1 - Lc; B = T; x = 1; }
        else { C ^= B << x; x++; }
    }
    model_bound(Lc < NTL_MODEL_BITS);
    PW r = 0;
    for (long i = 0; i <= Lc; i++) r |= ((C >> i) & 1) << (Lc - i);
    h.r = r;
}
}
#endif
