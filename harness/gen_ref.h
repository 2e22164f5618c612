// Reference models of the sample generators, written from their published definitions as plain
// sequences (no rings): recurrence, tempering, seeding and the meaning of the drawn parameters.
#ifndef GEN_REF_H
#define GEN_REF_H
// sync(): the value just compared is the state word, take the other side's term for it
struct RefBase { int n, mexp; uint32_t x[2048]; int at; void lcg32(uint32_t v) { x[0] = v; for (int i = 1; i < n; i++) x[i] = 1812433253u * (x[i - 1] ^ (x[i - 1] >> 30)) + (uint32_t)i; at = 0; } };
#if GEN == 1 || GEN == 2
struct Ref : RefBase {
    int m, r; uint32_t a, b, c; int u;
    Ref() : m(397), r(31), a(0x9908b0dfu), b(0x9d2c5680u), c(0xefc60000u), u(11) { n = 624; }
    void init(int me) { mexp = me; if (GEN == 2) { n = me / 32 + 1; r = n * 32 - me; u = 12; b = c = 0; } }
    void param(const Src &s) { if (GEN == 2) { m = (int)((uint32_t)s.v[0] % (uint32_t)(n - 2)) + 2; long id = sym_config("ID", 7); a = (uint32_t)s.v[1]; if (id >= 0) a = (a >> 16 << 16) | (uint32_t)(id & 0xffff); } }
    void temper(int i, uint32_t p) { if (i == 0) b = p; else c = p; }
    void seed(uint32_t v) { lcg32(v); }
    uint32_t next() {
        uint32_t low = (uint32_t)(((uint64_t)1 << r) - 1), y = (x[at] & ~low) | (x[at + 1] & low);
        y = x[at + m] ^ (y >> 1) ^ ((y & 1) ? a : 0); x[at + n] = y; at++;
        y ^= y >> u; y ^= (y << 7) & b; y ^= (y << 15) & c; return y ^ (y >> 18);
    }
    int posn() const { return m; }
};
#elif GEN == 3
struct Ref : RefBase {
    int pos; uint32_t tbl[4], tmp[4], id, mask;
    void init(int me) { mexp = me; n = me / 32 + 1; mask = 0xffffffffu << (32 * n - me); id = (uint32_t)sym_config("ID", 0x1234567); for (int i = 0; i < 4; i++) tmp[i] = 0; }
    void param(const Src &s) {
        int f = 1; while (f * 2 <= n) f *= 2;
        int hi = n > 100 ? n - f - 1 : n / 2 - 1; pos = 3 + (int)((uint32_t)s.v[0] % (uint32_t)(hi - 3 + 1));
        for (int i = 0; i < 4; i++) { tbl[i] = (uint32_t)s.v[1 + i]; if ((tbl[i] & 15) == (1u << i)) tbl[i] ^= 1u << i; }
        tbl[2] = (tbl[2] & 0xfff0000fu) | ((id & 0xffff) << 4); tbl[3] = (tbl[3] & 0xffff) | (id & 0xffff0000u);
    }
    void temper(int i, uint32_t p) { tmp[i] = p; }
    void seed(uint32_t v) { lcg32(v); }
    static uint32_t look(const uint32_t t[4], uint32_t i) { uint32_t r = 0; for (int k = 0; k < 4; k++) if ((i >> k) & 1) r ^= t[k]; return r; }
    void sync(uint32_t v, const G &) { x[at - 1 + n] = v; }
    uint32_t view(const uint32_t *u, int i) const { uint32_t T = u[i - n + pos - 1]; T ^= T >> 16; T ^= T >> 8; return u[i] ^ look(tmp, T & 15); }
    uint32_t next() {
        uint32_t X = (x[at] & mask) ^ x[at + 1]; X ^= X << 13; X ^= x[at + pos] >> 4; X ^= look(tbl, X & 15); x[at + n] = X;
        uint32_t T = x[at + pos - 1]; T ^= T >> 16; T ^= T >> 8; at++; return X ^ look(tmp, T & 15);
    }
    int posn() const { return pos; }
};
#elif GEN == 4
struct Ref {
    int n, mexp, at, pos; uint64_t x[600], a, b, c;
    void init(int me) { mexp = me; n = me / 64 + 1; b = c = 0; }
    void param(const Src &s) { pos = (int)(s.v[0] % (uint64_t)n); a = s.v[1]; }
    void temper(int i, uint64_t p) { if (i == 0) b = p; else c = p; }
    void seed(uint64_t v) { x[0] = v; for (int i = 1; i < n; i++) x[i] = (uint64_t)i + 6364136223846793005ull * (x[i - 1] ^ (x[i - 1] >> 62)); at = 0; }
    uint64_t next() {
        uint64_t o = x[at], y = x[at + pos]; y ^= y << 17; uint64_t z = y ^ (o >> 1) ^ ((o & 1) ? a : 0); x[at + n] = z; at++;
        z ^= (z >> 29) & 0x5555555555555555ull; z ^= (z << 17) & b; z ^= (z << 37) & c; return z ^ (z >> 43);
    }
    int posn() const { return pos; }
};
#elif GEN == 5
struct Ref {
    int n, mexp; uint32_t s[4], m1, m2, tm, id;
    void init(int) { n = 4; tm = 0; id = (uint32_t)sym_config("ID", 0x9abcdef); m1 = m2 = 0; }
    void param(const Src &d) {
        uint32_t w = (uint32_t)d.v[0]; w = (w ^ (w << 15) ^ (w << 23)) << 1;
        m1 = (w & 0xffff0000u) | (id & 0xffff); m2 = (w & 0xffff) | (id & 0xffff0000u);
        m1 ^= m1 >> 19; m2 ^= m2 << 18; m2 ^= 1; tm = 0;
    }
    void temper(int, uint32_t p) { tm = p; }
    void seed(uint32_t v) { s[0] = s[1] = s[2] = 0; s[3] = v; }
    uint32_t next() {
        uint32_t y = s[3], z = (s[0] & 0x7fffffff) ^ s[1] ^ s[2]; z ^= z << 1; y ^= (y >> 1) ^ z;
        uint32_t k = 0u - (y & 1); s[0] = s[1]; s[1] = s[2] ^ (k & m1); s[2] = z ^ (y << 10) ^ (k & m2); s[3] = y;
        uint32_t t1 = s[0] ^ (s[2] >> 8); return s[3] ^ t1 ^ ((0u - (t1 & 1)) & tm);
    }
    int posn() const { return 0; }
};
#elif GEN == 6
struct Ref {
    int n, mexp, at, p1, l1, l2, r1, r2; uint32_t x[64][4], k[4]; uint64_t out[64]; int start, weight; uint32_t prev[4];
    void init(int me) { mexp = me; n = me / 128 + 1; start = (int)sym_config("START", 0); weight = (int)sym_config("WEIGHT", 4); }
    void param(const Src &s) {
        p1 = (int)((uint32_t)s.v[0] % (uint32_t)(n - 2)) + 1; l1 = (int)((uint32_t)s.v[1] % 31) + 1; l2 = (int)((uint32_t)s.v[2] % 4) * 2 + 1; r1 = (int)((uint32_t)s.v[3] % 31) + 1; r2 = (int)((uint32_t)s.v[4] % 4) * 2 + 1;
        for (int i = 0; i < 4; i++) k[i] = (uint32_t)s.v[5 + 2 * i] | (uint32_t)s.v[6 + 2 * i];
    }
    void temper(int, w128_t) {}
    void seed(w128_t v) {
        uint32_t *p = &x[0][0]; for (int i = 0; i < 4 * n; i++) p[i] = 0;
        for (int i = 0; i < 4; i++) p[i] = (uint32_t)(v.u64[i / 2] >> (32 * (i & 1)));
        for (int i = 1; i < 4 * n; i++) p[i] ^= 1812433253u * (p[i - 1] ^ (p[i - 1] >> 30)) + (uint32_t)i;
        // the first block produced replaces block 1, and block 0 is the most recent one
        uint32_t f[4]; for (int j = 0; j < 4; j++) { f[j] = x[0][j]; } for (int i = 0; i + 1 < n; i++) for (int j = 0; j < 4; j++) x[i][j] = x[i + 1][j]; for (int j = 0; j < 4; j++) x[n - 1][j] = f[j];
        at = 0; for (int j = 0; j < 4; j++) prev[j] = 0;
    }
    void sync(w128_t v, const G &) { uint32_t *R = x[at - 1 + n]; for (int i = 0; i < 4; i++) R[i] = (uint32_t)(v.u64[i / 2] >> (32 * (i & 1))); }
    static uint32_t el(const w128_t &v, int i) { return (uint32_t)(v.u64[i / 2] >> (32 * (i & 1))); }
    uint32_t moved(const w128_t *u, int i, int e) const { return e + start < 4 ? el(start ? u[i - 1] : u[i], e + start) : el(u[i], e + start - 4); }
    w128_t view(const w128_t *u, int i) const { uint32_t o[4]; for (int e = 0; e < 4; e++) o[e] = e < weight ? moved(u, i, e) : moved(u, i - 1, e); w128_t z; z.u64[0] = (uint64_t)o[1] << 32 | o[0]; z.u64[1] = (uint64_t)o[3] << 32 | o[2]; return z; }
    static unsigned __int128 w(const uint32_t *p) { return (unsigned __int128)p[0] | (unsigned __int128)p[1] << 32 | (unsigned __int128)p[2] << 64 | (unsigned __int128)p[3] << 96; }
    w128_t next() {
        const uint32_t *A = x[at], *B = x[at + p1], *C = x[at + n - 2], *D = x[at + n - 1]; uint32_t *R = x[at + n];
        unsigned __int128 xs = w(A) << (8 * l2), ys = w(C) >> (8 * r2);
        for (int i = 0; i < 4; i++) R[i] = A[i] ^ (uint32_t)(xs >> (32 * i)) ^ ((B[i] >> r1) & k[i]) ^ (uint32_t)(ys >> (32 * i)) ^ (D[i] << l1);
        uint32_t r[4], o[4]; for (int i = 0; i < 4; i++) r[i] = i + start < 4 ? (start ? D[i + start] : R[i]) : R[i + start - 4];
        for (int i = 0; i < 4; i++) { o[i] = i < weight ? r[i] : prev[i]; } for (int i = 0; i < 4; i++) prev[i] = r[i];
        at++; w128_t z; z.u64[0] = (uint64_t)o[1] << 32 | o[0]; z.u64[1] = (uint64_t)o[3] << 32 | o[2]; return z;
    }
    int posn() const { return p1; }
};
#elif GEN == 7
struct Ref {
    int n, mexp, at, p1, l1; uint64_t x[64][2], L[2], k[2], prev[2]; int start, weight;
    void init(int me) { mexp = me; n = (me - 128) / 104 + 1; start = (int)sym_config("START", 0); weight = (int)sym_config("WEIGHT", 2); }
    void param(const Src &s) {
        p1 = (int)(s.v[0] % (uint64_t)(n - 2)) + 1; l1 = (int)(s.v[1] % 51) + 1;
        for (int i = 0; i < 2; i++) k[i] = (s.v[2 + 2 * i] | s.v[3 + 2 * i]) & 0xfffffffffffffull;
    }
    void temper(int, w128_t) {}
    void seed(w128_t v) {
        uint64_t p[130]; int c = 2 * (n + 1); for (int i = 0; i < c; i++) p[i] = i < 2 ? v.u64[i] : 0;
        for (int i = 1; i < c; i++) p[i] ^= 6364136223846793005ull * (p[i - 1] ^ (p[i - 1] >> 62)) + (uint64_t)i;
        for (int i = 0; i < n; i++) for (int j = 0; j < 2; j++) x[(i + n - 1) % n][j] = p[2 * i + j] & 0xfffffffffffffull;   // block 0 is the most recent one
        L[0] = p[2 * n]; L[1] = p[2 * n + 1]; at = 0; prev[0] = prev[1] = 0;
    }
    void sync(w128_t v, const G &g) { uint64_t *R = x[at - 1 + n]; R[0] = v.u64[0]; R[1] = v.u64[1]; w128_t l = g.getParityValue(); sym_assert(l.u64[0] == L[0] && l.u64[1] == L[1], "published-carry"); L[0] = l.u64[0]; L[1] = l.u64[1]; }
    uint64_t moved(const w128_t *u, int i, int e) const { return start ? (e ? u[i].u64[0] : u[i - 1].u64[1]) : u[i].u64[e]; }
    w128_t view(const w128_t *u, int i) const { w128_t z; z.u64[0] = moved(u, i, 0); z.u64[1] = moved(u, weight == 2 ? i : i - 1, 1); return z; }
    w128_t next() {
        const uint64_t *A = x[at], *B = x[at + p1], *D = x[at + n - 1]; uint64_t *R = x[at + n];
        uint64_t a = (A[0] << l1) ^ (L[1] >> 32) ^ (L[1] << 32) ^ B[0], b = (A[1] << l1) ^ (L[0] >> 32) ^ (L[0] << 32) ^ B[1]; L[0] = a; L[1] = b;
        for (int i = 0; i < 2; i++) R[i] = (L[i] >> 12) ^ (L[i] & k[i]) ^ A[i];
        uint64_t r[2]; r[0] = start ? D[1] : R[0]; r[1] = start ? R[0] : R[1];
        w128_t z; z.u64[0] = r[0]; z.u64[1] = weight == 2 ? r[1] : prev[1]; prev[0] = r[0]; prev[1] = r[1]; at++; return z;
    }
    int posn() const { return p1; }
};
#else
struct Ref {
    int n, mexp; uint32_t s[4]; int a, b, c, pat;
    void init(int) { n = 4; a = 5; b = 14; c = 1; pat = 1; if (GEN == 15) { a = 20; b = 11; c = 7; } }
    void param(const Src &d) {
        uint32_t r = (uint32_t)d.v[0];
        if (GEN == 13) { a = r & 31; b = (r >> 5) & 31; c = (r >> 10) & 31; }
        if (GEN == 14) { c = r & 31; b = (r >> 5) & 31; a = (r >> 10) & 31; pat = (r >> 15) & 7; }
    }
    void temper(int, uint32_t) {}
    void seed(uint32_t v) { s[0] = s[1] = s[2] = v; s[3] = ~v; }
    static uint32_t L(uint32_t t, int k) { return t ^ (t << k); }
    static uint32_t R(uint32_t t, int k) { return t ^ (t >> k); }
    uint32_t next() {
        uint32_t t = s[0], w = s[3], z;
        if (GEN == 14) {
            if (pat < 4) { w = pat < 2 ? L(R(w, a), b) : R(L(w, a), b); t = (pat & 1) ? R(t, c) : L(t, c); }
            else { w = pat < 6 ? R(w, a) : L(w, a); t = (pat & 1) ? R(L(t, b), c) : L(R(t, b), c); }
            z = w ^ t;
        } else if (GEN == 15) z = L(w, a) ^ R(L(t, b), c);
        else z = R(w, c) ^ R(L(t, a), b);
        s[0] = s[1]; s[1] = s[2]; s[2] = s[3]; return s[3] = z;
    }
    int posn() const { return 0; }
};
#endif
#endif
