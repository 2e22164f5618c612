#include "expr.h"
#include <algorithm>
#include <cassert>
#include <cstdio>
#include <cstdlib>
#include <unordered_set>
#include <map>

static inline unsigned ctz128(u128 x) {
    uint64_t lo = (uint64_t)x, hi = (uint64_t)(x >> 64);
    return lo ? __builtin_ctzll(lo) : hi ? 64 + __builtin_ctzll(hi) : 128;
}
static inline unsigned clz_len(u128 x) { // bit length
    uint64_t lo = (uint64_t)x, hi = (uint64_t)(x >> 64);
    return hi ? 128 - __builtin_clzll(hi) : lo ? 64 - __builtin_clzll(lo) : 0;
}
static inline unsigned pop128(u128 x) { return __builtin_popcountll((uint64_t)x) + __builtin_popcountll((uint64_t)(x >> 64)); }
static inline bool pow2(u128 x) { return x && !(x & (x - 1)); }
static inline u128 sh(u128 x, int s) { return s >= 128 || s <= -128 ? 0 : s >= 0 ? x << s : x >> -s; }

// ---------------------------------------------------------------- interning
static inline size_t mix(size_t h, size_t v) { h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdULL; }
static size_t hashE(const Expr &e) {
    size_t h = mix(e.k * 131 + e.w, (size_t)e.c); h = mix(h, (size_t)(e.c >> 64));
    for (auto &o : e.ops) h = mix(h, o.e ? (size_t)o.e->id * 2 + 1 : mix((size_t)o.c, o.w));
    for (auto &t : e.terms) { h = mix(h, t.a->id); h = mix(h, (size_t)t.s); h = mix(h, (size_t)t.m); h = mix(h, (size_t)(t.m >> 64)); }
    for (auto &c : e.coef) h = mix(h, (size_t)c);
    return h;
}
struct HP { size_t operator()(const Expr *e) const { return e->h; } };
struct EP { bool operator()(const Expr *a, const Expr *b) const {
    if (a->h != b->h || a->k != b->k || a->w != b->w || a->c != b->c || a->ops.size() != b->ops.size() || a->terms.size() != b->terms.size() || a->coef.size() != b->coef.size()) return false;
    for (size_t i = 0; i < a->ops.size(); i++) if (!sameV(a->ops[i], b->ops[i])) return false;
    for (size_t i = 0; i < a->terms.size(); i++) if (a->terms[i].a != b->terms[i].a || a->terms[i].s != b->terms[i].s || a->terms[i].m != b->terms[i].m) return false;
    for (size_t i = 0; i < a->coef.size(); i++) if (a->coef[i] != b->coef[i]) return false;
    return true; } };
static std::unordered_set<Expr *, HP, EP> table;
static uint32_t nextId = 1;
static std::vector<std::string> symNames;
static std::vector<unsigned> symWidths;
uint64_t exprCount() { return nextId; }
const std::string &symName(uint32_t i) { return symNames[i]; }
unsigned symWidth(uint32_t i) { return symWidths[i]; }
uint32_t symCount() { return symNames.size(); }

static const Expr *intern(Expr &&e) {
    e.h = hashE(e);
    auto it = table.find(&e);
    if (it != table.end()) return *it;
    Expr *p = new Expr(std::move(e));
    p->id = nextId++;
    uint32_t d = 0;
    for (auto &o : p->ops) if (o.e) d = std::max(d, o.e->depth + 1);
    for (auto &t : p->terms) d = std::max(d, t.a->depth + 1);
    p->depth = d;
    table.insert(p);
    return p;
}
static const Expr *mkNode(Kind k, unsigned w, std::vector<V> ops, u128 unk) {
    Expr e; e.k = k; e.w = w; e.c = 0; e.ops = std::move(ops); e.unk = unk & maskw(w);
    return intern(std::move(e));
}

// ---------------------------------------------------------------- linear forms
struct L { unsigned w; u128 c = 0; std::vector<Term> t; };
static L toL(const V &v) {
    L l; l.w = v.w;
    if (v.isC()) { l.c = v.c; return l; }
    if (v.e->k == K_LIN) { l.c = v.e->c; l.t = v.e->terms; return l; }
    l.t.push_back({v.e, 0, v.e->unk});
    return l;
}
static V fromL(L &&l) {
    u128 mw = maskw(l.w);
    l.c &= mw;
    size_t j = 0; u128 unk = 0;
    for (auto &t : l.t) { t.m &= mw; if (t.m) { unk |= t.m; l.t[j++] = t; } }
    l.t.resize(j);
    if (!j) return mkC(l.c, l.w);
    if (j == 1 && !l.c && l.t[0].s == 0 && l.t[0].a->w == l.w && l.t[0].m == l.t[0].a->unk) return mkE(l.t[0].a);
    Expr e; e.k = K_LIN; e.w = l.w; e.c = l.c; e.terms = std::move(l.t); e.unk = unk;
    return mkE(intern(std::move(e)));
}
static inline bool tless(const Term &a, const Term &b) { return a.a->id != b.a->id ? a.a->id < b.a->id : a.s < b.s; }
static void xorInto(std::vector<Term> &out, const std::vector<Term> &a, const std::vector<Term> &b) {
    out.reserve(a.size() + b.size());
    size_t i = 0, j = 0;
    while (i < a.size() || j < b.size()) {
        if (j == b.size() || (i < a.size() && tless(a[i], b[j]))) out.push_back(a[i++]);
        else if (i == a.size() || tless(b[j], a[i])) out.push_back(b[j++]);
        else { Term t = a[i++]; t.m ^= b[j++].m; if (t.m) out.push_back(t); }
    }
}
static void sortTerms(std::vector<Term> &t) {
    std::sort(t.begin(), t.end(), tless);
    size_t j = 0;
    for (size_t i = 0; i < t.size();) {
        Term x = t[i]; size_t k = i + 1;
        while (k < t.size() && t[k].a == x.a && t[k].s == x.s) x.m ^= t[k++].m;
        if (x.m) t[j++] = x;
        i = k;
    }
    t.resize(j);
}
u128 x_unk(const V &a) { return a.isC() ? 0 : a.e->unk; }
static inline u128 kc(const V &a) { return a.isC() ? a.c : a.e->k == K_LIN ? a.e->c : 0; } // constant part (valid on known bits)
u128 x_max(const V &a) { return x_unk(a) | (kc(a) & ~x_unk(a)); }
static u128 x_min(const V &a) { return kc(a) & ~x_unk(a); }

V x_sym(const std::string &name, unsigned w) {
    Expr e; e.k = K_SYM; e.w = w; e.c = symNames.size(); e.unk = maskw(w);
    symNames.push_back(name); symWidths.push_back(w);
    return mkE(intern(std::move(e)));
}
V x_xor(const V &a, const V &b) {
    if (a.isC() && b.isC()) return mkC(a.c ^ b.c, a.w);
    if (a.isC() && !a.c) return b;
    if (b.isC() && !b.c) return a;
    if (sameV(a, b)) return mkC(0, a.w);
    L la = toL(a), lb = toL(b), r; r.w = a.w; r.c = la.c ^ lb.c;
    xorInto(r.t, la.t, lb.t);
    return fromL(std::move(r));
}
static V andc(const V &a, u128 m) {
    if (a.isC()) return mkC(a.c & m, a.w);
    if (((x_unk(a) | kc(a)) & ~m) == 0) return a;
    L l = toL(a); l.c &= m; for (auto &t : l.t) t.m &= m;
    return fromL(std::move(l));
}
V x_not(const V &a) { return x_xor(a, mkC(~(u128)0, a.w)); }
V x_shlc(const V &a, unsigned n) {
    if (n >= a.w) return mkC(0, a.w);
    if (!n) return a;
    if (a.isC()) return mkC(a.c << n, a.w);
    if (a.e->k == K_SUM) return x_mul(a, mkC((u128)1 << n, a.w));
    L l = toL(a); l.c <<= n; u128 mw = maskw(a.w);
    for (auto &t : l.t) { t.s += n; t.m = (t.m << n) & mw; }
    return fromL(std::move(l));
}
V x_lshrc(const V &a, unsigned n) {
    if (n >= a.w) return mkC(0, a.w);
    if (!n) return a;
    if (a.isC()) return mkC(a.c >> n, a.w);
    L l = toL(a); l.c >>= n;
    for (auto &t : l.t) { t.s -= n; t.m >>= n; }
    return fromL(std::move(l));
}
V x_zext(const V &a, unsigned w) {
    if (w == a.w) return a;
    if (a.isC()) return mkC(a.c, w);
    L l = toL(a); l.w = w;
    return fromL(std::move(l));
}
V x_sext(const V &a, unsigned w) {
    if (w == a.w) return a;
    u128 top = (u128)1 << (a.w - 1), hi = maskw(w) & ~maskw(a.w);
    if (a.isC()) return mkC(a.c | ((a.c & top) ? hi : 0), w);
    if (!(x_unk(a) & top)) { V z = x_zext(a, w); return (kc(a) & top) ? x_xor(z, mkC(hi, w)) : z; }
    L l = toL(a); l.w = w;
    size_t n = l.t.size();
    for (size_t i = 0; i < n; i++) if (l.t[i].m & top)
        for (unsigned j = a.w; j < w; j++) l.t.push_back({l.t[i].a, (int16_t)(l.t[i].s + (int)(j - (a.w - 1))), (u128)1 << j});
    sortTerms(l.t);
    if (l.c & top) l.c |= hi;
    return fromL(std::move(l));
}
V x_extract(const V &a, unsigned lo, unsigned w) {
    if (!lo && w == a.w) return a;
    if (a.isC()) return mkC(a.c >> lo, w);
    if (!lo && w >= 8 && a.e->k == K_SUM) {      // narrower pieces stay bits of the sum, as masking leaves them
        V r = mkC(a.e->c, w);
        for (size_t i = 0; i < a.e->ops.size(); i++) r = x_add(r, x_mul(x_extract(a.e->ops[i], 0, w), mkC(a.e->coef[i], w)));
        return r;
    }
    if (!lo && w >= 8 && a.e->k == K_MUL) return x_mul(x_extract(a.e->ops[0], 0, w), x_extract(a.e->ops[1], 0, w));
    L l = toL(a); l.c >>= lo;
    for (auto &t : l.t) { t.s -= lo; t.m >>= lo; }
    l.w = w;
    return fromL(std::move(l));
}
V x_concat(const V &hi, const V &lo) {
    unsigned w = hi.w + lo.w;
    return x_xor(x_shlc(x_zext(hi, w), lo.w), x_zext(lo, w));
}
// lift the canonical narrow atom r (width span) to width w at bit l
static V lift(const V &r, unsigned l, unsigned w) { V z = x_zext(r, w); return l ? x_shlc(z, l) : z; }
static V narrow(const V &a, unsigned l, unsigned span) { return x_extract(a, l, span); }

static bool singleBit(const V &a, V &bit, u128 &v0, u128 &v1) {
    if (a.isC()) return false;
    if (a.e->k != K_LIN) {
        if (!pow2(a.e->unk)) return false;
        bit = x_extract(a, ctz128(a.e->unk), 1); v0 = 0; v1 = a.e->unk; return true;
    }
    const Expr *at = a.e->terms[0].a; int src = -1;
    u128 all = 0;
    for (auto &t : a.e->terms) {
        if (t.a != at || !pow2(t.m)) return false;
        int s = (int)ctz128(t.m) - t.s;
        if (src >= 0 && s != src) return false;
        src = s; all |= t.m;
    }
    V av = mkE(at);
    bit = x_extract(av, src, 1);
    v0 = a.e->c; v1 = a.e->c ^ all;
    return true;
}
// conj search for width-1 values
static bool conjHas(const V &a, const V &lit, int d) {
    if (sameV(a, lit)) return true;
    if (d && !a.isC() && a.e->k == K_AND && a.w == 1) return conjHas(a.e->ops[0], lit, d - 1) || conjHas(a.e->ops[1], lit, d - 1);
    return false;
}
V x_and(const V &a, const V &b) {
    if (a.isC()) return andc(b, a.c);
    if (b.isC()) return andc(a, b.c);
    if (sameV(a, b)) return a;
    u128 ua = x_unk(a), ub = x_unk(b), oa = kc(a) & ~ua, ob = kc(b) & ~ub;
    u128 M = ua & ub;
    unsigned w = a.w;
    V r = x_xor(mkC(oa & ob, w), x_xor(andc(b, oa & ub), andc(a, ob & ua)));
    if (!M) return r;
    unsigned l = ctz128(M), span = clz_len(M) - l;
    V x = narrow(andc(a, M), l, span), y = narrow(andc(b, M), l, span);
    u128 N = M >> l;
    V res;
    if (sameV(x, y)) res = x;
    else if (sameV(x, x_xor(y, mkC(N, span)))) res = mkC(0, span);
    else {
        if (span == 1) {
            // absorption
            V nx = x_not(x), ny = x_not(y);
            if (conjHas(y, x, 3)) { return x_xor(r, lift(y, l, w)); }
            if (conjHas(x, y, 3)) { return x_xor(r, lift(x, l, w)); }
            if (conjHas(y, nx, 3) || conjHas(x, ny, 3)) return r;
            // ~(p&q..) with x in it:  x & ~(x&q) = x & ~q
            if (!ny.isC() && ny.e->k == K_AND) {
                V p = ny.e->ops[0], q = ny.e->ops[1];
                if (sameV(p, x)) return x_xor(r, lift(x_and(x, x_not(q)), l, w));
                if (sameV(q, x)) return x_xor(r, lift(x_and(x, x_not(p)), l, w));
                if (sameV(p, nx) || sameV(q, nx)) return x_xor(r, lift(x, l, w));
            }
            if (!nx.isC() && nx.e->k == K_AND) {
                V p = nx.e->ops[0], q = nx.e->ops[1];
                if (sameV(p, y)) return x_xor(r, lift(x_and(y, x_not(q)), l, w));
                if (sameV(q, y)) return x_xor(r, lift(x_and(y, x_not(p)), l, w));
                if (sameV(p, ny) || sameV(q, ny)) return x_xor(r, lift(y, l, w));
            }
        }
        if (x.e->id > y.e->id) std::swap(x, y);
        res = mkE(mkNode(K_AND, span, {x, y}, N));
    }
    return x_xor(r, lift(res, l, w));
}
V x_or(const V &a, const V &b) {
    if (a.isC() && b.isC()) return mkC(a.c | b.c, a.w);
    u128 pa = x_max(a), pb = x_max(b);
    if (!(pa & pb)) return x_xor(a, b);
    if (a.isC()) return x_xor(andc(b, ~a.c), a);
    if (b.isC()) return x_xor(andc(a, ~b.c), b);
    return x_not(x_and(x_not(a), x_not(b)));
}
// push a unary function through ite trees with few constant leaves
static int iteLeaves(const V &a, int budget) {
    if (a.isC()) return 1;
    const Expr *e = a.e; 
    if (e->k == K_LIN) { if (e->terms.size() != 1 || e->terms[0].a->k != K_ITE) return 1000; e = e->terms[0].a; }
    if (e->k != K_ITE || budget <= 0) return 1000;
    return iteLeaves(e->ops[1], budget - 1) + iteLeaves(e->ops[2], budget - 1);
}
// value -> (cond, then, else) if value is a function of a single ITE atom
static bool asIte(const V &a, V &c, V &x, V &y) {
    if (a.isC()) return false;
    const Expr *e = a.e;
    if (e->k == K_ITE) { c = e->ops[0]; x = e->ops[1]; y = e->ops[2]; return true; }
    if (e->k == K_LIN && e->terms.size() == 1 && e->terms[0].a->k == K_ITE) {
        const Term &t = e->terms[0];
        auto app = [&](const V &o) {
            unsigned bw = std::max<unsigned>(a.w, o.w);
            V z = x_zext(o, bw);
            V s = t.s >= 0 ? x_shlc(z, t.s) : x_lshrc(z, -t.s);
            return x_xor(andc(x_extract(s, 0, a.w), t.m), mkC(e->c, a.w));
        };
        c = t.a->ops[0]; x = app(t.a->ops[1]); y = app(t.a->ops[2]);
        return true;
    }
    return false;
}
static V pushIte(const V &a, const std::function<V(const V &)> &f) {
    V c, x, y;
    if (a.isC() || !asIte(a, c, x, y)) return f(a);
    return x_ite(c, pushIte(x, f), pushIte(y, f));
}
V x_eq0(const V &a) {
    if (a.isC()) return mkC(a.c == 0, 1);
    u128 u = x_unk(a);
    if (kc(a) & ~u) return mkC(0, 1);
    if (pow2(u)) return x_not(x_extract(a, ctz128(u), 1));
    V bit; u128 v0, v1;
    if (singleBit(a, bit, v0, v1)) return x_ite(bit, mkC(v1 == 0, 1), mkC(v0 == 0, 1));
    V c, x, y;
    if (asIte(a, c, x, y) && (x.isC() || y.isC())) return x_ite(c, x_eq0(x), x_eq0(y));
    unsigned l = ctz128(u), span = clz_len(u) - l;
    V n = narrow(a, l, span);
    if (!n.isC() && n.e->k == K_CUT) n = n.e->ops[0];
    return mkE(mkNode(K_EQ0, 1, {n}, 1));
}
V x_eq(const V &a, const V &b) {
    if (!a.isC() && !b.isC() && (a.e->k == K_SUM || b.e->k == K_SUM)) {
        V d = x_sub(a, b);
        if (d.isC()) return mkC(d.c == 0, 1);
    }
    return x_eq0(x_xor(a, b));
}
static V buildSum(unsigned w, std::map<uint32_t, std::pair<V, u128>> &m, u128 c) {
    u128 mw = maskw(w);
    c &= mw;
    for (auto it = m.begin(); it != m.end();) { it->second.second &= mw; if (!it->second.second) it = m.erase(it); else ++it; }
    if (m.empty()) return mkC(c, w);
    if (m.size() == 1) {
        auto &p = m.begin()->second;
        if (p.second == 1 && !c) return p.first;
        if (p.second == mw && c == mw) return x_not(p.first);
        V bit; u128 v0, v1;
        if (singleBit(p.first, bit, v0, v1)) return x_ite(bit, mkC(c + p.second * v1, w), mkC(c + p.second * v0, w));
        if (iteLeaves(p.first, 6) <= 16) return pushIte(p.first, [&](const V &l) { return mkC(c + p.second * l.c, w); });
    }
    // disjoint supports -> xor
    {
        bool ok = true; u128 used = c;
        for (auto &kv : m) {
            if (!pow2(kv.second.second)) { ok = false; break; }
            unsigned s = ctz128(kv.second.second);
            u128 p = (x_max(kv.second.first) << s);
            if (s && (p >> s) != x_max(kv.second.first)) { /* high bits drop out: fine */ }
            p &= mw;
            if (p & used) { ok = false; break; }
            used |= p;
        }
        if (ok) {
            V r = mkC(c, w);
            for (auto &kv : m) {
                V t = kv.second.first; unsigned s = ctz128(kv.second.second);
                if (s) { L l = toL(t); l.c <<= s; for (auto &q : l.t) { q.s += s; q.m = (q.m << s) & mw; } t = fromL(std::move(l)); }
                r = x_xor(r, t);
            }
            return r;
        }
    }
    unsigned tz = 128; bool ovf = w > 100; u128 mx = c;
    for (auto &kv : m) {
        unsigned z = ctz128(kv.second.second) + ctz128(x_max(kv.second.first));
        tz = std::min(tz, z);
        u128 q = x_max(kv.second.first), k = kv.second.second;
        if (!ovf) { if (clz_len(q) + clz_len(k) > w) ovf = true; else { mx += q * k; if (mx > mw) ovf = true; } }
    }
    if (tz >= w) return mkC(c, w);
    u128 lowm = maskw(tz), low = c & lowm;
    Expr e; e.k = K_SUM; e.w = w; e.c = c & ~lowm;
    for (auto &kv : m) { e.ops.push_back(kv.second.first); e.coef.push_back(kv.second.second); }
    e.unk = mw & ~lowm;
    if (!ovf) e.unk &= maskw(clz_len(mx));
    V r = mkE(intern(std::move(e)));
    return low ? x_xor(r, mkC(low, w)) : r;
}
static void sumInto(std::map<uint32_t, std::pair<V, u128>> &m, u128 &c, const V &a, u128 k) {
    if (a.isC()) { c += a.c * k; return; }
    if (a.e->k == K_SUM) {
        c += a.e->c * k;
        for (size_t i = 0; i < a.e->ops.size(); i++) sumInto(m, c, a.e->ops[i], a.e->coef[i] * k);
        return;
    }
    if (a.e->k == K_LIN && a.e->c == maskw(a.w) && a.e->unk == maskw(a.w)) {
        sumInto(m, c, x_not(a), -k); c -= k; return;
    }
    // leaf that is a plain left shift of an atom: move the shift into the coefficient
    auto &p = m[a.e->id];
    p.first = a; p.second += k;
}
V x_add(const V &a, const V &b) {
    if (a.isC() && b.isC()) return mkC(a.c + b.c, a.w);
    if (a.isC() && !a.c) return b;
    if (b.isC() && !b.c) return a;
    if (a.w == 1) return x_xor(a, b);
    std::map<uint32_t, std::pair<V, u128>> m; u128 c = 0;
    sumInto(m, c, a, 1); sumInto(m, c, b, 1);
    return buildSum(a.w, m, c);
}
V x_sub(const V &a, const V &b) {
    if (a.isC() && b.isC()) return mkC(a.c - b.c, a.w);
    if (b.isC() && !b.c) return a;
    if (sameV(a, b)) return mkC(0, a.w);
    if (a.w == 1) return x_xor(a, b);
    std::map<uint32_t, std::pair<V, u128>> m; u128 c = 0;
    sumInto(m, c, a, 1); sumInto(m, c, b, ~(u128)0);
    return buildSum(a.w, m, c);
}
V x_mul(const V &a, const V &b) {
    if (a.isC() && b.isC()) return mkC(a.c * b.c, a.w);
    if (b.isC()) return x_mul(b, a);
    if (a.w == 1) return x_and(a, b);
    if (a.isC()) {
        if (!a.c) return a;
        if (a.c == 1) return b;
        if (pow2(a.c) && b.e->k != K_SUM) return x_shlc(b, ctz128(a.c));
        std::map<uint32_t, std::pair<V, u128>> m; u128 c = 0;
        sumInto(m, c, b, a.c);
        return buildSum(a.w, m, c);
    }
    V bit; u128 v0, v1;
    if (singleBit(a, bit, v0, v1)) return x_ite(bit, x_mul(mkC(v1, a.w), b), x_mul(mkC(v0, a.w), b));
    if (singleBit(b, bit, v0, v1)) return x_ite(bit, x_mul(mkC(v1, a.w), a), x_mul(mkC(v0, a.w), a));
    V x = a, y = b;
    if (x.e->id > y.e->id) std::swap(x, y);
    unsigned tz = ctz128(x_max(x)) + ctz128(x_max(y)), len = clz_len(x_max(x)) + clz_len(x_max(y));
    if (tz >= a.w) return mkC(0, a.w);
    return mkE(mkNode(K_MUL, a.w, {x, y}, maskw(std::min<unsigned>(len, a.w)) & ~maskw(tz)));
}
static i128 sx(u128 c, unsigned w) { return w >= 128 ? (i128)c : (i128)(c << (128 - w)) >> (128 - w); }
typedef V (*BinF)(const V &, const V &);
static bool pushBits(const V &a, const V &b, BinF f, V &out) {
    V bit, bit2; u128 v0, v1, u0, u1;
    if (b.isC() && singleBit(a, bit, v0, v1)) { out = x_ite(bit, f(mkC(v1, a.w), b), f(mkC(v0, a.w), b)); return true; }
    if (a.isC() && singleBit(b, bit, v0, v1)) { out = x_ite(bit, f(a, mkC(v1, a.w)), f(a, mkC(v0, a.w))); return true; }
    if (!a.isC() && !b.isC() && singleBit(a, bit, v0, v1) && singleBit(b, bit2, u0, u1) && sameV(bit, bit2)) {
        out = x_ite(bit, f(mkC(v1, a.w), mkC(u1, a.w)), f(mkC(v0, a.w), mkC(u0, a.w))); return true; }
    if (b.isC() && !a.isC() && iteLeaves(a, 6) <= 16) { out = pushIte(a, [&](const V &l) { return f(l, b); }); return true; }
    if (a.isC() && !b.isC() && iteLeaves(b, 6) <= 16) { out = pushIte(b, [&](const V &l) { return f(a, l); }); return true; }
    return false;
}
V x_udiv(const V &a, const V &b) {
    if (b.isC() && b.c == 0) return mkC(~(u128)0, a.w);
    if (a.isC() && b.isC()) return mkC(a.c / b.c, a.w);
    if (b.isC() && pow2(b.c)) return x_lshrc(a, ctz128(b.c));
    if (b.isC() && x_max(a) < b.c) return mkC(0, a.w);
    V o; if (pushBits(a, b, x_udiv, o)) return o;
    { unsigned nw = std::max(clz_len(x_max(a)), clz_len(x_max(b)));      // as narrow as the operands allow
      if (nw && nw < a.w && !b.isC()) return x_zext(x_udiv(x_extract(a, 0, nw), x_extract(b, 0, nw)), a.w); }
    return mkE(mkNode(K_UDIV, a.w, {a, b}, maskw(clz_len(b.isC() ? x_max(a) / b.c : maskw(a.w)))));
}
V x_urem(const V &a, const V &b) {
    if (b.isC() && b.c == 0) return a;
    if (a.isC() && b.isC()) return mkC(a.c % b.c, a.w);
    if (b.isC() && pow2(b.c)) return andc(a, b.c - 1);
    if (b.isC() && x_max(a) < b.c) return a;
    V o; if (pushBits(a, b, x_urem, o)) return o;
    { unsigned nw = std::max(clz_len(x_max(a)), clz_len(x_max(b)));      // as narrow as the operands allow
      if (nw && nw < a.w && !b.isC()) return x_zext(x_urem(x_extract(a, 0, nw), x_extract(b, 0, nw)), a.w); }
    if (!b.isC()) return x_ite(x_ult(a, b), a, mkE(mkNode(K_UREM, a.w, {a, b}, maskw(a.w))));
    return mkE(mkNode(K_UREM, a.w, {a, b}, maskw(clz_len(x_max(a))) & (b.isC() ? maskw(clz_len(b.c - 1)) : maskw(a.w))));
}
V x_sdiv(const V &a, const V &b) {
    u128 top = (u128)1 << (a.w - 1);
    if (a.isC() && b.isC()) { i128 y = sx(b.c, a.w), x = sx(a.c, a.w); if (!y) return mkC(x < 0 ? 1 : ~(u128)0, a.w); if (y == -1) return mkC(-(u128)x, a.w); return mkC((u128)(x / y), a.w); }
    if (!((x_max(a) | x_max(b)) & top)) return x_udiv(a, b);
    V o; if (pushBits(a, b, x_sdiv, o)) return o;
    return mkE(mkNode(K_SDIV, a.w, {a, b}, maskw(a.w)));
}
V x_srem(const V &a, const V &b) {
    u128 top = (u128)1 << (a.w - 1);
    if (a.isC() && b.isC()) { i128 y = sx(b.c, a.w), x = sx(a.c, a.w); if (!y) return a; if (y == -1) return mkC(0, a.w); return mkC((u128)(x % y), a.w); }
    if (!((x_max(a) | x_max(b)) & top)) return x_urem(a, b);
    V o; if (pushBits(a, b, x_srem, o)) return o;
    return mkE(mkNode(K_SREM, a.w, {a, b}, maskw(a.w)));
}
static V normAmt(const V &b) { return pow2(b.w) ? andc(b, b.w - 1) : b; }   // x86 semantics
V x_shl(const V &a, const V &b0) {
    V b = normAmt(b0);
    if (b.isC()) return b.c >= a.w ? mkC(0, a.w) : x_shlc(a, (unsigned)b.c);
    if (a.isC() && !a.c) return a;
    V bit; u128 v0, v1;
    if (singleBit(b, bit, v0, v1)) return x_ite(bit, x_shl(a, mkC(v1, b.w)), x_shl(a, mkC(v0, b.w)));
    if (iteLeaves(b, 6) <= 16) return pushIte(b, [&](const V &l) { return x_shl(a, l); });
    return mkE(mkNode(K_SHL, a.w, {a, b}, maskw(a.w)));
}
V x_lshr(const V &a, const V &b0) {
    V b = normAmt(b0);
    if (b.isC()) return b.c >= a.w ? mkC(0, a.w) : x_lshrc(a, (unsigned)b.c);
    if (a.isC() && !a.c) return a;
    V bit; u128 v0, v1;
    if (singleBit(b, bit, v0, v1)) return x_ite(bit, x_lshr(a, mkC(v1, b.w)), x_lshr(a, mkC(v0, b.w)));
    if (iteLeaves(b, 6) <= 16) return pushIte(b, [&](const V &l) { return x_lshr(a, l); });
    return mkE(mkNode(K_LSHR, a.w, {a, b}, maskw(clz_len(x_max(a)))));
}
V x_ashr(const V &a, const V &b0) {
    u128 top = (u128)1 << (a.w - 1);
    if (!(x_max(a) & top)) return x_lshr(a, b0);
    V b = normAmt(b0);
    if (b.isC()) {
        unsigned n = b.c >= a.w ? a.w - 1 : (unsigned)b.c;
        if (!n) return a;
        return x_sext(x_extract(a, n, a.w - n), a.w);
    }
    V bit; u128 v0, v1;
    if (singleBit(b, bit, v0, v1)) return x_ite(bit, x_ashr(a, mkC(v1, b.w)), x_ashr(a, mkC(v0, b.w)));
    return mkE(mkNode(K_ASHR, a.w, {a, b}, maskw(a.w)));
}
V x_ult(const V &a, const V &b) {
    if (a.isC() && b.isC()) return mkC(a.c < b.c, 1);
    if (sameV(a, b)) return mkC(0, 1);
    if (x_max(a) < x_min(b)) return mkC(1, 1);
    if (x_min(a) >= x_max(b)) return mkC(0, 1);
    if (a.w == 1) return x_and(x_not(a), b);
    // drop the common known prefix
    u128 diff = x_unk(a) | x_unk(b) | ((kc(a) ^ kc(b)) & ~x_unk(a) & ~x_unk(b));
    unsigned hb = clz_len(diff);
    if (hb < a.w) return x_ult(x_extract(a, 0, hb), x_extract(b, 0, hb));
    if (b.isC() && pow2(b.c)) return x_eq0(x_lshrc(a, ctz128(b.c)));
    if (a.isC() && pow2(a.c + 1)) return x_not(x_eq0(x_lshrc(b, ctz128(a.c + 1))));
    V o; if (pushBits(a, b, x_ult, o)) return o;
    return mkE(mkNode(K_ULT, 1, {a, b}, 1));
}
V x_ule(const V &a, const V &b) { return x_not(x_ult(b, a)); }
V x_slt(const V &a, const V &b) {
    V t = mkC((u128)1 << (a.w - 1), a.w);
    if (b.isC() && !b.c) return x_extract(a, a.w - 1, 1);
    if (a.isC() && a.c == maskw(a.w)) return x_not(x_extract(b, b.w - 1, 1));
    return x_ult(x_xor(a, t), x_xor(b, t));
}
V x_sle(const V &a, const V &b) { return x_not(x_slt(b, a)); }
V x_ite(const V &c0, const V &a0, const V &b0) {
    V c = c0, a = a0, b = b0;
    if (c.isC()) return c.c ? a : b;
    if (sameV(a, b)) return a;
    if (!c.isC() && c.e->k == K_LIN && (c.e->c & 1)) { c = x_not(c); std::swap(a, b); }
    // strip nested ites on the same condition
    for (int it = 0; it < 2; it++) {
        V &z = it ? b : a;
        if (!z.isC() && z.e->k == K_ITE && sameV(z.e->ops[0], c)) z = it ? z.e->ops[2] : z.e->ops[1];
    }
    if (sameV(a, b)) return a;
    unsigned w = a.w;
    if (w == 1) {
        if (sameV(a, c)) a = mkC(1, 1);
        if (sameV(b, c)) b = mkC(0, 1);
        if (a.isC() && b.isC()) return a.c == b.c ? a : a.c ? c : x_not(c);
        if (a.isC()) return a.c ? x_or(c, b) : x_and(x_not(c), b);
        if (b.isC()) return b.c ? x_or(x_not(c), a) : x_and(c, a);
        return x_xor(b, x_and(c, x_xor(a, b)));
    }
    V d = x_xor(a, b);
    if (d.isC()) {
        // b ^ c * d
        V z = x_zext(c, w);
        L zl = toL(z), r = toL(b);
        L s; s.w = w;
        for (unsigned j = 0; j < w; j++) if ((d.c >> j) & 1) {
            for (auto &t : zl.t) s.t.push_back({t.a, (int16_t)(t.s + (int)j), t.m << j});
            if (zl.c & 1) r.c ^= (u128)1 << j;
        }
        sortTerms(s.t);
        L o; o.w = w; o.c = r.c; xorInto(o.t, r.t, s.t);
        return fromL(std::move(o));
    }
    u128 M = x_unk(d) | (kc(d) & ~x_unk(d));
    unsigned l = ctz128(M), span = clz_len(M) - l;
    if (!l && span == w && M == maskw(w)) {
        u128 unk = x_max(a) | x_max(b);
        return mkE(mkNode(K_ITE, w, {c, a, b}, unk));
    }
    V x = narrow(andc(a, M), l, span), y = narrow(andc(b, M), l, span);
    V base = andc(b, ~M);
    V n;
    if (span == 1) n = x_ite(c, x, y);
    else n = mkE(mkNode(K_ITE, span, {c, x, y}, (x_max(x) | x_max(y)) & (M >> l)));
    return x_xor(base, lift(n, l, w));
}
V x_cut(const V &a) {
    if (a.isC() || a.e->k != K_LIN) return a;
    u128 u = x_unk(a);
    V x = andc(a, u);
    if (x.isC() || x.e->k != K_LIN) return a;
    V n = mkE(mkNode(K_CUT, x.w, {x}, u));
    return x_xor(n, mkC(kc(a) & ~u, a.w));
}

// ---------------------------------------------------------------- evaluation
static u128 ev(Model &m, const V &v) { return v.isC() ? v.c : m.memo[v.e]; }
u128 Model::eval(const V &v) { return v.isC() ? v.c : evalE(v.e); }
u128 Model::evalE(const Expr *root) {
    auto f = memo.find(root);
    if (f != memo.end()) return f->second;
    std::vector<const Expr *> st{root};
    while (!st.empty()) {
        const Expr *e = st.back();
        if (memo.count(e)) { st.pop_back(); continue; }
        bool ready = true;
        for (auto &o : e->ops) if (o.e && !memo.count(o.e)) { st.push_back(o.e); ready = false; }
        for (auto &t : e->terms) if (!memo.count(t.a)) { st.push_back(t.a); ready = false; }
        if (!ready) continue;
        st.pop_back();
        u128 mw = maskw(e->w), r = 0;
        auto A = [&](int i) { return ev(*this, e->ops[i]); };
        switch (e->k) {
        case K_SYM: { auto it = val.find((uint32_t)e->c); r = it == val.end() ? 0 : it->second; break; }
        case K_LIN: r = e->c; for (auto &t : e->terms) r ^= sh(memo[t.a], t.s) & t.m; break;
        case K_AND: r = A(0) & A(1); break;
        case K_SUM: r = e->c; for (size_t i = 0; i < e->ops.size(); i++) r += e->coef[i] * A(i); break;
        case K_MUL: r = A(0) * A(1); break;
        case K_UDIV: r = A(1) ? A(0) / A(1) : mw; break;
        case K_UREM: r = A(1) ? A(0) % A(1) : A(0); break;
        case K_SDIV: { V q = x_sdiv(mkC(A(0), e->w), mkC(A(1), e->w)); r = q.c; break; }
        case K_SREM: { V q = x_srem(mkC(A(0), e->w), mkC(A(1), e->w)); r = q.c; break; }
        case K_SHL: r = A(1) >= e->w ? 0 : A(0) << (unsigned)A(1); break;
        case K_LSHR: r = A(1) >= e->w ? 0 : A(0) >> (unsigned)A(1); break;
        case K_ASHR: r = (u128)(sx(A(0), e->w) >> (int)std::min<u128>(A(1), e->w - 1)); break;
        case K_EQ0: r = A(0) == 0; break;
        case K_ULT: r = A(0) < A(1); break;
        case K_ITE: r = A(0) ? A(1) : A(2); break;
        case K_CUT: r = A(0); break;
        }
        memo[e] = r & mw;
    }
    return memo[root];
}
static std::unordered_map<const Expr *, std::vector<uint32_t>> symMemo;
const std::vector<uint32_t> &symsOf(const Expr *root) {
    auto it = symMemo.find(root);
    if (it != symMemo.end()) return it->second;
    std::vector<uint32_t> out;
    std::unordered_set<const Expr *> seen; std::vector<const Expr *> st{root};
    while (!st.empty()) {
        const Expr *e = st.back(); st.pop_back();
        if (!seen.insert(e).second) continue;
        if (e->k == K_SYM) { out.push_back((uint32_t)e->c); continue; }
        auto m = symMemo.find(e);
        if (m != symMemo.end()) { out.insert(out.end(), m->second.begin(), m->second.end()); continue; }
        for (auto &o : e->ops) if (o.e) st.push_back(o.e);
        for (auto &t : e->terms) st.push_back(t.a);
    }
    std::sort(out.begin(), out.end()); out.erase(std::unique(out.begin(), out.end()), out.end());
    return symMemo[root] = std::move(out);
}
static std::string hex(u128 c) { char b[48]; if (c >> 64) snprintf(b, 48, "0x%llx%016llx", (unsigned long long)(c >> 64), (unsigned long long)c); else snprintf(b, 48, "0x%llx", (unsigned long long)c); return b; }
std::string dump(const V &v, int d) {
    if (v.isC()) return hex(v.c) + ":" + std::to_string(v.w);
    const Expr *e = v.e;
    if (e->k == K_SYM) return symNames[(size_t)e->c];
    static const char *nm[] = {"sym", "lin", "and", "sum", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "eq0", "ult", "ite", "cut"};
    std::string s = "(" + std::string(nm[e->k]) + std::to_string(e->w);
    if (d <= 0) return s + "#" + std::to_string(e->id) + ")";
    if (e->k == K_LIN) {
        s += " " + hex(e->c); int n = 0;
        for (auto &t : e->terms) { if (n++ > 8) { s += " ..."; break; } s += " [" + dump(mkE(t.a), d - 1) + (t.s >= 0 ? "<<" : ">>") + std::to_string(abs(t.s)) + "&" + hex(t.m) + "]"; }
    } else if (e->k == K_SUM) { s += " " + hex(e->c); for (size_t i = 0; i < e->ops.size(); i++) s += " " + hex(e->coef[i]) + "*" + dump(e->ops[i], d - 1); }
    else for (auto &o : e->ops) s += " " + dump(o, d - 1);
    return s + ")";
}
