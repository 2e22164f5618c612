// Hash-consed bit-vector expressions with a GF(2)-aware normal form.
//
// A value is either a constant or a node.  Node kinds:
//   LIN : xor of terms ((atom << s) & m) and a constant.  Xor, constant shifts, constant masks,
//         truncation, zero extension, concatenation, multiplication of a bit by a constant and
//         sign extension all stay inside this form, which is canonical for GF(2)-linear maps
//         built from shifts and masks of the same atoms.
//   everything else is an "atom".
#pragma once
#include <cstdint>
#include <vector>
#include <string>
#include <unordered_map>
#include <functional>
#include <memory>

typedef unsigned __int128 u128;
typedef __int128 i128;

enum Kind : uint8_t { K_SYM, K_LIN, K_AND, K_SUM, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM,
                      K_SHL, K_LSHR, K_ASHR, K_EQ0, K_ULT, K_ITE, K_CUT };

struct Expr;
struct V {                 // value: constant (e==nullptr) or node
    const Expr *e = nullptr;
    uint16_t w = 0;
    u128 c = 0;
    bool isC() const { return e == nullptr; }
};
struct Term { const Expr *a; int16_t s; u128 m; };
struct Expr {
    Kind k;
    uint16_t w;
    uint32_t id;
    uint32_t depth;
    u128 c;                     // LIN / SUM constant, SYM index
    std::vector<V> ops;         // operands (SUM: leaves)
    std::vector<Term> terms;    // LIN
    std::vector<u128> coef;     // SUM
    u128 unk;                   // bits that may be non-constant
    size_t h;
};

inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline V mkC(u128 c, unsigned w) { V v; v.w = (uint16_t)w; v.c = c & maskw(w); return v; }
inline V mkE(const Expr *e) { V v; v.e = e; v.w = e->w; return v; }
inline bool sameV(const V &a, const V &b) { return a.w == b.w && a.e == b.e && (a.e || a.c == b.c); }

V x_sym(const std::string &name, unsigned w);
V x_xor(const V &a, const V &b);
V x_and(const V &a, const V &b);
V x_or(const V &a, const V &b);
V x_not(const V &a);
V x_add(const V &a, const V &b);
V x_sub(const V &a, const V &b);
V x_mul(const V &a, const V &b);
V x_udiv(const V &a, const V &b);
V x_sdiv(const V &a, const V &b);
V x_urem(const V &a, const V &b);
V x_srem(const V &a, const V &b);
V x_shl(const V &a, const V &b);
V x_lshr(const V &a, const V &b);
V x_ashr(const V &a, const V &b);
V x_shlc(const V &a, unsigned n);
V x_lshrc(const V &a, unsigned n);
V x_extract(const V &a, unsigned lo, unsigned w);
V x_zext(const V &a, unsigned w);
V x_sext(const V &a, unsigned w);
V x_concat(const V &hi, const V &lo);
V x_eq(const V &a, const V &b);
V x_eq0(const V &a);
V x_ult(const V &a, const V &b);
V x_ule(const V &a, const V &b);
V x_slt(const V &a, const V &b);
V x_sle(const V &a, const V &b);
V x_ite(const V &c, const V &a, const V &b);
V x_cut(const V &a);            // opaque alias of a (same meaning), keeps normal forms small
u128 x_unk(const V &a);         // unknown-bit mask
u128 x_max(const V &a);         // upper bound (unsigned)

const std::string &symName(uint32_t idx);
unsigned symWidth(uint32_t idx);
uint32_t symCount();
uint64_t exprCount();

struct Model {
    std::unordered_map<uint32_t, u128> val;              // by symbol index; default 0
    std::unordered_map<const Expr *, u128> memo;
    u128 eval(const V &v);
    u128 evalE(const Expr *e);
};
// sorted unique symbol indices of an expression
const std::vector<uint32_t> &symsOf(const Expr *e);
std::string dump(const V &v, int depth = 4);
