// P39: the analysis programs report on exactly the recursion they are given.
// PROG: 1 RMT/calc_equidist, 2 RMT/calc_period, 3 sfmtdc/calc_equidist, 4 dSFMTdc/calc_equidist, 6 dSFMTdc/calc_period
// The program text is the shipped one; the calculations it drives (decided by P13, P15, P17, P18, P35) are stand-ins that check what they are
// given and report arbitrary results.
#include "sym.h"
#include <stdint.h>
#include <string>
#include <sstream>
#include <iostream>
#include <unistd.h>
#include <time.h>
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <limits.h>
#include <getopt.h>
#include <NTL/GF2X.h>
#include <MTToolBox/AlgorithmReducibleRecursionSearch.hpp>
#include <MTToolBox/AlgorithmEquidistribution.hpp>
#include <MTToolBox/period.hpp>
#include <MTToolBox/util.hpp>
extern "C" clock_t clock(void) { return 123456; }
using namespace MTToolBox;
#if PROG <= 2
#include "RMT/rmt64.hpp"
typedef RMT64Search Gen; typedef uint64_t U; enum { BITS = 64 };
#elif PROG == 3
#include "sfmtdc/sfmtsearch.hpp"
#include "sfmtdc/AlgorithmSIMDEquidistribution.hpp"
#include "sfmtdc/Annihilate.h"
typedef sfmt Gen; typedef w128_t U; typedef sfmt_param Par; enum { SM = 4, WM = 4 };
#else
#include "dSFMTdc/dSFMTsearch.hpp"
#include "dSFMTdc/AlgorithmDSFMTEquidistribution.hpp"
#include "dSFMTdc/Annihilate.h"
typedef dSFMT Gen; typedef w128_t U; typedef dSFMT_param Par; enum { SM = 2, WM = 2 };
#endif
static std::string expected; static Gen *gref; static int mexp, stage, delta[3], measured; static bool reversed; static long which, callNo;
static int veqOf(int bits, int j) { return mexp / (j + 1) - (j * 7 + bits) % 5; }
static int fill(int *veq, int bits, int d) { for (int j = 0; j < bits; j++) veq[j] = veqOf(bits, j); measured++; return d; }
static bool eq(uint64_t a, uint64_t b) { return a == b; }
template <class W> static bool eq(const W &a, const W &b) { return a.u64[0] == b.u64[0] && a.u64[1] == b.u64[1]; }
// the generator handed over behaves like the reference one: same parameters, seed, modes
static void sameGen(const Gen &g, const char *n) { Gen a(g), b(*gref); for (int i = 0; i < 2; i++) { U x = a.generate(), y = b.generate(); sym_assert(eq(x, y), n); } }
static void num(long v) { std::ostringstream o; o << v; expected += o.str(); }
static NTL::GF2X theFactor, theChar;
static void polys() { NTL::SetCoeff(theFactor, 0, 1); NTL::SetCoeff(theFactor, 1, 1); NTL::SetCoeff(theFactor, 3, 1); NTL::GF2X q; NTL::SetCoeff(q, 2, 1); NTL::SetCoeff(q, 0, 1); theChar = theFactor * q; }
static long standDeg(const NTL::GF2X &p) { return p == theFactor ? (long)mexp : NTL::deg(p); }
#if PROG <= 2
template <class X> static void standMinpoly(NTL::GF2X &p, Gen &g, int pos = 0, int = 0) { sym_assert(pos == 0, "bit"); if (stage == 0) { sameGen(g, "the-given-recursion"); stage = 1; } p = theChar; }
static bool standHas(NTL::GF2X &p, long d) { sym_assert(p == theChar && d == mexp && stage == 1, "factor-of-the-minimal-polynomial"); if (sym_config("FAIL", 0)) return false; p = theFactor; return true; }
static void standCalcChar(Gen *g, NTL::GF2X &p) { sym_assert(stage == 1, "order"); sameGen(*g, "the-given-recursion"); p = theChar; }
template <class X> static void standAnn(Gen *, const NTL::GF2X &q) { NTL::GF2X c = theChar / theFactor; sym_assert(stage == 1 && q == c, "annihilated-by-the-cofactor"); stage = 2; }
template <class X, class G = X> struct StandEQ { StandEQ(const Gen &g, int bits, int m) { sym_assert(stage == 2 && bits == 64 && m == mexp, "measurement"); sameGen(g, "the-given-recursion"); } int get_all_equidist(int *veq) { return fill(veq, 64, delta[0]); } };
namespace MTToolBox { using ::standMinpoly; using ::standHas; using ::standCalcChar; using ::standAnn; using ::StandEQ; } namespace NTL { using ::standDeg; }
#define minpoly standMinpoly
#define hasFactorOfDegree standHas
#define calcCharacteristicPolynomial standCalcChar
#define annihilate standAnn
#define AlgorithmEquidistribution StandEQ
#define deg standDeg
#elif PROG <= 4
static bool standAnni(Gen &g) { sym_assert(stage == 0, "order"); sameGen(g, "the-given-recursion"); stage = 1; return !sym_config("FAIL", 0); }
template <class X, class G = X> struct StandEQ { StandEQ(const Gen &g, int bits, int m) { sym_assert(stage >= 1 && bits == 128 && m == mexp, "128-bit-measurement"); Gen a(g), b(*gref); if (reversed) b.set_reverse_bit(); for (int i = 0; i < 2; i++) { U x = a.generate(128), y = b.generate(128); sym_assert(eq(x, y), "direction-of-the-128-bit-measurement"); } }
    int get_all_equidist(int *veq) { return fill(veq, 128, delta[2]); } };
#if PROG == 3
template <class X, class G> static int standCalc(G &g, int *veq, int bits, SIMDInfo &info, int m, bool lsb = false) {
    sym_assert(stage >= 1 && info.bitSize == 128 && m == mexp && lsb == reversed, "measurement"); sym_assert(info.bitMode == bits && info.elementNo * bits == 128, "element-size");
    Gen a(g), b(*gref); U x = a.generate(128), y = b.generate(128); sym_assert(eq(x, y), "the-given-recursion"); return fill(veq, bits, delta[bits == 64]); }
#else
template <class X, class G> static int standCalc(G &g, int *veq, int bits, DSFMTInfo &info, int m) { sym_assert(stage >= 1 && info.bitSize == 128 && info.elementNo == 2 && bits == 52 && m == mexp, "measurement"); sameGen(g, "the-given-recursion"); return fill(veq, 52, delta[0]); }
#endif
namespace MTToolBox { using ::StandEQ; using ::standCalc; }
#define anni standAnni
#define AlgorithmEquidistribution StandEQ
#define calc_SIMD_equidistribution standCalc
#define calc_dSFMT_equidistribution standCalc
#else
// stage 0: the seeded generator; stage k: the k-th annihilated combination of modes. Degrees: 40 + stage, except one arbitrary bit.
static int anniNo, mp, lowBit, highBit; static bool seen[128];
static void modes(int k, int &s, int &w) { s = (k - 1) / WM; w = WM - (k - 1) % WM; }
static bool inRange(int b) { return (b >= 0 && b < 52) || (b >= 64 && b < 116); }
static bool standAnni(Gen &g) { anniNo++; int s, w; modes(anniNo, s, w); sym_assert(anniNo <= SM * WM && g.getStartMode() == s && g.getWeightMode() == w, "every-mode-in-order"); if (anniNo < 3) { Gen b(g); b.setStartMode(gref->getStartMode()); b.setWeightMode(gref->getWeightMode()); sameGen(b, "the-given-recursion"); } return anniNo != sym_config("FAIL", 0); }
template <class X> static void standMinpoly(NTL::GF2X &p, Gen &g, int pos = 0, int = 0) {
    if (stage != anniNo) { stage = anniNo; } sym_assert(inRange(pos), "output-bit");
    if (anniNo > 0) { int s, w; modes(anniNo, s, w); sym_assert(g.getStartMode() == s && g.getWeightMode() == w, "measures-the-annihilated-one"); } else if (pos == 0) sameGen(g, "the-given-recursion");
    int d = 40 + anniNo; if (anniNo == sym_config("STAGE", 0)) { if (pos == lowBit) d = 9; else if (pos == highBit) d = 77; }
    p = NTL::GF2X(); NTL::SetCoeff(p, d, 1); NTL::SetCoeff(p, 0, 1); if (d == 77) NTL::SetCoeff(p, 5, 1); }
namespace MTToolBox { using ::standMinpoly; }
#define minpoly standMinpoly
#define anni standAnni
#endif
#define main prog_main
#if PROG == 1
#include "RMT/calc_equidist.cpp"
#elif PROG == 2
#include "RMT/calc_period.cpp"
#elif PROG == 3
#include "sfmtdc/calc_equidist.cpp"
#elif PROG == 4
#include "dSFMTdc/calc_equidist.cpp"
#else
#include "dSFMTdc/calc_period.cpp"
#endif
#undef main
#undef deg
#ifdef SYM_NATIVE
static std::ostringstream cap; static void captureOn() { std::cout.rdbuf(cap.rdbuf()); } static std::string captured() { return cap.str(); }
#else
static std::ostringstream cap; static void captureOn() { std::cout.mb = cap.mb; } static std::string captured() { return cap.str(); }
#endif
static uint64_t g_w = 0x0f1e2d3c4b5a6978ull; static int g_i = 0;
static uint64_t word(int bits) { int i = g_i++; g_w = (g_w << 9 | g_w >> 55) ^ (uint64_t)i; if ((sym_config("SYM", 3) >> i) & 1) return sym_bits("word", bits); uint64_t v = g_w >> (5 * i + 3); return bits == 32 ? (uint32_t)v : v; }
static void table(int bits) { for (int j = 0; j < bits; j++) { expected += "k("; num(j + 1); expected += ")="; num(veqOf(bits, j)); expected += "\td("; num(j + 1); expected += ")="; num(mexp / (j + 1) - veqOf(bits, j)); expected += "\n"; } }
static std::string squeeze(const std::string &s) { std::string r; for (size_t i = 0; i < s.size(); i++) if (s[i] != ' ') r.push_back(s[i]); return r; }
static bool begins(const std::string &a, const std::string &b) { bool s = a.size() >= b.size(); for (size_t i = 0; s && i < b.size(); i++) s &= a[i] == b[i]; return s; }
static bool has(const std::string &a, const char *w) { return a.find(w) != std::string::npos; }
extern "C" void harness_main() {
    mexp = (int)sym_config("MEXP", 607); bool verbose = sym_config("VERBOSE", 0) != 0; reversed = sym_config("REVERSE", 0) != 0; uint64_t seed = (uint64_t)sym_config("SEED", 1); int fail = (int)sym_config("FAIL", 0);
    for (int i = 0; i < 3; i++) { delta[i] = (int)sym_bits("delta", 4); sym_assume(delta[i] < 10); }
    polys(); std::string line;
#if PROG <= 2
    int pos = (int)sym_config("P", 3); uint64_t mata = word(64), parity = word(64), mskb = word(64), mskc = word(64);
    static Gen g0(mexp, pos, mata, mskb, mskc, 1234); g0.setParityValue(parity); g0.seed(1234); gref = &g0; line = g0.getParamString();
#else
    static Par p; p.mexp = mexp; p.pos1 = (int)sym_config("P", 2); p.sl1 = (int)sym_config("S", 19);
#if PROG % 2
    p.sl2 = (int)sym_config("S2", 1); p.sr1 = (int)sym_config("R", 7); p.sr2 = (int)sym_config("R2", 1);
    p.msk1 = (uint32_t)word(32); p.msk2 = (uint32_t)word(32); p.msk3 = (uint32_t)word(32); p.msk4 = (uint32_t)word(32); p.parity1 = (uint32_t)word(32); p.parity2 = (uint32_t)word(32); p.parity3 = (uint32_t)word(32); p.parity4 = (uint32_t)word(32);
#else
    p.msk1 = word(64); p.msk2 = word(64); p.fix1 = word(64); p.fix2 = word(64); p.parity1 = word(64); p.parity2 = word(64);
#endif
    static Gen g0(p); U s; s.u64[0] = seed; s.u64[1] = 0; g0.seed(s); gref = &g0; line = g0.getParamString();
#endif
    static char ln[500], pgm[] = "prog", sd[32]; int n = (int)line.size(); for (int i = 0; i < n; i++) { ln[i] = line[i]; } ln[n] = 0; snprintf(sd, 32, "%llu", (unsigned long long)seed);
    char *av[8]; int ac = 0; static char fs[] = "-s", fv[] = "-v", fr[] = "-r"; av[ac++] = pgm;
#if PROG == 3 || PROG == 4
    av[ac++] = fs; av[ac++] = sd; if (verbose) av[ac++] = fv; if (reversed) av[ac++] = fr;
#endif
    av[ac++] = ln; av[ac] = 0;
#if PROG == 1
    expected = line + ","; num(delta[0]); expected += "\nveq\n"; if (!fail) table(64);
#elif PROG == 2
    expected = line + "\ndegirreducible="; num(mexp); expected += "\nperiod>=2^"; num(mexp); expected += "-1\n";
#elif PROG == 3
    if (reversed) expected += "EquidistributionfromLSB\n";
    expected += line; for (int i = 0; i < 3; i++) { expected.push_back((char)('0' + delta[i])); expected += i < 2 ? "," : "\n"; }
    if (verbose) for (int b = 32; b <= 128; b *= 2) { num(b); expected += "bitdimensionofequidistributionatv-bitaccuracyk(v)"; if (reversed) expected += "fromLSB"; expected += "\n"; table(b); }
#elif PROG == 4
    expected = line; expected.push_back((char)('0' + delta[0])); expected += "\n"; if (verbose) { expected += "52bitdimensionofequidistributionatv-bitaccuracyk(v)\n"; table(52); }
#else
    int lo = (int)sym_config("LO", 0), hi = (int)sym_config("HI", 127), st = (int)sym_config("STAGE", 0);
    lowBit = (int)sym_bits("low", 7); highBit = (int)sym_config("HB", 5); sym_assume(lowBit >= lo && lowBit <= hi && inRange(lowBit) && lowBit != highBit);
    expected = line + "\n"; for (int k = 0; k <= SM * WM && (!fail || k < fail); k++) { if (k == 0) expected += "beroreanni"; else { int sm, wm; modes(k, sm, wm); expected += "start_mode="; num(sm); expected += "weight_mode="; num(wm); } expected += "min="; num(k == st ? 9 : 40 + k); expected += "max="; num(k == st ? 77 : 40 + k); expected += "\n"; }
    if (fail) expected += "annihilatefail\n";
#endif
    captureOn(); optind = 0; errno = 0; int rc = prog_main(ac, av); std::string out = squeeze(captured());
    std::string b = squeeze(expected);
#if PROG <= 4
    if (fail) { sym_assert(!has(out, "k(") && !has(out, "period>=") && measured == 0, "no-measurement-without-a-large-component"); }
    else
#endif
    { sym_assert(out.size() == b.size(), "nothing-more-and-nothing-less-printed"); bool same = begins(out, b); sym_assert(same, "prints-the-measurements-of-the-given-recursion"); }
    sym_assert((rc == 0) == !fail, "exit-status"); sym_observe("size", out.size()); sym_observe("d0", (uint64_t)delta[0]); sym_reach("done");
}
