// P38: the search programs print exactly the requested number of results, each the one its search installed.
// PROG: 1 mt2, 2 MTGP32dc, 3 rmt64dc, 4 tinymt32dc, 5 sfmtdc, 6 sfmtdcfixed, 7 dSFMTdc
// The program text is the shipped one; the search classes it drives are stand-ins that install arbitrary
// parameters and report arbitrary measurements (the real ones are decided by P16-P24, P35).
#include "sym.h"
#include <stdint.h>
#include <stdexcept>
#include <string>
#include <sstream>
#include <iostream>
#include <unistd.h>
#include <time.h>
#include <errno.h>
#include <stdio.h>
#include <getopt.h>
#include <NTL/GF2X.h>
#include <MTToolBox/AlgorithmRecursionAndTempering.hpp>
#include <MTToolBox/AlgorithmReducibleRecursionSearch.hpp>
#include <MTToolBox/AlgorithmReducibleRT.hpp>
#include <MTToolBox/AlgorithmCalculateParity.hpp>
#include <MTToolBox/AlgorithmEquidistribution.hpp>
#include <MTToolBox/MersenneTwister.hpp>
#include <MTToolBox/MersenneTwister64.hpp>
#include <MTToolBox/Sequential.hpp>
#include <MTToolBox/util.hpp>
extern "C" clock_t clock(void) { return 123456; }
using namespace MTToolBox;
static int calls, shown, failAt, stopAt; static std::string expected;
static void begin(); static void found(int delta, int weight, uint64_t p1, uint64_t p0);
static int digit(const char *n) { int d = (int)sym_bits(n, 4); sym_assume(d < 10); return d; }
#if PROG <= 4
static void tempering(void *g, uint32_t m, uint32_t b);
template <class U> static void install(TemperingCalculatable<U> &g, ParameterGenerator &src);
struct Result { int delta, weight; NTL::GF2X poly; uint64_t p1, p0; };
template <class U> static bool one(TemperingCalculatable<U> &g, ParameterGenerator &src, Result &r) {
    calls++; sym_assume(calls <= sym_config("CALLS", 4)); if (calls == failAt) return false; if (calls == stopAt) throw std::underflow_error("end of the sequence");
    install<U>(g, src); r.delta = digit("delta"); r.weight = digit("weight"); r.p1 = sym_bits("poly", 63); r.p0 = sym_bits("poly", 64) | 1;
    for (int i = 0; i < 64; i++) { if (sym_config("POLY", 0)) { NTL::SetCoeff(r.poly, i, (r.p0 >> i) & 1); if (i < 63) NTL::SetCoeff(r.poly, i + 64, (r.p1 >> i) & 1); } }
    found(r.delta, r.weight, r.p1, r.p0); return true;
}
template <class U> struct StandRT {
    ParameterGenerator *src; Result r;
    StandRT(ParameterGenerator &s) : src(&s) {} StandRT(ParameterGenerator &s, const AlgorithmPrimitivity &) : src(&s) {}
    bool search(TemperingCalculatable<U> &g, AlgorithmTempering<U> &, AlgorithmTempering<U> &, bool = false, std::ostream & = std::cout, bool = false) { return one<U>(g, *src, r); }
    bool search(TemperingCalculatable<U> &g, AlgorithmTempering<U> &, bool = false, std::ostream & = std::cout) { return one<U>(g, *src, r); }
    int getDelta() { return r.delta; } int getWeight() { return r.weight; } const NTL::GF2X &getCharacteristicPolynomial() { return r.poly; }
};
template <class U, class G> struct StandRRT {
    ParameterGenerator *src; Result r;
    StandRRT(ParameterGenerator &s) : src(&s) {}
    bool search(G &g, AlgorithmTempering<U> &, AlgorithmTempering<U> &, bool = false, std::ostream & = std::cout, bool = false) { return one<U>(g, *src, r); }
    bool search(G &g, AlgorithmTempering<U> &, bool = false, std::ostream & = std::cout) { return one<U>(g, *src, r); }
    int getDelta() { return r.delta; } int getWeight() { return r.weight; } const NTL::GF2X &getCharacteristicPolynomial() { return r.poly; } const NTL::GF2X &getIrreducibleFactor() { return r.poly; }
};
namespace MTToolBox { using ::StandRT; using ::StandRRT; }
#define AlgorithmRecursionAndTempering StandRT
#define AlgorithmReducibleRecursionAndTempering StandRRT
#else
// ---- the SIMD programs drive the steps themselves
#if PROG == 7
#include "dSFMTdc/dSFMTsearch.hpp"
#include "dSFMTdc/AlgorithmDSFMTEquidistribution.hpp"
#include "dSFMTdc/Annihilate.h"
#include "dSFMTdc/calc_fixpoint.h"
typedef dSFMT SimdGen;
#else
#if PROG == 6
#define SFMT_PARAM_FIXED 1
#endif
#include "sfmtdc/sfmtsearch.hpp"
#include "sfmtdc/AlgorithmSIMDEquidistribution.hpp"
#include "sfmtdc/Annihilate.h"
typedef sfmt SimdGen;
#endif
static NTL::GF2X theFactor, theChar; static w128_t theParity, theFix; static int theDelta[3], stage, annihilated; static SimdGen *theGen;
static w128_t word128(const char *n) { w128_t w; w.u64[0] = sym_bits(n, 64); w.u64[1] = sym_bits(n, 64); return w; }
static void install(SimdGen &g, ParameterGenerator &src); static bool pending; static void flushLine();
template <class U> struct StandARS {
    SimdGen *g; ParameterGenerator *src;
    StandARS(SimdGen &x, ParameterGenerator &s) : g(&x), src(&s) { theGen = &x; } 
    bool start(int tries) { sym_assert(tries > 0, "tries-positive"); if (pending) flushLine(); calls++; sym_assume(calls <= 6); if (calls == failAt) return false; install(*g, *src); stage = 1;
        theFactor = NTL::GF2X(); theChar = NTL::GF2X(); for (int i = 0; i <= 3; i++) { NTL::SetCoeff(theFactor, i, (0xb >> i) & 1); } NTL::GF2X q; NTL::SetCoeff(q, 0, 1); NTL::SetCoeff(q, 1, 1); theChar = theFactor * q; return true; }
    const NTL::GF2X &getIrreducibleFactor() { return theFactor; } const NTL::GF2X &getCharacteristicPolynomial() { return theChar; } const NTL::GF2X &getMinPoly() { return theChar; } long getCount() { return calls; }
};
template <class U, class G> struct StandCP { U searchParity(G &g, const NTL::GF2X &f) { sym_assert(&g == theGen && f == theFactor && stage == 1, "parity-of-the-found-recursion"); theParity = word128("parity"); g.setParityValue(theParity); return theParity; } };
static bool standAnni(SimdGen &g) { sym_assert(&g == theGen, "annihilated-generator"); sym_assert(stage == 1, "annihilation-after-the-search"); stage = 2; return calls != stopAt; }
static long standDeg(const NTL::GF2X &p) { return p == theFactor ? (long)sym_config("MEXP", 607) : NTL::deg(p); }
template <class U, class G = U> struct StandEQ { StandEQ(const SimdGen &, int bits, int mexp) { sym_assert(bits == 128 && mexp == sym_config("MEXP", 607) && stage == 2, "128-bit-measurement"); }
    int get_all_equidist(int *veq) { for (int i = 0; i < 128; i++) veq[i] = i; return theDelta[2]; } };
template <class U, class G, class I> static int standSIMD(G &, int *veq, int bits, I &info, int mexp, ...) { sym_assert(mexp == sym_config("MEXP", 607) && stage == 2 && info.bitSize == 128, "measurement"); for (int i = 0; i < bits; i++) veq[i] = i;
#if PROG == 7
    sym_assert(bits == 52 && info.elementNo == 2, "52-bit-measurement"); return theDelta[0];
}
#else
    sym_assert((info.bitMode == 32 && info.elementNo == 4 && bits == 32) || (info.bitMode == 64 && info.elementNo == 2 && bits == 64), "element-size"); return theDelta[info.bitMode == 64]; }
#endif
template <class U, class G> static int standCalc(G &g, int *veq, int bits,
#if PROG == 7
    DSFMTInfo &info,
#else
    SIMDInfo &info,
#endif
    int mexp) { return standSIMD<U, G>(g, veq, bits, info, mexp); }
static w128_t standFix(const SimdGen &g, const NTL::GF2X &f, const NTL::GF2X &q) { sym_assert(&g == theGen && f == theFactor, "fixed-point-of-the-found-recursion"); NTL::GF2X c = theChar / theFactor; sym_assert(q == c, "cofactor"); theFix = word128("fix"); return theFix; }
static void standLCM(NTL::GF2X &p, const SimdGen &) { NTL::GF2X q; NTL::SetCoeff(q, 2, 1); NTL::SetCoeff(q, 0, 1); theChar = theFactor * q; p = theChar; }
template <class U> static void standAnnihilate(SimdGen *g, const NTL::GF2X &q) { NTL::GF2X c = theChar / theFactor; sym_assert(g == theGen && q == c, "annihilated-by-the-cofactor"); annihilated++; }
namespace MTToolBox { using ::StandARS; using ::StandCP; using ::StandEQ; using ::standCalc; using ::standAnnihilate; } namespace NTL { using ::standDeg; }
#define AlgorithmReducibleRecursionSearch StandARS
#define AlgorithmCalculateParity StandCP
#define AlgorithmEquidistribution StandEQ
#define calc_SIMD_equidistribution standCalc
#define calc_dSFMT_equidistribution standCalc
#define anni standAnni
#define deg standDeg
#define calc_fixpoint standFix
#define getLCMPoly standLCM
#define annihilate standAnnihilate
#endif
#define main prog_main
#if PROG == 1
#include "MTDC/mt2.cpp"
typedef MT32Search Gen; typedef uint32_t U;
#elif PROG == 2
#include "MTGPDC/MTGP32dc.cpp"
#include "MTGPDC/parse_opt.cpp"
typedef mtgp32 Gen; typedef uint32_t U;
#elif PROG == 3
#include "RMT/rmt64dc.cpp"
typedef RMT64Search Gen; typedef uint64_t U;
#elif PROG == 4
#include "TinyMTDC/tinymt32dc.cpp"
#include "TinyMTDC/parse_opt.cpp"
typedef tinymt32 Gen; typedef uint32_t U;
#elif PROG == 5
#include "sfmtdc/sfmtdc.cpp"
typedef sfmt Gen;
#elif PROG == 6
#include "sfmtdc/sfmtdcfixed.cpp"
typedef sfmt Gen;
#else
#include "dSFMTdc/dSFMTdc.cpp"
typedef dSFMT Gen;
#endif
#undef main
#undef deg
static Gen *refGen; static ParameterGenerator *refSrc; static long maxDelta; static int id, mexp; static uint64_t theSeed; static bool firstCall;
static void num(long v) { std::ostringstream o; o << v; expected += o.str(); }
#if PROG <= 4
static bool rt_kept;
static void both(Gen &a, U m, U b, int i) { a.setTemperingPattern(m, b, i); refGen->setTemperingPattern(m, b, i); }
template <class X> static void install(TemperingCalculatable<X> &tg, ParameterGenerator &src) {
    Gen &g = dynamic_cast<Gen &>(tg);
#if PROG == 2
    delete refSrc; MersenneTwister *ms = new MersenneTwister; char sd[32]; snprintf(sd, 32, "%llu", (unsigned long long)theSeed); ms->seed(std::string(sd)); refSrc = ms; delete refGen; refGen = new Gen(mexp, id + shown);
#endif
    // every search starts from the parameter the documented source gives next
    g.setUpParam(src); refGen->setUpParam(*refSrc);
    U b = (U)sym_bits("tempering", 8 * sizeof(U)); both(g, ~(U)0, b, 0); g.setUpTempering(); refGen->setUpTempering();
}
static void found(int delta, int weight, uint64_t p1, uint64_t p0) {
    if (delta > maxDelta) return;
    if (shown == 0) { // the title comes once, before the first result
#if PROG == 2
        expected += "#" + refGen->getHeaderString() + "\n";
#elif PROG == 4
        expected += "# characteristic, " + refGen->getHeaderString() + ", weight, delta\n";
#endif
    }
    shown++;
#if PROG == 4
    static const char hx[] = "0123456789abcdef";
    for (int h = 1; h >= 0; h--) for (int i = 60; i >= 0; i -= 4) { int q = (int)((h ? p1 : p0) >> i) & 15; expected.push_back((char)(q < 10 ? '0' + q : 'a' + q - 10)); }
    expected += ",";
#endif
    expected += refGen->getParamString();
#if PROG == 2 || PROG == 4
    num(weight); expected += ",";
#endif
#if PROG == 3
    expected += ",";
#endif
    expected.push_back((char)('0' + delta)); expected += "\n";
}
#else
static void install(SimdGen &g, ParameterGenerator &src) {
    g.setUpParam(src); refGen->setUpParam(*refSrc); shown++; pending = true; annihilated = 0;
    for (int i = 0; i < 3; i++) theDelta[i] = digit("delta");
}
static void flushLine() { pending = false;       // what the line of the last search must be, once its words are known
#if PROG == 7
    refGen->setFixPoint(theFix); sym_assert(annihilated == 1, "left-in-the-large-component");
#endif
    refGen->setParityValue(theParity); expected += refGen->getParamString();
#if PROG == 7
    expected.push_back((char)('0' + theDelta[0])); expected += "\n";
#else
    for (int i = 0; i < 3; i++) { expected.push_back((char)('0' + theDelta[i])); expected += i < 2 ? "," : "\n"; }
#endif
}
#endif
#ifdef SYM_NATIVE
static std::ostringstream cap; static void captureOn() { std::cout.rdbuf(cap.rdbuf()); } static std::string captured() { return cap.str(); }
#else
static std::ostringstream cap; static void captureOn() { std::cout.mb = cap.mb; } static std::string captured() { return cap.str(); }
#endif
static std::string squeeze(const std::string &s) { std::string r; for (size_t i = 0; i < s.size(); i++) if (s[i] != ' ') r.push_back(s[i]); return r; }
extern "C" void harness_main() {
    failAt = (int)sym_config("FAIL", 0); stopAt = (int)sym_config("STOP", 0); mexp = (int)sym_config("MEXP", 521); id = (int)sym_config("ID", 3); int count = (int)sym_config("COUNT", 2); theSeed = (uint64_t)sym_config("SEED", 1234); maxDelta = sym_config("MAXD", 1000000);
    char mx[16], ids[16], cnt[16], sd[32], md[16]; snprintf(mx, 16, "%d", mexp); snprintf(ids, 16, "%d", id); snprintf(cnt, 16, "%d", count); snprintf(sd, 32, "%llu", (unsigned long long)theSeed); snprintf(md, 16, "%ld", maxDelta);
    const char *av[16]; int ac = 0; av[ac++] = "prog"; av[ac++] = "-c"; av[ac++] = cnt;
#if PROG == 1
    refGen = new Gen(mexp, id, 1); refSrc = new MersenneTwister((uint32_t)theSeed); av[ac++] = "-s"; av[ac++] = sd; if (maxDelta < 1000000) { av[ac++] = "-m"; av[ac++] = md; } av[ac++] = mx; av[ac++] = ids;
    expected = refGen->getHeaderString() + ", delta\n";
#elif PROG == 2
    av[ac++] = "-s"; av[ac++] = sd; av[ac++] = mx; av[ac++] = ids;
#elif PROG == 3
    refGen = new Gen(mexp, 1); refSrc = new MersenneTwister64(theSeed); av[ac++] = "-s"; av[ac++] = sd; av[ac++] = mx; expected = "# " + refGen->getHeaderString() + ", delta\n";
#elif PROG == 4
    refGen = new Gen(id); refSrc = new Sequential<uint32_t>(0, (uint32_t)theSeed); av[ac++] = "--start"; av[ac++] = sd; if (sym_config("ALL", 0)) av[ac++] = "--all"; if (maxDelta < 1000000) { av[ac++] = "--max"; av[ac++] = md; } av[ac++] = ids;
#elif PROG == 5 || PROG == 6
    refGen = new Gen(mexp); refSrc = new MersenneTwister((uint32_t)theSeed); av[ac++] = "-s"; av[ac++] = sd; av[ac++] = mx; expected = "seed = " + std::string(sd) + "\n# " + refGen->getHeaderString() + ", delta32, delta64, delta128\n";
#else
    refGen = new Gen(mexp); refSrc = new MersenneTwister64(theSeed); av[ac++] = "-s"; av[ac++] = sd; if (sym_config("FIX", 0)) { static char fx[16]; snprintf(fx, 16, "-x%ld", sym_config("FIX", 0)); av[ac++] = fx; refGen->setFixed(true); refGen->setFixedSL1((int)sym_config("FIX", 0)); } av[ac++] = mx; expected = "seed = " + std::string(sd) + "\n# " + refGen->getHeaderString() + ", delta52\n";
#endif
    av[ac] = 0; captureOn(); optind = 0; errno = 0; int rc = prog_main(ac, (char **)av); std::string out = captured();
    bool stopped = failAt || stopAt;
#if PROG > 4
    if (pending && calls != stopAt) flushLine();
    if (failAt && calls == failAt) { expected += "search failed\n"; shown++; }
    sym_assert(calls == count || (failAt && calls == failAt) || (stopAt && calls == stopAt), "as-many-results-as-requested");
#endif
#if PROG <= 4
    if (failAt && calls == failAt) expected += PROG == 1 ? "not found\n" : "search failed\n";
    sym_assert(shown == count || (failAt && calls == failAt) || (stopAt && calls == stopAt), "as-many-results-as-requested");
#endif
    std::string a = squeeze(out), b = squeeze(expected); sym_assert(a.size() == b.size(), "nothing-more-and-nothing-less-printed");
    bool same = true; for (size_t i = 0; i < a.size() && i < b.size(); i++) same &= a[i] == b[i]; sym_assert(same, "prints-what-the-search-installed");
    if (!stopped) sym_assert(rc == 0, "exit-status");
    sym_observe("shown", (uint64_t)shown); sym_observe("size", out.size()); sym_reach("done");
}
