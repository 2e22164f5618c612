// P34: the command line parsers of the parameter search programs.
// PROG: 1 mt2, 2 MTGP32dc, 3 rmt64dc, 4 tinymt32dc, 5 sfmtdc, 6 sfmtdcfixed, 7 dSFMTdc
#include "sym.h"
#include <stdint.h>
#include <string>
#include <unistd.h>
#include <time.h>
#include <getopt.h>
extern "C" clock_t clock(void) { return 123456; }
#define main prog_main
#if PROG == 1
#include "MTDC/mt2.cpp"
typedef options Opt;
#elif PROG == 2
#include "MTGPDC/parse_opt.cpp"
typedef mtgp_options Opt;
#elif PROG == 3
#include "RMT/rmt64dc.cpp"
typedef rmt_options Opt;
#elif PROG == 4
#include "TinyMTDC/parse_opt.cpp"
typedef tinymt_options Opt;
#elif PROG == 5
#include "sfmtdc/sfmtdc.cpp"
typedef options Opt;
#elif PROG == 6
#include "sfmtdc/sfmtdcfixed.cpp"
typedef options Opt;
#else
#include "dSFMTdc/dSFMTdc.cpp"
typedef options Opt;
#endif
#undef main
typedef __int128 I;
static uint32_t limit;                              // tinymt: largest start
static bool run(Opt &o, int argc, char **argv) {
#if PROG == 4
    return parse_opt(o, argc, argv, limit);
#else
    return parse_opt(o, argc, argv);
#endif
}
// a numeral: optional sign, optional 0x, fixed leading digits (of HEAD), then arbitrary digits
struct Num { char s[40]; I v; };
static void numeral(Num &n, int len, int sign, int hex, int head) {
    static const char *const heads[] = {"", "922337203685477", "1844674407370955", "429496", "214748", "429", "0000", "9999999999999999999999", "6"};
    static const char *const hheads[] = {"", "7ffffffffffff", "ffffffffffffffff", "ffffff", "7fffff", "1000", "0000", "fffffffffffffff", "10000000"};
    int k = 0; I top = 0; long low = 0, unit = 1;
    if (sign) n.s[k++] = sign < 0 ? '-' : '+';
    if (hex) { n.s[k++] = '0'; n.s[k++] = hex == 2 ? 'X' : 'x'; }
    for (const char *h = hex ? hheads[head] : heads[head]; *h; h++) { n.s[k++] = *h; top = top * (hex ? 16 : 10) + (*h <= '9' ? *h - '0' : *h - 'a' + 10); if (top > ((I)1 << 100)) top = (I)1 << 100; }
    for (int i = 0; i < len; i++) {
        uint8_t d = sym_u8("digit");
        if (hex) { sym_assume(d < 16); n.s[k++] = (char)(d < 10 ? '0' + d : (hex == 2 ? 'A' : 'a') + d - 10); low = low * 16 + d; unit *= 16; }
        else { sym_assume(d < 10); n.s[k++] = (char)('0' + d); low = low * 10 + d; unit *= 10; }
    }
    n.s[k] = 0; n.v = top * unit + low; if (sign < 0) n.v = -n.v;
}
static bool mexp_ok(I v) {
    static const int all[] = {521, 607, 1279, 2203, 2281, 3217, 4253, 4423, 9689, 9941, 11213, 19937, 21701, 23209, 44497, 110503, 216091};
    for (int m : all) {
#if PROG == 2
        if (m != 3217 && m != 4423 && m != 11213 && m != 23209 && m != 44497 && m != 110503 && m != 216091) continue;
#elif PROG == 1 || PROG == 3
        if (m > 44497) continue;
#elif PROG == 7
        if (m != 521 && m != 1279 && m != 2203 && m != 4253 && m != 11213 && m != 19937 && m != 44497) continue;
#else
        if (m == 521 || m == 2203 || m > 44497) continue;
#endif
        if (v == m) return true;
    }
    return false;
}
static const bool HAS_MEXP = PROG != 4, HAS_ID = PROG == 1 || PROG == 2 || PROG == 4, HAS_SEED = PROG != 2 && PROG != 4, HAS_MAX = PROG == 1 || PROG == 4;
static const I LMIN = INT64_MIN, LMAX = INT64_MAX;
extern "C" int harness_main(void) {
    alignas(Opt) static unsigned char mem[sizeof(Opt)];
    for (size_t i = 0; i < sizeof mem; i++) mem[i] = sym_u8("memory");
    static SymStorage<Opt> dirt("memory2");
    Opt &o = *new (mem) Opt, &o2 = *new (dirt.p()) Opt;
    // FIELD: which value is arbitrary; 0 none, 1 exponent, 2 identifier, 3 count, 4 seed, 5 max, 6 start, 7 fixed sl1
    int field = (int)sym_config("FIELD", 1), len = (int)sym_config("LEN", 4), sign = (int)sym_config("SIGN", 0), hex = (int)sym_config("HEX", 0);
    int shape = (int)sym_config("SHAPE", 0), bad = (int)sym_config("BAD", 0);
    limit = PROG == 4 && field == 6 ? sym_u32("limit") : 0x7fffffff;
    static Num x; numeral(x, len, sign, hex, (int)sym_config("HEAD", 0));
    if (hex == 0 && (field == 4 || field == 6 || field == 7)) sym_assume(len == 1 || x.s[sign != 0] != '0');   // a leading zero means octal there
    static char mexp[8] = "44497", id[8] = "4660", count[8] = "77", seed[8] = "4321", maxd[8] = "55", start[8] = "1000", prog[] = "prog";
    static char buf[12][64]; char *av[16]; int n = 0, nb = 0;
    av[n++] = prog;
    char *pm = field == 1 ? x.s : mexp, *pi = field == 2 ? x.s : id;
    bool late = shape & 1, lng = shape & 2, glue = shape & 4;
    int missing = bad == 1, extra = 0;
    auto operands = [&]() { if (HAS_MEXP && !missing) av[n++] = pm; if (HAS_ID && !(missing)) av[n++] = pi; if (bad == 5 && HAS_MEXP && HAS_ID) av[n++] = pm; };
    auto put = [&](char c, const char *name, char *val) {       // -c 5, -c5, --count 5, --count=5
        char *b = buf[nb++]; int k = 0; b[k++] = '-';
        if (lng) { b[k++] = '-'; for (const char *q = name; *q; q++) b[k++] = *q; if (glue && val) b[k++] = '='; } else b[k++] = c;
        if (glue && val) { for (char *q = val; *q; q++) b[k++] = *q; b[k] = 0; av[n++] = b; return; }
        b[k] = 0; av[n++] = b; if (val) av[n++] = val;
    };
    bool opts = sym_config("OPTS", 1);
    if (!late) operands();
    if (opts || field == 3) put('c', "count", field == 3 ? x.s : count);
    if ((opts || field == 4) && HAS_SEED) put('s', "seed", field == 4 ? x.s : seed);
    if ((opts || field == 5) && HAS_MAX) put('m', "max", field == 5 ? x.s : maxd);
    if ((opts || field == 6) && PROG == 4) put('s', "start", field == 6 ? x.s : start);
    static char str[] = "some seed"; if (opts && PROG == 2) put('s', "seed", str);
    if (opts) put('v', "verbose", 0);
    if (opts && PROG == 4) put('a', "all", 0);
    static char devnull[] = "/dev/null", nodir[] = "/nonexistent/dir/file";
    if (PROG != 1 && (opts || bad == 4)) put('f', PROG == 2 ? "output-file" : "file", bad == 4 ? nodir : devnull);
    bool fx = PROG == 7 && (field == 7 || (opts && (shape & 8)));
    if (fx) { bool g = glue; glue = true; put('x', "fixed", field == 7 ? x.s : 0); glue = g; }
    static char unk[] = "-Q", unkl[] = "--nothing"; if (bad == 2) av[n++] = unk; if (bad == 3) av[n++] = unkl;
    if (late) operands();
    (void)extra;
    static char lastc[] = "-c"; if (bad == 6) av[n++] = lastc;     // argument missing
    av[n] = 0;
    bool ok = run(o, n, av);
    bool want = !((missing && (HAS_MEXP || HAS_ID)) || bad == 2 || bad == 3 || bad == 6 || (bad == 4 && PROG != 1));
    if (HAS_MEXP && field == 1) want = want && mexp_ok(x.v);
    if (field == 2) want = want && x.v >= 0 && x.v <= (PROG == 1 ? 0xffff : 0xffffffffLL);
    if (field == 3) want = want && (PROG == 1 ? x.v >= INT32_MIN && x.v <= INT32_MAX : x.v >= LMIN && x.v <= LMAX);
    if (field == 4) want = want && x.v >= 0 && x.v <= (I)UINT64_MAX;
    if (field == 5) want = want && x.v >= INT32_MIN && x.v <= INT32_MAX;
    if (field == 6) want = want && x.v >= 0 && x.v <= (I)limit;
    if (PROG == 1 && field == 4) sym_assume(x.v <= (I)UINT32_MAX);
    sym_observe("ok", ok);
    sym_assert(ok == want, "accepted-iff-valid");
    if (!ok) { sym_reach("rejected"); return 0; }
    sym_reach("accepted");
#if PROG != 4
    sym_assert(o.mexp == (field == 1 ? (int)x.v : 44497), "exponent-kept");
#endif
#if PROG == 2
    sym_assert(o.id == (field == 2 ? (uint32_t)x.v : 4660u), "identifier-kept");
    sym_assert(opts ? o.seed == "some seed" : o.seed.length() > 0, "seed-kept");
#elif PROG == 1 || PROG == 4
    sym_assert((uint32_t)o.uid == (field == 2 ? (uint32_t)x.v : 4660u), "identifier-kept");
    sym_assert(o.max_delta == (field == 5 ? (int)x.v : opts ? 55 : PROG == 4 ? 10 : INT32_MAX), "max-kept");
#endif
    sym_assert(o.count == (field == 3 ? (long)x.v : opts ? 77 : 1), "count-kept");
#if PROG != 2 && PROG != 4
    if (opts || field == 4) sym_assert(o.seed == (decltype(o.seed))(field == 4 ? (uint64_t)x.v : 4321u), "seed-kept");
#endif
#if PROG == 4
    sym_assert(o.start == (field == 6 ? (uint32_t)x.v : opts ? 1000u : limit), "start-kept");
    sym_assert(o.all == opts, "all-kept");
#endif
#if PROG == 7
    sym_assert(o.fixed == fx, "fixed-kept"); sym_assert(o.fixedSL1 == (field == 7 ? (int)x.v : 19), "fixed-sl1-kept");
#endif
    sym_assert(o.verbose == opts, "verbose-kept");
    sym_assert(o.filename == (opts && PROG != 1 ? "/dev/null" : ""), "file-kept");
    if (sym_config("TWICE", 0)) {                   // the result depends on the arguments alone
        optind = 1; sym_assert(run(o2, n, av), "accepted-again");
#if PROG != 4
        sym_assert(o2.mexp == o.mexp, "same-exponent");
#endif
#if PROG != 4 && PROG != 2
        sym_assert(o2.seed == o.seed, "same-seed");
#endif
        sym_assert(o2.count == o.count && o2.verbose == o.verbose, "same-options");
    }
    return 0;
}
