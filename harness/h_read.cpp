// P36: the programs that take a printed SFMT or dSFMT parameter line read back what was printed.
// PROG: 1 sfmtdc/calc_equidist, 3 dSFMTdc/calc_equidist, 4 calc_parity_main, 5 calc_fixpoint_main, 6 make_old_format
#include "sym.h"
#include <stdint.h>
#include <string>
#include <string.h>
#include <unistd.h>
#include <time.h>
#include <getopt.h>
extern "C" clock_t clock(void) { return 123456; }
#define main prog_main
#if PROG == 1
#include "sfmtdc/calc_equidist.cpp"
#elif PROG == 2
#include "sfmtdc/calc_parity.cpp"
#elif PROG == 3
#include "dSFMTdc/calc_equidist.cpp"
#elif PROG == 4
#include "dSFMTdc/calc_parity_main.cpp"
#elif PROG == 5
#include "dSFMTdc/calc_fixpoint_main.cpp"
#else
#include "dSFMTdc/make_old_format.cpp"
#endif
#undef main
#if PROG <= 2
typedef sfmt_param Par;
#else
typedef dSFMT_param Par;
#endif
// every word in turn: the words of SYM are arbitrary, the others numbers with leading zeros
static uint64_t g_w = 0x0f1e2d3c4b5a6978ull; static int g_i = 0;
static uint64_t word(int bits) { int i = g_i++; g_w = (g_w << 9 | g_w >> 55) ^ (uint64_t)i; if ((sym_config("SYM", 3) >> i) & 1) return sym_bits("word", bits); uint64_t v = g_w >> (5 * i + 3); return bits == 32 ? (uint32_t)v : v; }
static void fill(Par &p) {
    p.mexp = (int)sym_config("MEXP", 607); p.pos1 = (int)sym_config("P", 2); p.sl1 = (int)sym_config("S", 19);
#if PROG <= 2
    p.sl2 = (int)sym_config("S2", 1); p.sr1 = (int)sym_config("R", 27); p.sr2 = (int)sym_config("R2", 7);
    p.msk1 = (uint32_t)word(32); p.msk2 = (uint32_t)word(32); p.msk3 = (uint32_t)word(32); p.msk4 = (uint32_t)word(32);
    p.parity1 = (uint32_t)word(32); p.parity2 = (uint32_t)word(32); p.parity3 = (uint32_t)word(32); p.parity4 = (uint32_t)word(32);
#else
    p.msk1 = word(64); p.msk2 = word(64); p.fix1 = word(64); p.fix2 = word(64); p.parity1 = word(64); p.parity2 = word(64);
#endif
}
extern "C" void harness_main() {
    static Par p, q; fill(p);
#if PROG == 1 || PROG == 3
    static options o;
#endif
    std::string s = p.get_string(); static char line[400], pgm[] = "prog", v[] = "-v", c[] = "-c"; int n = (int)s.size();
    for (int i = 0; i < n; i++) { line[i] = s[i]; } line[n] = 0;
    char *argv[8]; int argc = 0; argv[argc++] = pgm; if (sym_config("FLAG", 0) == 1) { argv[argc++] = PROG == 1 || PROG == 3 ? v : c; } argv[argc++] = line; argv[argc] = 0;
    optind = 1;
#if PROG == 1 || PROG == 3
    bool ok = parse_opt(o, argc, argv); q = o.params;
    sym_assert(o.verbose == (sym_config("FLAG", 0) == 1), "verbose");
#else
    bool ok = option(q, argc, argv);
#endif
    sym_assert(ok, "accepted");
    sym_assert(q.mexp == p.mexp && q.pos1 == p.pos1 && q.sl1 == p.sl1, "decimal-fields");
#if PROG <= 2
    sym_assert(q.sl2 == p.sl2 && q.sr1 == p.sr1 && q.sr2 == p.sr2, "decimal-fields");
    sym_assert(q.msk1 == p.msk1, "msk1"); sym_assert(q.msk2 == p.msk2, "msk2"); sym_assert(q.msk3 == p.msk3, "msk3"); sym_assert(q.msk4 == p.msk4, "msk4");
    sym_assert(q.parity1 == p.parity1, "parity1"); sym_assert(q.parity2 == p.parity2, "parity2"); sym_assert(q.parity3 == p.parity3, "parity3"); sym_assert(q.parity4 == p.parity4, "parity4");
#else
    sym_assert(q.msk1 == p.msk1, "msk1"); sym_assert(q.msk2 == p.msk2, "msk2");
#if PROG != 5
    sym_assert(q.fix1 == p.fix1, "fix1"); sym_assert(q.fix2 == p.fix2, "fix2");
#if PROG != 4
    sym_assert(q.parity1 == p.parity1, "parity1"); sym_assert(q.parity2 == p.parity2, "parity2");
#endif
#endif
#endif
    sym_observe("msk1", q.msk1); sym_observe("msk2", q.msk2);
    sym_reach("done");
}
