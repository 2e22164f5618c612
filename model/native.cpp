// Native implementation of the harness interface: replays a model found by the solver on the real build.
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <exception>
#include <typeinfo>
static std::map<std::string, uint64_t> in, obs; static std::map<std::string, long> cfg; static std::map<std::string, int> no, ono;
static bool bad = false;
extern "C" int sym_busy; int sym_busy = 0;      // this file's own allocations are not the harness's
struct Busy { Busy() { sym_busy++; } ~Busy() { sym_busy--; } };
extern "C" void harness_main();
extern "C" {
uint64_t sym_bits(const char *n, int w) { Busy z; std::string k = std::string(n) + "#" + std::to_string(no[n]++); auto it = in.find(k); uint64_t v = it == in.end() ? 0 : it->second; if (w < 64) v &= (1ULL << w) - 1; return v; }
void sym_assume(bool c) { if (!c) { printf("ASSUME-FALSE\n"); fflush(stdout); _Exit(bad ? 1 : 3); } }
void sym_assert(bool c, const char *l) { if (!c) { printf("ASSERT-FAILED %s\n", l); bad = true; } }
void sym_reach(const char *) {}
void sym_observe(const char *l, uint64_t v) { Busy z; auto it = obs.find(std::string(l) + "@" + std::to_string(ono[l]++)); if (it != obs.end() && it->second != v) { printf("OBS-MISMATCH %s engine=%llx native=%llx\n", l, (unsigned long long)it->second, (unsigned long long)v); bad = true; } }
uint64_t sym_concretize(uint64_t v) { return v; }
long sym_config(const char *n, long d) { Busy z; auto it = cfg.find(n); return it == cfg.end() ? d : it->second; }
void sym_nomerge(int) {}
int sym_symbolic(void) { return 0; }
static void fin() { printf(bad ? "NATIVE-VIOLATION\n" : "NATIVE-OK\n"); fflush(stdout); _Exit(bad ? 1 : 0); }
void sym_fail(const char *l) { printf("ASSERT-FAILED %s\n", l); bad = true; fin(); __builtin_unreachable(); }
void sym_done(void) { fin(); __builtin_unreachable(); }
static bool allowExit = false, inMain = false;
void sym_allow_exit(int on) { allowExit = on; }
void sym_dump(const char *l, uint64_t v) { printf("%s = %llx\n", l, (unsigned long long)v); }
}
static void onExit() { if (inMain) { if (!allowExit) { printf("ASSERT-FAILED exit() called\n"); bad = true; } fin(); } }
static void onTerm() { printf("ASSERT-FAILED uncaught exception / terminate\n"); fflush(stdout); _Exit(1); }
int main(int argc, char **argv) {
    if (argc > 1) {
        FILE *f = fopen(argv[1], "r"); if (!f) { perror(argv[1]); return 4; }
        static char line[1 << 16];
        while (fgets(line, sizeof line, f)) {
            char a[512], b[128], k[16];
            if (sscanf(line, "%15s %511s %127s", k, a, b) != 3) continue;
            if (!strcmp(k, "config")) cfg[a] = atol(b);
            else if (!strcmp(k, "in")) in[a] = strtoull(b, 0, 16);
            else if (!strcmp(k, "obs")) obs[std::string(a) + "@" + std::to_string(ono[a]++)] = strtoull(b, 0, 16);
        }
        fclose(f); ono.clear();
    }
    std::set_terminate(onTerm);
    atexit(onExit);
    inMain = true;
    harness_main();
    inMain = false;
    fin();
}
