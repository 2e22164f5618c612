#include <mutex>
#include <atomic>
#include "solver.h"
#include <z3.h>
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <fcntl.h>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
#include <stdexcept>
SolverStats sstats;
double queryTimeout = 120;
static Z3_context ctx;
static std::unordered_map<const Expr *, Z3_ast> tr;
static std::unordered_map<uint32_t, Z3_ast> symAst;
static double now() { using namespace std::chrono; return duration<double>(steady_clock::now().time_since_epoch()).count(); }
static void errh(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); throw std::runtime_error("z3"); }
static Z3_ast keep(Z3_ast a) { Z3_inc_ref(ctx, a); return a; }
static Z3_ast num(u128 c, unsigned w) {
    std::string s; char d[2] = {0, 0};
    if (!c) s = "0";
    while (c) { d[0] = '0' + (int)(c % 10); s.insert(0, d); c /= 10; }
    return Z3_mk_numeral(ctx, s.c_str(), Z3_mk_bv_sort(ctx, w));
}
static void init() {
    if (ctx) return;
    Z3_config cfg = Z3_mk_config();
    ctx = Z3_mk_context(cfg);   // terms live as long as the context
    Z3_set_error_handler(ctx, errh);
}
static Z3_ast T(const V &v) { return v.isC() ? num(v.c, v.w) : tr[v.e]; }
static Z3_ast b2v(Z3_ast b) { return Z3_mk_ite(ctx, b, num(1, 1), num(0, 1)); }
static Z3_ast resize(Z3_ast a, unsigned from, unsigned to) {
    if (from == to) return a;
    return to > from ? Z3_mk_zero_ext(ctx, to - from, a) : Z3_mk_extract(ctx, to - 1, 0, a);
}
static Z3_ast term(const Term &t, unsigned w) {
    // bits of mask m in the result come from atom bits (i - s); split the mask into runs
    Z3_ast a = tr[t.a];
    unsigned aw = t.a->w;
    std::vector<Z3_ast> parts; // from high to low
    int i = (int)w - 1;
    int runs = 0;
    { u128 m = t.m; bool in = false; for (unsigned j = 0; j < w; j++) { bool b = (m >> j) & 1; if (b && !in) runs++; in = b; } }
    if (runs <= 3) {
        while (i >= 0) {
            bool b = (t.m >> i) & 1; int j = i;
            while (j >= 0 && (((t.m >> j) & 1) != 0) == b) j--;
            parts.push_back(b ? Z3_mk_extract(ctx, i - t.s, j + 1 - t.s, a) : num(0, i - j));
            i = j;
        }
        Z3_ast r = parts[0];
        for (size_t k = 1; k < parts.size(); k++) r = Z3_mk_concat(ctx, r, parts[k]);
        return r;
    }
    Z3_ast r;
    unsigned big = std::max(w, aw);
    r = resize(a, aw, big);
    if (t.s > 0) r = Z3_mk_bvshl(ctx, resize(a, aw, big), num(t.s, big));
    else if (t.s < 0) r = Z3_mk_bvlshr(ctx, r, num(-t.s, big));
    r = resize(r, big, w);
    return Z3_mk_bvand(ctx, r, num(t.m, w));
}
static Z3_ast translate(const Expr *root) {
    init();
    std::vector<const Expr *> st{root};
    while (!st.empty()) {
        const Expr *e = st.back();
        if (tr.count(e)) { st.pop_back(); continue; }
        bool ready = true;
        for (auto &o : e->ops) if (o.e && !tr.count(o.e)) { st.push_back(o.e); ready = false; }
        for (auto &t : e->terms) if (!tr.count(t.a)) { st.push_back(t.a); ready = false; }
        if (!ready) continue;
        st.pop_back();
        Z3_ast r = nullptr;
        unsigned w = e->w;
        auto A = [&](int i) { return T(e->ops[i]); };
        switch (e->k) {
        case K_SYM: {
            std::string n = symName((uint32_t)e->c) + "!" + std::to_string((uint32_t)e->c);
            r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n.c_str()), Z3_mk_bv_sort(ctx, w));
            symAst[(uint32_t)e->c] = keep(r);
            break; }
        case K_LIN:
            for (auto &t : e->terms) { Z3_ast x = term(t, w); r = r ? Z3_mk_bvxor(ctx, r, x) : x; }
            if (e->c) r = Z3_mk_bvxor(ctx, r, num(e->c, w));
            break;
        case K_AND: r = Z3_mk_bvand(ctx, A(0), A(1)); break;
        case K_SUM: {
            if (e->c) r = num(e->c, w);
            for (size_t i = 0; i < e->ops.size(); i++) {
                u128 k = e->coef[i];
                bool neg = (k >> (w - 1)) & 1;
                u128 kk = neg ? (-k) & maskw(w) : k;
                Z3_ast x = A(i);
                if (kk != 1) x = Z3_mk_bvmul(ctx, num(kk, w), x);
                r = r ? (neg ? Z3_mk_bvsub(ctx, r, x) : Z3_mk_bvadd(ctx, r, x)) : (neg ? Z3_mk_bvneg(ctx, x) : x);
            }
            break; }
        case K_MUL: r = Z3_mk_bvmul(ctx, A(0), A(1)); break;
        case K_UDIV: r = Z3_mk_bvudiv(ctx, A(0), A(1)); break;
        case K_UREM: r = Z3_mk_bvurem(ctx, A(0), A(1)); break;
        case K_SDIV: r = Z3_mk_bvsdiv(ctx, A(0), A(1)); break;
        case K_SREM: r = Z3_mk_bvsrem(ctx, A(0), A(1)); break;
        case K_SHL: r = Z3_mk_bvshl(ctx, A(0), A(1)); break;
        case K_LSHR: r = Z3_mk_bvlshr(ctx, A(0), A(1)); break;
        case K_ASHR: r = Z3_mk_bvashr(ctx, A(0), A(1)); break;
        case K_EQ0: r = b2v(Z3_mk_eq(ctx, A(0), num(0, e->ops[0].w))); break;
        case K_ULT: r = b2v(Z3_mk_bvult(ctx, A(0), A(1))); break;
        case K_ITE: r = Z3_mk_ite(ctx, Z3_mk_eq(ctx, A(0), num(1, 1)), A(1), A(2)); break;
        case K_CUT: r = A(0); break;
        }
        tr[e] = keep(r);
    }
    return tr[root];
}
static Z3_ast asBool(const Expr *e) { return Z3_mk_eq(ctx, translate(e), num(1, 1)); }

// persistent incremental solver with one literal per constraint
static Z3_solver inc; static std::unordered_map<const Expr *, Z3_ast> lits; static unsigned litNo = 0;
static void resetInc() {
    if (inc) Z3_solver_dec_ref(ctx, inc);
    inc = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV")); Z3_solver_inc_ref(ctx, inc);
    lits.clear();
}
static Z3_ast litFor(const Expr *e) {
    auto it = lits.find(e);
    if (it != lits.end()) return it->second;
    std::string n = "lit!" + std::to_string(litNo++);
    Z3_ast l = keep(Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n.c_str()), Z3_mk_bool_sort(ctx)));
    Z3_solver_assert(ctx, inc, Z3_mk_implies(ctx, l, asBool(e)));
    return lits[e] = l;
}
static void setTimeout(Z3_solver s, double sec) {
    Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), (unsigned)(sec * 1000));
    Z3_solver_set_params(ctx, s, p); Z3_params_dec_ref(ctx, p);
}
static void getModel(Z3_solver s, const std::vector<uint32_t> &syms, std::unordered_map<uint32_t, u128> &out) {
    Z3_model m = Z3_solver_get_model(ctx, s); Z3_model_inc_ref(ctx, m);
    for (uint32_t i : syms) {
        Z3_ast v;
        if (!symAst.count(i)) continue;
        if (!Z3_model_eval(ctx, m, symAst[i], true, &v)) continue;
        Z3_inc_ref(ctx, v);
        const char *str = Z3_get_numeral_string(ctx, v);
        u128 x = 0; for (; *str; str++) x = x * 10 + (*str - '0');
        out[i] = x;
        Z3_dec_ref(ctx, v);
    }
    Z3_model_dec_ref(ctx, m);
}
struct VecHash { size_t operator()(const std::vector<uint32_t> &v) const { size_t h = v.size(); for (auto x : v) h = (h ^ x) * 0x9e3779b97f4a7c15ULL + (h >> 29); return h; } };
struct CacheEnt { Res r; std::unordered_map<uint32_t, u128> m; };
static std::unordered_map<std::vector<uint32_t>, CacheEnt, VecHash> cache;

static void slice(const std::vector<const Expr *> &pc, const Expr *cond, std::vector<const Expr *> &use, std::vector<uint32_t> &syms) {
    // transitive closure over shared symbols
    std::unordered_set<uint32_t> S(symsOf(cond).begin(), symsOf(cond).end());
    std::vector<char> in(pc.size(), 0);
    bool ch = true;
    while (ch) {
        ch = false;
        for (size_t i = 0; i < pc.size(); i++) if (!in[i]) {
            auto &ss = symsOf(pc[i]); bool hit = false;
            for (auto x : ss) if (S.count(x)) { hit = true; break; }
            if (hit) { in[i] = 1; ch = true; for (auto x : ss) S.insert(x); }
        }
    }
    for (size_t i = 0; i < pc.size(); i++) if (in[i]) use.push_back(pc[i]);
    std::sort(use.begin(), use.end(), [](const Expr *a, const Expr *b) { return a->id < b->id; });
    use.erase(std::unique(use.begin(), use.end()), use.end());
    syms.assign(S.begin(), S.end()); std::sort(syms.begin(), syms.end());
}
static std::string smtText(const std::vector<const Expr *> &use, const Expr *cond) {
    Z3_solver s = Z3_mk_solver(ctx); Z3_solver_inc_ref(ctx, s);
    for (auto e : use) Z3_solver_assert(ctx, s, asBool(e));
    Z3_solver_assert(ctx, s, asBool(cond));
    std::string t = "(set-logic QF_BV)\n(set-option :produce-models true)\n"; t += Z3_solver_to_string(ctx, s); t += "(check-sat)\n";
    Z3_solver_dec_ref(ctx, s);
    return t;
}
static double incTimeout = 3; static std::atomic<double> incDeadline{0}; static bool incFired = false; static std::mutex incMutex;
void interruptOverdue() { std::lock_guard<std::mutex> g(incMutex); double d = incDeadline; if (d && now() > d) { Z3_interrupt(ctx); incFired = true; } }
 static unsigned maxLits = getenv("SYMX_LITS") ? atoi(getenv("SYMX_LITS")) : 60;
static Res portfolio(const std::vector<const Expr *> &use, const Expr *cond, const std::vector<uint32_t> &syms, std::unordered_map<uint32_t, u128> &out) {
    char dir[] = "/tmp/symxXXXXXX";
    if (!mkdtemp(dir)) return UNKNOWN;
    std::string d = dir, q = d + "/q.smt2";
    { FILE *f = fopen(q.c_str(), "w"); if (!f) return UNKNOWN;
      std::string t = smtText(use, cond); fputs(t.c_str(), f);
      fputs("(get-value (", f);
      for (auto i : syms) if (symAst.count(i)) fprintf(f, "%s ", Z3_ast_to_string(ctx, symAst[i]));
      fputs("))\n", f); fclose(f); }
    char lim[32]; snprintf(lim, sizeof lim, "%d", (int)queryTimeout + 1); char limMs[32]; snprintf(limMs, sizeof limMs, "--tlimit=%d", ((int)queryTimeout + 1) * 1000);
    std::string T = std::string("-T:") + lim;
    std::vector<std::vector<std::string>> cmds = { {"/usr/bin/z3", T, q}, {"/usr/local/bin/z3-new", T, q}, {"/usr/bin/cvc5", limMs, q} };
    std::vector<pid_t> pids; std::vector<std::string> outs;
    for (size_t i = 0; i < cmds.size(); i++) {
        std::string o = d + "/o" + std::to_string(i); outs.push_back(o);
        pid_t p = fork();
        if (p == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            int fd = open(o.c_str(), O_CREAT | O_WRONLY, 0600); dup2(fd, 1); dup2(fd, 2);
            struct rlimit rl = {(rlim_t)6 << 30, (rlim_t)6 << 30}; setrlimit(RLIMIT_AS, &rl);
            std::vector<char *> av; for (auto &x : cmds[i]) av.push_back((char *)x.c_str()); av.push_back(nullptr);
            execv(av[0], av.data()); _exit(127);
        }
        pids.push_back(p);
    }
    Res r = UNKNOWN; double t0 = now(); size_t live = pids.size();
    while (live && r == UNKNOWN) {
        bool any = false;
        for (size_t i = 0; i < pids.size(); i++) if (pids[i] > 0) {
            int st; pid_t w = waitpid(pids[i], &st, WNOHANG);
            if (w != pids[i]) continue;
            any = true; pids[i] = 0; live--;
            FILE *f = fopen(outs[i].c_str(), "r"); std::string txt; if (f) { char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) txt.append(b, n); fclose(f); }
            if (txt.compare(0, 5, "unsat") == 0) { r = UNSAT; break; }
            if (txt.compare(0, 3, "sat") == 0) {
                // values appear in the order asked for: ((name #x..) (name #b..) ...)
                size_t pos = 3; bool good = true; std::unordered_map<uint32_t, u128> m;
                for (auto k : syms) if (symAst.count(k)) {
                    std::string nm = Z3_ast_to_string(ctx, symAst[k]);
                    size_t a = txt.find("(" + nm, pos); if (a == std::string::npos) { good = false; break; }
                    a += nm.size() + 1; while (a < txt.size() && isspace(txt[a])) a++;
                    u128 v = 0;
                    if (txt.compare(a, 2, "#x") == 0) for (a += 2; isxdigit(txt[a]); a++) v = v * 16 + (isdigit(txt[a]) ? txt[a] - '0' : (txt[a] | 32) - 'a' + 10);
                    else if (txt.compare(a, 2, "#b") == 0) for (a += 2; txt[a] == '0' || txt[a] == '1'; a++) v = v * 2 + (txt[a] - '0');
                    else { good = false; break; }
                    m[k] = v; pos = a;
                }
                if (good) { r = SAT; for (auto &kv : m) out[kv.first] = kv.second; break; }
            }
        }
        if (now() - t0 > queryTimeout + 2) break;
        if (!any) usleep(2000);
    }
    for (auto p : pids) if (p > 0) { kill(p, SIGKILL); waitpid(p, nullptr, 0); }
    unlink(q.c_str()); for (auto &o : outs) unlink(o.c_str()); rmdir(d.c_str());
    return r;
}
Res solve(const std::vector<const Expr *> &pc, const V &cond, std::unordered_map<uint32_t, u128> &out, bool hard) {
    if (cond.isC()) { sstats.trivial++; return cond.c ? SAT : UNSAT; }
    init();
    std::vector<const Expr *> use; std::vector<uint32_t> syms;
    slice(pc, cond.e, use, syms);
    for (auto e : use) if (e == cond.e) { /* already implied; still need a model: pc is sat, current model works */ return SAT; }
    V nc = x_not(cond);
    for (auto e : use) if (!nc.isC() && e == nc.e) { sstats.trivial++; return UNSAT; }
    std::vector<uint32_t> key; key.reserve(use.size() + 1);
    for (auto e : use) key.push_back(e->id);
    key.push_back(cond.e->id);
    auto it = cache.find(key);
    if (it != cache.end()) { sstats.cacheHits++; for (auto &kv : it->second.m) out[kv.first] = kv.second; return it->second.r; }
    double t0 = now();
    if (!inc || lits.size() > maxLits) resetInc();
    std::vector<Z3_ast> as;
    for (auto e : use) as.push_back(litFor(e));
    as.push_back(litFor(cond.e));
    setTimeout(inc, std::min(queryTimeout, incTimeout));
    double lim = std::min(queryTimeout, incTimeout);
    incDeadline = now() + lim * 2 + 2; bool fired = false;
    Z3_lbool r = Z3_solver_check_assumptions(ctx, inc, as.size(), as.data());
    { std::lock_guard<std::mutex> g(incMutex); incDeadline = 0; fired = incFired; incFired = false; }
    CacheEnt ce;
    if (r == Z3_L_TRUE) { getModel(inc, syms, ce.m); ce.r = SAT; }
    else if (r == Z3_L_FALSE) ce.r = UNSAT;
    else {
        // portfolio of one-shot solvers on the printed problem
        sstats.fullQueries++; if (fired) resetInc();
        std::string who;
        ce.r = portfolio(use, cond.e, syms, ce.m);
        resetInc();
    }
    double dt = now() - t0;
    sstats.queries++; sstats.time += dt; sstats.maxTime = std::max(sstats.maxTime, dt);
    if (ce.r == SAT) sstats.sat++; else if (ce.r == UNSAT) sstats.unsat++; else sstats.unknown++;
    for (auto &kv : ce.m) out[kv.first] = kv.second;
    Res rr = ce.r;
    if (rr != UNKNOWN) cache[key] = std::move(ce);
    return rr;
}
void dumpSmt2(const std::vector<const Expr *> &pc, const V &cond, const std::string &path) {
    if (cond.isC()) return;
    init();
    std::vector<const Expr *> use; std::vector<uint32_t> syms;
    slice(pc, cond.e, use, syms);
    FILE *f = fopen(path.c_str(), "w");
    if (f) { fputs(smtText(use, cond.e).c_str(), f); fclose(f); }
}
