// C library pieces the code under test calls, for the symbolic build.
#include <stddef.h>
#include <stdint.h>
#include <limits.h>
static int the_errno;
int *__errno_location(void) { return &the_errno; }
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
int memcmp(const void *a, const void *b, size_t n) { const unsigned char *x = (const unsigned char *)a, *y = (const unsigned char *)b; int r = 0; for (size_t i = 0; i < n; i++) { int d = (int)x[i] - (int)y[i]; r = r ? r : d; } return r; }
int bcmp(const void *a, const void *b, size_t n) { return memcmp(a, b, n); }
void *memchr(const void *a, int c, size_t n) { const unsigned char *x = (const unsigned char *)a; for (size_t i = 0; i < n; i++) if (x[i] == (unsigned char)c) return (void *)(x + i); return 0; }
int strcmp(const char *a, const char *b) { for (;; a++, b++) { if (*a != *b) return (unsigned char)*a - (unsigned char)*b; if (!*a) return 0; } }
int strncmp(const char *a, const char *b, size_t n) { for (; n; a++, b++, n--) { if (*a != *b) return (unsigned char)*a - (unsigned char)*b; if (!*a) return 0; } return 0; }
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) {} return r; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
char *strrchr(const char *s, int c) { const char *r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static int dig(int c) { if (c >= '0' && c <= '9') return c - '0'; if (c >= 'a' && c <= 'z') return c - 'a' + 10; if (c >= 'A' && c <= 'Z') return c - 'A' + 10; return 99; }
static unsigned long conv(const char *s, char **e, int base, int sgn) {
    const char *p = s; while (isspace(*p)) p++;
    int neg = 0; if (*p == '-') { neg = 1; p++; } else if (*p == '+') p++;
    if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && dig(p[2]) < 16) { p += 2; base = 16; }
    else if (base == 0) base = p[0] == '0' ? 8 : 10;
    const char *st = p; unsigned long v = 0; int ov = 0;
    unsigned long lim = ULONG_MAX / base, lim1 = ULONG_MAX % base;
    for (; dig(*p) < base; p++) { unsigned long d = dig(*p); if (v > lim || (v == lim && d > lim1)) ov = 1; v = v * base + d; }
    if (e) *e = (char *)(p == st ? s : p);
    if (sgn) {
        if (ov || v > (unsigned long)LONG_MAX + neg) { the_errno = 34; return neg ? (unsigned long)LONG_MIN : LONG_MAX; }
        return neg ? -v : v;
    }
    if (ov) { the_errno = 34; return ULONG_MAX; }
    return neg ? -v : v;
}
long strtol(const char *s, char **e, int b) { return (long)conv(s, e, b, 1); }
long long strtoll(const char *s, char **e, int b) { return (long long)conv(s, e, b, 1); }
unsigned long strtoul(const char *s, char **e, int b) { return conv(s, e, b, 0); }
unsigned long long strtoull(const char *s, char **e, int b) { return conv(s, e, b, 0); }
long __isoc23_strtol(const char *s, char **e, int b) { return (long)conv(s, e, b, 1); }
long long __isoc23_strtoll(const char *s, char **e, int b) { return (long long)conv(s, e, b, 1); }
unsigned long __isoc23_strtoul(const char *s, char **e, int b) { return conv(s, e, b, 0); }
unsigned long long __isoc23_strtoull(const char *s, char **e, int b) { return conv(s, e, b, 0); }
int atoi(const char *s) { return (int)conv(s, 0, 10, 1); }
// std::__cow_string inside the standard exceptions: message text is not modelled
void _ZNSt12__cow_stringC1Ev(void **p) { *p = 0; }
void _ZNSt12__cow_stringC2Ev(void **p) { *p = 0; }
void _ZNSt12__cow_stringC1EPKcm(void **p, const char *s, size_t n) { *p = 0; }
void _ZNSt12__cow_stringC1ERKS_(void **p, void *o) { *p = 0; }
void _ZNSt12__cow_stringC1EOS_(void **p, void *o) { *p = 0; }
void _ZNSt12__cow_stringD1Ev(void **p) {}
void _ZNSt12__cow_stringD2Ev(void **p) {}
void *_ZNSt12__cow_stringaSERKS_(void *p, void *o) { return p; }
// formatted output to memory: integers, characters, strings and pointers-free conversions only
#include <stdarg.h>
struct sink { char *d; size_t n, at; };
static void emit(struct sink *o, char c) { if (o->at + 1 < o->n) o->d[o->at] = c; o->at++; }
void sym_unmodelled_format(void);
int vsnprintf(char *d, size_t n, const char *f, va_list ap) {
    struct sink o = {d, n, 0};
    for (; *f; f++) {
        if (*f != '%') { emit(&o, *f); continue; }
        f++; if (*f == '%') { emit(&o, '%'); continue; }
        int left = 0, zero = 0, alt = 0, plus = 0, blank = 0, width = 0, prec = -1, len = 4;
        for (;; f++) { if (*f == '-') left = 1; else if (*f == '0') zero = 1; else if (*f == '#') alt = 1; else if (*f == '+') plus = 1; else if (*f == ' ') blank = 1; else break; }
        if (*f == '*') { width = va_arg(ap, int); f++; if (width < 0) { left = 1; width = -width; } } else while (isdigit(*f)) width = width * 10 + (*f++ - '0');
        if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (isdigit(*f)) prec = prec * 10 + (*f++ - '0'); }
        if (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't') { len = 8; f++; if (*f == 'l') f++; } else if (*f == 'h') { len = 2; f++; if (*f == 'h') { len = 1; f++; } }
        char t[32]; int k = 0, c = *f; const char *s = 0; int sl = 0;
        if (c == 'c') { t[0] = (char)va_arg(ap, int); s = t; sl = 1; zero = 0; k = -1; }
        else if (c == 's') { s = va_arg(ap, const char *); while ((prec < 0 || sl < prec) && s[sl]) sl++; zero = 0; k = -1; }
        if (k == -1) { if (!left) for (int i = sl; i < width; i++) emit(&o, ' '); for (int i = 0; i < sl; i++) emit(&o, s[i]); if (left) for (int i = sl; i < width; i++) emit(&o, ' '); continue; }
        if (c != 'd' && c != 'i' && c != 'u' && c != 'x' && c != 'X' && c != 'o') sym_unmodelled_format();
        unsigned long v; int sgn = c == 'd' || c == 'i'; char pre = 0;
        if (len == 8) v = va_arg(ap, unsigned long); else { v = va_arg(ap, unsigned); if (sgn) v = len == 4 ? (unsigned long)(int)v : len == 2 ? (unsigned long)(short)v : (unsigned long)(signed char)v; else if (len < 4) v &= (1ul << (8 * len)) - 1; }
        if (sgn) { if ((long)v < 0) { pre = '-'; v = -v; } else if (plus) pre = '+'; else if (blank) pre = ' '; }
        if (alt && c == 'o') sym_unmodelled_format();
        int hex = c == 'x' || c == 'X', full = 2 * len, min = prec >= 0 ? prec : zero && !left ? width - (pre != 0) : 1;
        if (alt && hex && v != 0) { pre = c == 'x' ? 'x' : 'X'; if (prec < 0 && zero && !left) min = width - 2; }
        // t: least significant digit first; the number of digits is fixed when padding covers the type
        if (hex && min >= full) { for (; k < full; k++) { int q = (int)((v >> (4 * k)) & 15); t[k] = (char)(q < 10 ? '0' + q : (c == 'x' ? 'a' : 'A') + q - 10); } }
        else if (hex) { while (v) { int q = (int)(v & 15); t[k++] = (char)(q < 10 ? '0' + q : (c == 'x' ? 'a' : 'A') + q - 10); v >>= 4; } }
        else { unsigned long b = c == 'o' ? 8 : 10; while (v) { t[k++] = (char)('0' + v % b); v /= b; } }
        int nd = k > min ? k : min, tot = nd + (pre ? (pre == 'x' || pre == 'X' ? 2 : 1) : 0);
        if (!left) for (int i = tot; i < width; i++) emit(&o, ' ');
        if (pre == 'x' || pre == 'X') { emit(&o, '0'); emit(&o, pre); } else if (pre) emit(&o, pre);
        for (int i = nd - 1; i >= 0; i--) emit(&o, i < k ? t[i] : '0');
        if (left) for (int i = tot; i < width; i++) emit(&o, ' ');
    }
    if (n) d[o.at < n ? o.at : n - 1] = 0;
    return (int)o.at;
}
int snprintf(char *d, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(d, n, f, ap); va_end(ap); return r; }
int sprintf(char *d, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(d, (size_t)1 << 40, f, ap); va_end(ap); return r; }
int printf(const char *f, ...) { return 0; }
int fprintf(void *o, const char *f, ...) { return 0; }
int puts(const char *s) { return 0; }
int putchar(int c) { return c; }
int fputs(const char *s, void *o) { return 0; }
int fputc(int c, void *o) { return c; }
int putc(int c, void *o) { return c; }
unsigned long fwrite(const void *p, unsigned long a, unsigned long b, void *o) { return b; }
int fflush(void *o) { return 0; }
#include <time.h>
time_t time(time_t *t) { if (t) *t = 0; return 0; }
char *ctime(const time_t *t) { static char s[] = "Thu Jan  1 00:00:00 1970\n"; return s; }
#include <unistd.h>
#include <getopt.h>
int getpid(void) { return 4242; }
// getopt_long of glibc: operands are moved behind the options, long names may be abbreviated
char *optarg; int optind = 1, opterr = 1, optopt = '?'; static int optat = 1;
static void rotate(char **v, int dst, int src) { char *t = v[src]; for (int i = src; i > dst; i--) v[i] = v[i - 1]; v[dst] = t; }
static int one_short(int argc, char **argv, const char *os) {
    char c = argv[optind][optat++]; const char *q = 0; int end = !argv[optind][optat];
    for (const char *s = os; *s; s++) if (c != ':' && *s == c) { q = s; break; }
    if (!q) { optopt = c; if (end) { optind++; optat = 1; } return '?'; }
    if (q[1] == ':') {
        if (!end) { optarg = argv[optind] + optat; optind++; optat = 1; }
        else if (q[2] == ':') { optarg = 0; optind++; optat = 1; }
        else { optind++; optat = 1; if (optind >= argc) { optopt = c; return os[0] == ':' ? ':' : '?'; } optarg = argv[optind++]; }
    } else if (end) { optind++; optat = 1; }
    return c;
}
static int one_long(int argc, char **argv, const struct option *lo, int *ix) {
    const char *a = argv[optind] + 2; size_t n = 0; while (a[n] && a[n] != '=') n++;
    int hit = -1, many = 0;
    for (int i = 0; lo[i].name; i++) if (!strncmp(lo[i].name, a, n)) { if (strlen(lo[i].name) == n) { hit = i; many = 0; break; } if (hit >= 0 && (lo[hit].val != lo[i].val || lo[hit].has_arg != lo[i].has_arg)) many = 1; else if (hit < 0) hit = i; }
    optind++;
    if (hit < 0 || many) { optopt = 0; return '?'; }
    optopt = lo[hit].val;
    if (a[n] == '=') { if (!lo[hit].has_arg) return '?'; optarg = (char *)a + n + 1; }
    else if (lo[hit].has_arg == required_argument) { if (optind >= argc) return '?'; optarg = argv[optind++]; }
    if (ix) *ix = hit;
    if (lo[hit].flag) { *lo[hit].flag = lo[hit].val; return 0; }
    return lo[hit].val;
}
int getopt_long(int argc, char *const *cargv, const char *os, const struct option *lo, int *ix) {
    char **argv = (char **)cargv; optarg = 0;
    if (optind == 0) { optind = 1; optat = 1; }
    int skipped = optind, i = optind;
    if (optat == 1) {
        for (;; i++) { if (i >= argc || !argv[i]) return -1; if (argv[i][0] == '-' && argv[i][1]) break; }
        if (argv[i][1] == '-' && !argv[i][2]) { rotate(argv, skipped, i); optind = skipped + 1; return -1; }
    }
    optind = i; int r = optat == 1 && argv[i][1] == '-' ? one_long(argc, argv, lo, ix) : one_short(argc, argv, os);
    if (i > skipped) { int cnt = optind - i; for (int k = 0; k < cnt; k++) rotate(argv, skipped, optind - 1); optind = skipped + cnt; }
    return r;
}
int getopt(int argc, char *const *argv, const char *os) { static const struct option none[1]; return getopt_long(argc, argv, os, none, 0); }
