// Harness interface; the symbolic executor and native.cpp both implement it.
#ifndef SYM_H
#define SYM_H
#include <stdint.h>
extern "C" {
uint64_t sym_bits(const char *name, int width);      // fresh input of the given width
void sym_assume(bool c);
void sym_assert(bool c, const char *label);
void sym_reach(const char *label);                   // reachability witness
void sym_observe(const char *label, uint64_t v);     // value compared between engine and native run
uint64_t sym_concretize(uint64_t v);                 // case split on the value
long sym_config(const char *name, long dflt);        // bound, fixed per run
void sym_nomerge(int on);
int sym_symbolic(void);
void sym_fail(const char *label) __attribute__((noreturn));
void sym_done(void) __attribute__((noreturn));
void sym_allow_exit(int on);
void sym_dump(const char *label, uint64_t v);
}
static inline uint8_t sym_u8(const char *n) { return (uint8_t)sym_bits(n, 8); }
static inline uint16_t sym_u16(const char *n) { return (uint16_t)sym_bits(n, 16); }
static inline uint32_t sym_u32(const char *n) { return (uint32_t)sym_bits(n, 32); }
static inline uint64_t sym_u64(const char *n) { return sym_bits(n, 64); }
static inline bool sym_bool(const char *n) { return sym_bits(n, 1) != 0; }
static inline unsigned sym_choice(const char *n, unsigned k) { int w = 1; while ((1u << w) < k) w++; uint64_t v = k <= 1 ? 0 : sym_bits(n, w); sym_assume(v < k); return (unsigned)sym_concretize(v); }
#ifdef __cplusplus
#include <new>
#include <stddef.h>
// storage whose bytes are arbitrary inputs before an object is constructed in it
template <class T> struct SymStorage {
    alignas(T) unsigned char b[sizeof(T)];
    SymStorage(const char *n) { for (size_t i = 0; i < sizeof(T); i += 8) { uint64_t v = sym_bits(n, 64); for (size_t j = 0; j < 8 && i + j < sizeof(T); j++) b[i + j] = (unsigned char)(v >> (8 * j)); } }
    void *p() { return b; }
};
#endif
#endif
