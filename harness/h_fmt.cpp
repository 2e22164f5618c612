// Self-test of the text model: run with VERIF_MODELTEST=1 runner.py X01; the native replay compares every character.
#include <sstream>
#include <iomanip>
#include <iostream>
#include <cstdio>
#include "sym.h"
static void obs(const char *l, const std::string &s) { sym_observe(l, s.size()); for (size_t i = 0; i < s.size(); i++) sym_observe(l, (unsigned char)s[i]); }
extern "C" void harness_main() {
  uint32_t x = sym_u32("x"); uint64_t y = sym_u64("y"); sym_assume(y < 100000); 
  char b[100]; std::string r;
#define F(...) { int n = snprintf(b, sizeof b, __VA_ARGS__); sym_observe("n", n); obs("f", b); }
  F("%08x,%016lx,%d", x, (unsigned long)x << 7, 5) F("%*d|%-5u|%05d|%+d|%x", 7, -42, 33u, -12, 9, 0) F("%#x %#010x %X %c %s %.3s|%6s|%-6s|%%", 255, 254, 0xabc, 'q', "hello", "world", "ab", "cd") F("%hhu %hu %lld %zu %o %.5d %5.3u %.0d", 300, 70000, -5LL, (size_t)7, 8, 42, 7, 0) F("%lu", (unsigned long)(y & 7))
  { char s[4]; int n = snprintf(s, 4, "abcdef%d", 1); sym_observe("t", n); obs("s", s); }
  std::ostringstream o; o << std::hex << std::setw(8) << std::setfill('0') << x << ","; o.width(4); o << 5 << std::dec << 17 << std::showbase << std::hex << 31 << ' ' << std::uppercase << 0xab << std::nouppercase << std::noshowbase; o.setf(std::ios::dec, std::ios::basefield); o << 99 << std::left << std::setw(6) << "ab" << std::setw(4) << 7 << std::right << std::setw(4) << 8; o.fill('*'); o << std::setw(3) << 'c' << std::oct << 64; o.put('!'); o.write("xyz", 2); obs("o", o.str());
  std::istringstream i(std::string("12 ab\nline two\n\nq")); int k; i >> k; std::string w; i >> w; i.ignore(); std::string l; std::getline(i, l); obs("l", l); std::getline(i, l); obs("l2", l); char c = 0; i.get(c); sym_observe("c", c); sym_observe("g", i.get()); sym_observe("fail", i.fail());
  sym_reach("fmt");
}
