// Common support for the enumeration harnesses: violation reporting, outcome counting,
// crash attribution.  Output protocol (stdout): "V <key>\t<detail>", "S <sample>",
// "O <outcome>\t<count>", "N <name> <number>", "DONE".
#pragma once
#include <execinfo.h>
#include <signal.h>
#include <unistd.h>

#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace vh {
inline char g_key[4096];
inline std::map<std::string, long> g_out;
inline long g_viol = 0, g_samples = 0;
inline std::map<std::string, double> g_num;

inline std::string esc(const std::string& s) {
  std::string r;
  char b[8];
  for (unsigned char c : s) {
    if (c < 32 || c > 126) { snprintf(b, 8, "\\x%02x", c); r += b; } else r += c;
  }
  return r;
}
inline void set_key(const std::string& k) {
  size_t n = std::min(k.size(), sizeof(g_key) - 1);
  memcpy(g_key, k.data(), n);
  g_key[n] = 0;
}
inline void on_sig(int s) {
  char b[64];
  int n = snprintf(b, 64, "\nCRASH %d ", s);
  (void)!write(1, b, n);
  (void)!write(1, g_key, strlen(g_key));
  (void)!write(1, "\n", 1);
  signal(s, SIG_DFL);
  raise(s);
}
inline void init() {
  setvbuf(stdout, nullptr, _IOLBF, 0);
  for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM}) signal(s, on_sig);
  set_key("startup");
}
inline void fail(const std::string& key, const std::string& detail) {
  if (++g_viol <= 40) printf("V %s\t%s\n", esc(key).c_str(), esc(detail).c_str());
}
inline bool expect(bool c, const std::string& key, const std::string& detail) {
  if (!c) fail(key, detail);
  return c;
}
inline void outcome(const std::string& o) { g_out[o]++; }
inline void sample(const std::string& s) {
  if (g_samples++ < 8) printf("S %s\n", esc(s).c_str());
}
inline void num(const std::string& n, double v) { g_num[n] = v; }
inline int done() {
  for (auto& [k, v] : g_out) printf("O %s\t%ld\n", esc(k).c_str(), v);
  for (auto& [k, v] : g_num) printf("N %s %.17g\n", k.c_str(), v);
  printf("DONE\n");
  fflush(stdout);
  return 0;
}
template <typename T>
std::string str(const T& v) {
  std::ostringstream o;
  o.precision(17);
  o << v;
  return o.str();
}
inline bool close(double a, double b, double rtol, double atol = 0) {
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  if (a == b) return true;
  return std::abs(a - b) <= atol + rtol * std::max(std::abs(a), std::abs(b));
}
inline bool same_bits(double a, double b) {
  return memcmp(&a, &b, 8) == 0 || (std::isnan(a) && std::isnan(b));
}
}  // namespace vh
