// Native side of the harness API: feeds a counterexample to the real code.
// exit 0: property held on this input; 10: assertion failed; 11: assumption not
// met (not a counterexample); anything else: crash / sanitizer report / abort.
#include "../include/sym.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <fstream>
#include <sstream>
#include <iostream>
extern "C" void harness();
static std::vector<std::vector<unsigned char>> g_in;
static std::vector<std::string> g_names;
static std::vector<int> g_params;
static size_t g_pos = 0;
static double g_tol = 1e-3;
static const std::vector<unsigned char>& next(const char* n) {
  if (g_pos >= g_in.size()) {
    // the counterexample ends before the failing point: remaining inputs are 0
    static std::vector<unsigned char> z(1 << 16, 0);
    g_pos++;
    return z;
  }
  return g_in[g_pos++];
}
extern "C" {
void sym_make(void* p, size_t n, const char* name) {
  const auto& v = next(name);
  memset(p, 0, n);
  memcpy(p, v.data(), std::min(n, v.size()));
}
void sym_assume(bool c) {
  if (!c) { printf("REPLAY assumption not met\n"); fflush(stdout); _Exit(11); }
}
void sym_assert(bool c, const char* msg) {
  if (!c) { printf("REPLAY assertion failed: %s\n", msg); fflush(stdout); _Exit(10); }
}
void sym_reach(const char* l) { printf("REACH %s\n", l); }
void sym_fail(const char* msg) { sym_assert(false, msg); }
void sym_prune() { printf("REPLAY path pruned\n"); fflush(stdout); _Exit(11); }
uint64_t sym_concretize(uint64_t v) { return v; }
int sym_choose(int lo, int hi, const char* name) {
  int v = 0;
  sym_make(&v, 4, name);
  if (v < lo || v > hi) v = lo;
  return v;
}
int sym_param(int i) { return g_params.at(i); }
bool sym_is_symbolic() { return false; }
bool sym_real_mode() { return false; }
double sym_f64(const char* name) { double d; sym_make(&d, 8, name); return d; }
float sym_f32(const char* name) { float d; sym_make(&d, 4, name); return d; }
void sym_close(double a, double b, const char* msg) {
  if (std::isnan(a) && std::isnan(b)) return;
  double s = std::max(std::max(std::fabs(a), std::fabs(b)), 1e-6);
  sym_assert(a == b || std::fabs(a - b) <= g_tol * s, msg);
}
bool sym_and(bool a, bool b) { return a && b; }
bool sym_or(bool a, bool b) { return a || b; }
uint64_t sym_ite_u64(bool c, uint64_t a, uint64_t b) { return c ? a : b; }
void sym_opaque_fmt(bool) {}
void sym_log(const char* n, uint64_t v) { printf("LOG %s = %lld\n", n, (long long)v); }
}
int main(int argc, char** argv) {
  std::ifstream f(argv[1]);
  std::string line;
  while (std::getline(f, line)) {
    if (line.empty() || line[0] == '#') continue;
    std::istringstream s(line);
    std::string k;
    s >> k;
    if (k == "param") { int v; s >> v; g_params.push_back(v); continue; }
    if (k != "in") continue;
    std::string rest = line.substr(3);
    // name may contain blanks: hex data is the last token before " # "
    auto h = rest.find(" # ");
    if (h != std::string::npos) rest = rest.substr(0, h);
    auto p = rest.rfind(' ');
    std::string hex = rest.substr(p + 1);
    std::vector<unsigned char> b;
    if (hex != "-")
      for (size_t i = 0; i + 1 < hex.size(); i += 2) b.push_back((unsigned char)strtol(hex.substr(i, 2).c_str(), nullptr, 16));
    g_in.push_back(b);
    g_names.push_back(rest.substr(0, p));
  }
  if (getenv("REPLAY_TOL")) g_tol = atof(getenv("REPLAY_TOL"));
  harness();
  printf("REPLAY ok\n");
  fflush(stdout);
  return 0;
}
