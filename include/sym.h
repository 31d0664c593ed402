// Harness API. Under the symbolic engine these are builtins; natively (replay of
// a counterexample against the real code) they are provided by replay/replay.cc.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
extern "C" {
void sym_make(void* p, size_t n, const char* name);
void sym_assume(bool c);
void sym_assert(bool c, const char* msg);
void sym_reach(const char* label);
void sym_fail(const char* msg);
[[noreturn]] void sym_prune();
uint64_t sym_concretize(uint64_t v);
int sym_choose(int lo, int hi, const char* name);
int sym_param(int i);
bool sym_is_symbolic();
bool sym_real_mode();
double sym_f64(const char* name);
float sym_f32(const char* name);
void sym_close(double a, double b, const char* msg);
bool sym_and(bool a, bool b);  // non-forking conjunction
bool sym_or(bool a, bool b);
uint64_t sym_ite_u64(bool c, uint64_t a, uint64_t b);
void sym_opaque_fmt(bool on);  // decimal text of symbolic values is opaque
void sym_log(const char* n, uint64_t v);
}
template <typename T>
inline T sym(const char* name) {
  T v;
  sym_make(&v, sizeof(T), name);
  return v;
}
