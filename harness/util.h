#pragma once
#include <string>
#include <vector>
#include <stdexcept>
#include "sym.h"
// string of n symbolic characters (n concrete)
inline std::string symstr(const char* name, size_t n) {
  std::string s(n, '\0');
  for (size_t i = 0; i < n; ++i) sym_make(&s[i], 1, name);
  return s;
}
// n symbolic characters, each one of the given alphabet
inline std::string symstr_of(const char* name, size_t n, const char* alphabet) {
  std::string s = symstr(name, n);
  for (size_t i = 0; i < n; ++i) {
    bool ok = false;
    for (const char* a = alphabet; *a; ++a) ok = sym_or(ok, s[i] == *a);
    sym_assume(ok);
  }
  return s;
}
inline void sym_assert_streq(const std::string& a, const std::string& b, const char* msg) {
  sym_assert(a.size() == b.size(), msg);
  bool eq = a.size() == b.size();
  for (size_t i = 0; eq && i < a.size(); ++i) sym_assert(a[i] == b[i], msg);
}
inline bool is_ws(char c) { return sym_or(c == ' ', sym_and(c >= 9, c <= 13)); }
inline bool is_dig(char c) { return sym_and(c >= '0', c <= '9'); }
