// C03: text to floating point and boolean.
#include "util.h"
#include <cmath>
#include "common/StringTools.h"
using namespace dp3::common;
// Reference grammar (C locale strtod): optional leading blanks, sign, decimal
// number / hexadecimal number / inf / infinity / nan, then only blanks.
static char low(char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static bool word(const std::string& s, size_t b, size_t e, const char* w) {
  size_t n = strlen(w);
  if (e - b != n) return false;
  for (size_t i = 0; i < n; ++i) if (low(s[b + i]) != w[i]) return false;
  return true;
}
static bool isx(char c) { return is_dig(c) || (low(c) >= 'a' && low(c) <= 'f'); }
static bool grammar(const std::string& s, bool& blank) {
  size_t b = 0, e = s.size();
  while (b < e && is_ws(s[b])) ++b;
  while (e > b && is_ws(s[e - 1])) --e;
  blank = b == e;
  if (blank) return true;
  if (s[b] == '+' || s[b] == '-') ++b;
  if (word(s, b, e, "inf") || word(s, b, e, "infinity") || word(s, b, e, "nan")) return true;
  size_t i = b, nd = 0;
  if (e - b >= 3 && s[b] == '0' && low(s[b + 1]) == 'x') {
    i = b + 2;
    while (i < e && isx(s[i])) { ++i; ++nd; }
    if (i < e && s[i] == '.') { ++i; while (i < e && isx(s[i])) { ++i; ++nd; } }
    if (!nd) return false;
    if (i < e && low(s[i]) == 'p') {
      ++i;
      if (i < e && (s[i] == '+' || s[i] == '-')) ++i;
      size_t k = i;
      while (i < e && is_dig(s[i])) ++i;
      if (k == i) return false;
    }
    return i == e;
  }
  while (i < e && is_dig(s[i])) { ++i; ++nd; }
  if (i < e && s[i] == '.') { ++i; while (i < e && is_dig(s[i])) { ++i; ++nd; } }
  if (!nd) return false;
  if (i < e && low(s[i]) == 'e') {
    ++i;
    if (i < e && (s[i] == '+' || s[i] == '-')) ++i;
    size_t k = i;
    while (i < e && is_dig(s[i])) ++i;
    if (k == i) return false;
  }
  return i == e;
}
template <typename T>
static void run(T (*f)(const std::string&)) {
  const int mode = sym_param(1), n = sym_param(2);
  if (mode == 0) {  // arbitrary bytes: accepted iff the whole text is a number
    const std::string s = symstr("s", n);
    // bound: no two-digit exponents (range limits are mode 2)
    if (n >= 4) for (int i = 1; i + 2 < n; ++i) sym_assume(low(s[i]) != 'e');
    bool blank, ok = grammar(s, blank), threw = false;
    try { f(s); } catch (std::runtime_error&) { threw = true; }
    if (blank) return;
    if (ok) { sym_assert(!threw, "number accepted"); sym_reach("ok"); }
    else { sym_assert(threw, "text that is not entirely a number is rejected"); sym_reach("bad"); }
  } else if (mode == 1) {  // value
    static const char* const ex[] = {"", "e2", "E-3", "e+1", "e15", "e-15"};
    static const int p10[] = {0, 2, -3, 1, 15, -15};
    const int x = sym_param(3);
    const int sg = sym_choose(0, 2, "sign"), form = sym_choose(0, 2, "form");
    std::string d = symstr("d", n);
    for (char& c : d) sym_assume(is_dig(c));
    std::string s = sg == 0 ? " " : sg == 1 ? "-" : "\t+";
    // form 0: ddd   1: dd.d   2: .ddd
    const int frac = form == 0 ? 0 : form == 1 ? 1 : n;
    s += d.substr(0, n - frac);
    if (form) s += '.';
    s += d.substr(n - frac) + ex[x] + " ";
    uint64_t m = 0;
    for (char c : d) m = m * 10 + (c - '0');
    

    // one correctly rounded operation on exactly representable operands
    double sc = 1.0;
    const int e10 = p10[x] - frac;
    for (int i = 0; i < (e10 < 0 ? -e10 : e10); ++i) sc *= 10.0;
    double want = e10 < 0 ? double(m) / sc : double(m) * sc;
    if (sg == 1) want = -want;
    try {
      T got = f(s);
      sym_assert(got == T(want), "value of the number");
      sym_assert(std::signbit(got) == (sg == 1), "sign of the number");
      sym_reach("value");
    } catch (std::runtime_error&) {
      sym_fail("number in range rejected");
    }
  } else {  // range limits: d.ddE+-xx
    static const char* const ex[] = {"e308", "e38", "e309", "e39", "e-308", "e-37", "e-39", "e-330", "e400"};
    const int x = sym_param(3);
    std::string d = symstr("d", 2);
    for (char& c : d) { sym_assume(is_dig(c)); c = (char)sym_concretize((unsigned char)c); }
    sym_assume(d[0] != '0');
    std::string s = d.substr(0, 1) + "." + d.substr(1) + ex[x];
    const double m = (d[0] - '0') + (d[1] - '0') / 10.0;
    bool ok;
    if (sizeof(T) == 8) ok = x == 0 ? m < 1.75 : x == 4 ? m > 2.25 : (x == 2 || x == 7 || x == 8) ? false : true;
    else ok = x == 1 ? m < 3.41 : x == 5;
    bool threw = false;
    try { f(s); } catch (std::runtime_error&) { threw = true; }
    sym_assert(threw == !ok, "values outside the range of the type are rejected");
    sym_reach(ok ? "inrange" : "outofrange");
  }
}
static void boolean() {
  const int n = sym_param(2);
  const std::string s = symstr("s", n);
  const char c = n ? s[0] : '\0';
  const char l = low(c);
  const bool t = l == 't' || l == 'y' || c == '1', f = l == 'f' || l == 'n' || c == '0';
  bool threw = false, got = false;
  try { got = strToBool(s); } catch (std::runtime_error&) { threw = true; }
  if (t) { sym_assert(!threw && got, "true"); sym_reach("true"); }
  else if (f) { sym_assert(!threw && !got, "false"); sym_reach("false"); }
  else { sym_assert(threw, "text that is no boolean is rejected"); sym_reach("nobool"); }
}
extern "C" void harness() {
  sym_opaque_fmt(true);
  if (sym_param(0) == 0) run<double>(strToDouble);
  else if (sym_param(0) == 1) run<float>(strToFloat);
  else boolean();
}
