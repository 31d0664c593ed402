// C05/C06: expansion of ranges, repetitions and array strings.
#include "util.h"
#include "common/StringTools.h"
using namespace dp3::common;
static std::string dec(long v, int w) {
  std::string s;
  do { s.insert(s.begin(), char('0' + v % 10)); v /= 10; } while (v);
  while ((int)s.size() < w) s.insert(s.begin(), '0');
  return s;
}
static std::string digits(const char* nm, int n) {
  std::string d = symstr(nm, n);
  for (char& c : d) { sym_assume(is_dig(c)); c = (char)sym_concretize((unsigned char)c); }
  return d;
}
static long val(const std::string& d) { long v = 0; for (char c : d) v = v * 10 + (c - '0'); return v; }
// characters that may be part of a range prefix or suffix and carry no syntax
static std::string plain(const char* nm, int n) {
  std::string s = symstr(nm, n);
  for (char c : s)
    sym_assume(sym_or(sym_and(c >= 'A', c <= 'Z'), sym_or(sym_and(c >= 'a', c <= 'z'), sym_or(c == '_', c == '-'))));
  return s;
}
// param: 0 case
static void range() {
  const int na = sym_param(1), nb = sym_param(2), np = sym_param(3), ns = sym_param(4), form = sym_param(5), fn = sym_param(6);
  const std::string a = digits("a", na), b = digits("b", nb), pre = plain("pre", np), suf = plain("suf", ns);
  const long x = val(a), y = val(b);
  sym_assume((x < y ? y - x : x - y) <= 11);
  std::string in, want;
  const std::string open = form == 1 ? "{" : "", close = form == 1 ? "}" : "";
  in = pre + open + a + (form == 3 ? " .. " : "..") + (form == 2 ? pre : "") + b + close + suf;
  for (long v = x;; v += x <= y ? 1 : -1) {
    want += pre + dec(v, na) + suf;
    if (v == y) break;
    want += ",";
  }
  std::string got;
  if (fn == 0) {
    got = expandRangeString(in);
  } else if (fn == 1) {  // embedded between other elements
    got = expandRangeString("[q, " + in + ",'1..3' ," + in + "]");
    want = "[q, " + want + ",'1..3' ," + want + "]";
  } else {
    got = expandArrayString(" [" + in + "] ");
    want = " [" + want + "] ";
  }
  sym_assert_streq(got, want, "range expands to the full series");
  sym_reach(x <= y ? "ascending" : "descending");
}
// arbitrary text over the syntax characters: terminates, and text without
// an expandable range is returned unchanged
static void rangeAny() {
  const int n = sym_param(1);
  const std::string s = symstr_of("s", n, sym_param(2) ? "05.ax'" : "1.{},a[");
  bool unb = false, dots = false;
  for (size_t i = 0; i < s.size(); ++i) {
    if (s[i] == '\'') {
      size_t e = i + 1;
      while (e < s.size() && s[e] != '\'') ++e;
      if (e == s.size()) { if (i + 1 < s.size()) unb = true; break; }
      i = e;
    } else if (i > 0 && i + 2 < s.size() && s[i] == '.' && s[i + 1] == '.' && is_dig(s[i - 1]))
      dots = true;
  }
  try {
    const std::string r = expandRangeString(s);
    if (!dots) { sym_assert_streq(r, s, "text without a range is unchanged"); sym_reach("unchanged"); }
    sym_assert(!unb || dots, "unterminated quote is rejected");
    sym_reach("done");
  } catch (std::runtime_error&) {
    sym_assert(unb || dots, "only an unterminated quote is an error");
    sym_reach("error");
  }
}
// limits of the number type
static void rangeLimit() {
  const std::string d = digits("d", 1);
  const int top = sym_param(1);
  static const char* const pre[] = {"214748364", "99999999", "00"};
  const std::string hi = pre[top] + d;
  sym_assume(top != 0 || d[0] <= '7');
  sym_assume(d[0] != '0');
  const long h = val(hi);
  const int w = hi.size();
  const bool down = sym_choose(0, 1, "down");
  std::string lo = dec(h - 1, w);
  std::string got = expandRangeString(down ? hi + ".." + lo : lo + ".." + hi);
  sym_assert_streq(got, down ? hi + "," + lo : lo + "," + hi, "range at the limit of the number type");
  sym_reach("limit");
}
static void mult() {
  const int nd = sym_param(1), nv = sym_param(2), form = sym_param(3), fn = sym_param(4);
  const std::string d = digits("d", nd);
  const long k = val(d);
  sym_assume(k <= 5);
  const std::string v = plain("v", nv);
  std::string in, el = v, tail;
  switch (form) {
    case 0: in = d + "*" + v; break;
    case 1: in = d + " * " + v; break;
    case 2: in = d + "*(" + v + ";x)"; el = v + ",x"; break;
    case 3: in = d + "*[" + v + ",x]"; el = "[" + v + ",x]"; break;
    case 4: in = d + "*'" + v + ",]'"; el = "'" + v + ",]'"; break;
    case 5: in = d + "*(2*" + v + ")"; el = v + "," + v; break;
    case 6: in = d + "*(';';" + v + ")"; el = "';'," + v; break;
    case 7: in = d + "*2*" + v; el = v + "," + v; break;
  }
  std::string want;
  for (long i = 0; i < k; ++i) want += (i ? "," : "") + el;
  std::string got;
  if (fn == 0) got = expandMultString(in);
  else if (fn == 1) { got = expandMultString("[y, " + in + ",'3*4'," + in + "]"); want = "[y, " + want + ",'3*4'," + want + "]"; }
  else { got = expandArrayString("[" + in + "]"); want = "[" + want + "]"; }
  sym_assert_streq(got, want, "repetition expands to exactly that many copies");
  sym_reach(k == 0 ? "zero" : "copies");
}
static void multAny() {
  const int n = sym_param(1);
  const std::string s = symstr_of("s", n, sym_param(2) ? "2*a'," : "1*([])");
  bool star = false, special = false;
  for (size_t i = 0; i < s.size(); ++i) {
    star = sym_or(star, s[i] == '*');
    special = sym_or(special, s[i] == '\'');
  }
  try {
    const std::string r = expandMultString(s);
    if (!star) { sym_assert_streq(r, s, "text without a repetition is unchanged"); sym_reach("unchanged"); }
    sym_reach("done");
  } catch (std::runtime_error&) {
    sym_assert(star || special, "no error without quotes or repetitions");
    sym_reach("error");
  }
}
// a range inside a repetition: repetitions are expanded first
static void both() {
  const std::string d = digits("d", 1), a = digits("a", 1), b = digits("b", 1);
  const long k = val(d), x = val(a), y = val(b);
  sym_assume(k >= 1 && k <= 3);
  sym_assume((x < y ? y - x : x - y) <= 2);
  const int form = sym_param(1);
  const std::string in = form == 0 ? d + "*" + a + ".." + b : form == 1 ? d + "*(" + a + ".." + b + ")" : d + "*(s" + a + ".." + b + "t;z)";
  std::string el;
  for (long v = x;; v += x <= y ? 1 : -1) {
    el += form == 2 ? "s" + dec(v, 1) + "t" : dec(v, 1);
    if (v == y) break;
    el += ",";
  }
  if (form == 2) el += ",z";
  std::string want = "[";
  for (long i = 0; i < k; ++i) want += (i ? "," : "") + el;
  sym_assert_streq(expandArrayString("[" + in + "]"), want + "]", "repeated range");
  // not in brackets: unchanged
  sym_assert_streq(expandArrayString(in), in, "only bracketed text is expanded");
  sym_reach("both");
}
extern "C" void harness() {
  sym_opaque_fmt(true);
  switch (sym_param(0)) {
    case 0: range(); break;
    case 1: rangeAny(); break;
    case 2: rangeLimit(); break;
    case 3: mult(); break;
    case 4: multAny(); break;
    case 5: both(); break;
  }
}
