// C04: lexical helpers (blank trimming, quotes, balanced brackets, tokens, ordering).
#include "util.h"
#include "common/StringTools.h"
using namespace dp3::common;
static void ws() {
  const int n = sym_param(1);
  const std::string s = symstr("s", n);
  const unsigned st = sym_choose(0, n, "st"), end = sym_choose(st, n, "end");
  if (st > end) return;
  const unsigned l = lskipws(s, st, end), r = rskipws(s, st, end);
  sym_assert(l >= st && l <= end, "lskipws in range");
  sym_assert(r >= st && r <= end, "rskipws in range");
  for (unsigned i = st; i < l; ++i) sym_assert(is_ws(s[i]), "only blanks are skipped at the front");
  if (l < end) sym_assert(!is_ws(s[l]), "front skipping stops at the first non-blank");
  for (unsigned i = r; i < end; ++i) sym_assert(is_ws(s[i]), "only blanks are skipped at the back");
  if (r > st) sym_assert(!is_ws(s[r - 1]), "back skipping stops at the last non-blank");
  sym_reach("ws");
}
static void quoted() {
  const int n = sym_param(1);
  const std::string s = symstr("s", n);
  const unsigned st = sym_choose(0, n - 1, "st");
  size_t want = std::string::npos;
  for (int i = n - 1; i > (int)st; --i) if (s[i] == s[st]) want = i;
  try {
    unsigned g = skipQuoted(s, st);
    sym_assert(want != std::string::npos && g == want + 1, "position after the closing quote");
    sym_reach("quoted");
  } catch (std::runtime_error&) {
    sym_assert(want == std::string::npos, "unterminated quote is the only error");
    sym_reach("unterminated");
  }
}
// reference: explicit depth counter over positions, quotes skipped
static long refBalanced(const std::string& s, unsigned st, unsigned end, char open, char close) {
  int depth = 1;
  unsigned i = st + 1;
  while (i < end) {
    const char c = s[i];
    if (c == close) {
      if (--depth == 0) return i + 1;
      ++i;
    } else if (c == open) {
      ++depth;
      ++i;
    } else if (c == '"' || c == '\'') {
      unsigned j = i + 1;
      while (j < s.size() && s[j] != c) ++j;
      if (j >= s.size()) return -1;
      i = j + 1;
    } else
      ++i;
  }
  return -1;
}
static void balanced() {
  const int n = sym_param(1), kind = sym_param(2);
  const char open = kind == 0 ? '[' : kind == 1 ? '(' : '|', close = kind == 0 ? ']' : kind == 1 ? ')' : '|';
  const unsigned off = sym_choose(0, 1, "off");
  std::string s(off, ' ');
  s += open;
  s += symstr("s", n);
  const unsigned end = sym_choose((int)s.size() - 1, (int)s.size(), "end");
  long want = refBalanced(s, off, end, open, close);
  try {
    unsigned g = skipBalanced(s, off, end, close);
    sym_assert((long)g == want, "position after the matching delimiter");
    sym_reach("balanced");
  } catch (std::runtime_error&) {
    sym_assert(want < 0, "unbalanced text is the only error");
    sym_reach("unbalanced");
  }
}
static void tokens() {
  const int n = sym_param(1), nd = sym_param(2);
  const std::string s = symstr("s", n), d = symstr("d", nd);
  auto isd = [&](char c) { bool r = false; for (char x : d) r = sym_or(r, c == x); return r; };
  std::vector<std::string> want;
  bool in = false;
  for (char c : s) {
    if (isd(c)) in = false;
    else { if (!in) want.emplace_back(); in = true; want.back() += c; }
  }
  const std::vector<std::string> got = stringtools::tokenize(s, d);
  sym_assert(got.size() == want.size(), "number of tokens");
  for (size_t i = 0; i < want.size(); ++i) sym_assert_streq(got[i], want[i], "token text");
  sym_reach("tokens");
}
static void order() {
  using stringtools::Compare;
  const int n = sym_param(1), m = sym_param(2);
  const Compare::Mode mode = sym_param(3) ? Compare::NOCASE : Compare::NORMAL;
  const Compare cmp(mode);
  const std::string a = symstr("a", n), b = symstr("b", m);
  for (char c : a) sym_assume(c > 0);
  for (char c : b) sym_assume(c > 0);
  auto up = [](char c) { return c >= 'a' && c <= 'z' ? char(c - 32) : c; };
  bool eq = n == m;
  int lt = -1;  // first difference decides
  for (int i = 0; i < std::min(n, m) && lt < 0; ++i) {
    const char x = mode == Compare::NOCASE ? up(a[i]) : a[i], y = mode == Compare::NOCASE ? up(b[i]) : b[i];
    if (x != y) { lt = x < y; eq = false; }
  }
  if (lt < 0) lt = n < m;
  sym_assert(cmp(a, b) == (lt == 1), "lexicographic order");
  sym_assert(!(cmp(a, b) && cmp(b, a)), "antisymmetric");
  sym_assert(eq == (!cmp(a, b) && !cmp(b, a)), "equivalent exactly when equal (up to case)");
  sym_reach("order");
}
extern "C" void harness() {
  sym_opaque_fmt(true);
  switch (sym_param(0)) {
    case 0: ws(); break;
    case 1: quoted(); break;
    case 2: balanced(); break;
    case 3: tokens(); break;
    case 4: order(); break;
  }
}
