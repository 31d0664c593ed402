// C15/C16/C17: values in a parameter set: vectors, records, quoting, times.
#include "util.h"
#include "common/ParameterValue.h"
#include "common/ParameterRecord.h"
using namespace dp3::common;
static std::string trim(const std::string& s) {
  size_t a = 0, b = s.size();
  while (a < b && is_ws(s[a])) ++a;
  while (b > a && is_ws(s[b - 1])) --b;
  return s.substr(a, b - a);
}
// An independent reading of the syntax: the elements between top-level commas.
// Returns false when the text is not well-formed.
static bool split(const std::string& s, std::vector<std::string>& out) {
  out.clear();
  if (trim(s).empty()) return true;
  int par = 0, br = 0, cur = 0;
  std::string e;
  for (size_t i = 0; i < s.size(); ++i) {
    const char c = s[i];
    if (c == '\'' || c == '"') {
      size_t k = i + 1;
      while (k < s.size() && s[k] != c) ++k;
      if (k == s.size()) return false;
      e += s.substr(i, k - i + 1);
      i = k;
      continue;
    }
    if (c == ',' && !par && !br && !cur) { out.push_back(trim(e)); e.clear(); continue; }
    e += c;
    if (c == '(') ++par;
    else if (c == ')') --par;
    else if (c == '[') { if (par) return false; ++br; }
    else if (c == ']') --br;
    else if (c == '{') { if (par) return false; ++cur; }
    else if (c == '}') --cur;
    if (par < 0 || br < 0 || cur < 0) return false;
  }
  if (par || br || cur) return false;
  out.push_back(trim(e));
  return true;
}
static void vecAny() {
  const int n = sym_param(1);
  static const char* const alpha[] = {"a,' ", ",[]()", "a,{}\""};
  const std::string body = symstr_of("s", n, alpha[sym_param(2)]);
  const ParameterValue v("[" + body + "]");
  std::vector<std::string> want;
  const bool ok = split(body, want);
  sym_assert(v.isVector(), "bracketed text is a vector");
  try {
    const std::vector<ParameterValue> got = v.getVector();
    sym_assert(ok, "malformed vector is rejected");
    if (!ok) return;
    sym_assert(got.size() == want.size(), "number of elements");
    if (got.size() != want.size()) return;
    for (size_t i = 0; i < got.size(); ++i) sym_assert_streq(got[i].get(), want[i], "element text");
    sym_reach("vector");
  } catch (std::runtime_error&) {
    sym_assert(!ok, "well-formed vector is accepted");
    sym_reach("malformed");
  }
}
static std::string word(const char* nm, int n) {
  std::string s = symstr(nm, n);
  for (char c : s) sym_assume(sym_or(sym_and(c >= 'a', c <= 'z'), sym_or(sym_and(c >= '0', c <= '9'), sym_or(c == '.', c == '-'))));
  return s;
}
// k elements of chosen forms: read back one by one as text
static void vecForms() {
  const int k = sym_param(1), n = sym_param(2);
  std::string txt = "[";
  std::vector<std::string> raw, str;
  if (k == 1 && n == 0) {  // blanks only: no element at all
    sym_assert(ParameterValue("[ ]").getVector().empty() && ParameterValue("[]").getStringVector().empty() && ParameterValue("").getVector().empty(), "empty vector");
    sym_reach("forms");
    return;
  }
  for (int i = 0; i < k; ++i) {
    const std::string w = word("w", n);
    std::string r, s;
    switch (sym_choose(0, 5, "form")) {
      case 0: r = s = w; break;
      case 1: r = "'" + w + ",[x'"; s = w + ",[x"; break;
      case 2: r = "\"" + w + "'\""; s = w + "'"; break;
      case 3: r = s = "[" + w + ",q]"; break;
      case 4: r = s = "f(" + w + ", " + w + ")"; break;
      case 5: r = "{k:'" + w + "'}"; s = "{k:" + w + "}"; break;
    }
    txt += (i ? ", " : " ") + r;
    raw.push_back(r);
    str.push_back(s);
  }
  txt += " ]";
  const ParameterValue v(txt);
  const std::vector<ParameterValue> got = v.getVector();
  sym_assert(got.size() == size_t(k), "one value per element");
  if (got.size() != size_t(k)) return;
  const std::vector<std::string> gs = v.getStringVector();
  for (int i = 0; i < k; ++i) {
    sym_assert_streq(got[i].get(), raw[i], "element text");
    sym_assert_streq(gs[i], str[i], "element without its quotes");
  }
  sym_reach("forms");
}
static void unquote() {
  const int n = sym_param(1);
  const std::string s = symstr_of("s", n, "a'\" ");
  const ParameterValue v(s, sym_param(2));
  const std::string t = sym_param(2) ? trim(s) : s;
  sym_assert_streq(v.get(), t, "surrounding blanks are removed on request");
  std::string want;
  bool ok = true;
  for (size_t i = 0; i < t.size() && ok; ++i) {
    if (t[i] == '\'' || t[i] == '"') {
      const char q = t[i];
      for (++i; i < t.size() && t[i] != q; ++i) want += t[i];
      ok = i < t.size();
    } else
      want += t[i];
  }
  try {
    const std::string got = v.getString();
    sym_assert(ok, "unterminated quote is rejected");
    if (ok) sym_assert_streq(got, want, "quotes are removed, quoted text is kept literally");
    sym_reach("string");
  } catch (std::runtime_error&) {
    sym_assert(!ok, "well-formed string is accepted");
    sym_reach("badquote");
  }
}
static void record() {
  const int k = sym_param(1), n = sym_param(2);
  std::string txt = "{";
  std::vector<std::string> key, val, vstr;
  for (int i = 0; i < k; ++i) {
    const std::string w = word("v", n);
    std::string kk = std::string(1, char('p' + i)) + word("k", n), kt = kk, r = w;
    switch (sym_choose(0, 3, "kform")) {
      case 0: break;
      case 1: kt = "'" + kk + "' "; break;
      case 2: kk = kk + ":,x"; kt = " \"" + kk + "\""; break;
      case 3: kt = "  " + kk; break;
    }
    std::string s = w;
    switch (sym_choose(0, 3, "vform")) {
      case 0: break;
      case 1: r = "[" + w + ", b:c]"; s = r; break;
      case 2: r = "' " + w + "}'"; s = " " + w + "}"; break;
      case 3: r = "{a:1,b:" + w + "}"; s = r; break;
    }
    txt += (i ? "," : "") + kt + ":" + (n % 2 ? " " : "") + r;
    key.push_back(kk);
    val.push_back(r);
    vstr.push_back(s);
  }
  txt += "}";
  const ParameterValue v(txt);
  sym_assert(v.isRecord() && !v.isVector(), "braced text is a record");
  const ParameterRecord rec = v.getRecord();
  sym_assert(rec.size() == k, "one field per entry");
  for (int i = 0; i < k; ++i) {
    sym_assert(rec.isDefined(key[i]), "field name");
    if (!rec.isDefined(key[i])) return;
    sym_assert_streq(rec.get(key[i]).get(), val[i], "field value");
    sym_assert_streq(rec.getString(key[i]), vstr[i], "field string");
  }
  sym_reach("record");
}
static void recordAny() {
  const std::string body = symstr_of("s", sym_param(1), "k:,' ");
  std::vector<std::string> el;
  bool ok = split(body, el);
  std::vector<std::string> names;
  for (size_t i = 0; ok && i < el.size(); ++i) {
    size_t p = 0;
    if (!el[i].empty() && el[i][0] == '\'') p = el[i].find('\'', 1) + 1;
    const size_t c = el[i].find(':', p);
    if (c == std::string::npos) { ok = false; break; }
    std::string raw = trim(el[i].substr(0, c)), nm;
    if (raw.find('\'') != std::string::npos) {
      bool q = false;
      for (char ch : raw) { if (ch == '\'') q = !q; else nm += ch; }
      if (q) { ok = false; break; }
    } else nm = raw;
    for (auto& o : names) if (o == nm) ok = false;
    names.push_back(nm);
  }
  const ParameterValue v("{" + body + "}");
  try {
    const ParameterRecord r = v.getRecord();
    sym_assert(ok, "malformed record is rejected");
    if (!ok) return;
    sym_assert(r.size() == int(names.size()), "number of fields");
    for (auto& o : names) sym_assert(r.isDefined(o), "field name");
    sym_reach("anyrecord");
  } catch (std::runtime_error&) {
    sym_assert(!ok, "well-formed record is accepted");
    sym_reach("badrecord");
  }
}
// vectors of numbers: each element converted like a single value
static void numbers() {
  const int k = sym_param(1);
  std::string txt = "[";
  std::vector<long> want;
  for (int i = 0; i < k; ++i) {
    std::string d = symstr("d", sym_param(2));
    long v = 0;
    for (char c : d) { sym_assume(is_dig(c)); v = v * 10 + (c - '0'); }
    const bool neg = sym_choose(0, 1, "neg");
    if (neg) sym_assume(v > 0);
    txt += (i ? " ," : "") + std::string(neg ? "-" : "") + d;
    want.push_back(neg ? -v : v);
  }
  txt += "]";
  const ParameterValue v(txt);
  const std::vector<int> a = v.getIntVector();
  const std::vector<int32_t> b = v.getInt32Vector();
  const std::vector<int64_t> c = v.getInt64Vector();
  const std::vector<int16_t> e = v.getInt16Vector();
  sym_assert(a.size() == want.size() && b.size() == want.size() && c.size() == want.size() && e.size() == want.size(), "one number per element");
  if (a.size() != want.size()) return;
  bool anyneg = false;
  for (int i = 0; i < k; ++i) {
    sym_assert(a[i] == want[i] && b[i] == want[i] && c[i] == want[i] && e[i] == want[i], "number of each element");
    anyneg = sym_or(anyneg, want[i] < 0);
  }
  try {
    const std::vector<unsigned> u = v.getUintVector();
    const std::vector<uint16_t> u1 = v.getUint16Vector();
    const std::vector<uint32_t> u2 = v.getUint32Vector();
    const std::vector<uint64_t> u3 = v.getUint64Vector();
    sym_assert(!anyneg, "negative element of an unsigned vector is rejected");
    for (int i = 0; i < k; ++i) sym_assert(long(u[i]) == want[i] && long(u1[i]) == want[i] && long(u2[i]) == want[i] && long(u3[i]) == want[i], "unsigned element");
  } catch (std::runtime_error&) { sym_assert(anyneg, "unsigned elements are accepted"); }
  sym_reach("numbers");
}
static void scalars() {
  std::string d = symstr("d", sym_param(1));
  static const char* const pre[] = {"", "21474836", "42949672"};
  const std::string s = pre[sym_param(2)] + d;
  unsigned long v = 0;
  for (char c : d) sym_assume(is_dig(c));
  for (char c : s) v = v * 10 + (c - '0');
  const ParameterValue p(" " + s + " ");
  try {
    const long got = p.getUint32();  // widened by the caller
    sym_assert(v <= 4294967295ul && (unsigned long)got == v, "unsigned 32-bit value");
    sym_assert(p.getUint64() == v && (unsigned long)p.getUint() == v, "unsigned values");
    sym_reach("uint32");
  } catch (std::runtime_error&) { sym_assert(v > 4294967295ul, "unsigned 32-bit value in range is accepted"); sym_reach("toolarge"); }
}
static void times() {
  const int nd = sym_param(1), nu = sym_param(2);
  std::string d = symstr("d", nd);
  long v = 0;
  for (char c : d) { sym_assume(is_dig(c)); v = v * 10 + (c - '0'); }
  const bool neg = sym_choose(0, 1, "neg");
  const bool sp = sym_choose(0, 1, "blank");
  std::string u = nu > 50 ? std::string(nu, 'x') : symstr("u", nu);
  if (nu > 0) u[0] = symstr("u0", 1)[0];
  for (int i = 0; i < nu && i < 50; ++i) sym_assume(sym_or(sym_and(u[i] >= 'a', u[i] <= 'z'), sym_and(u[i] >= 'A', u[i] <= 'Z')));
  const ParameterValue p((neg ? "-" : "") + d + (sp ? " " : "") + u);
  const long got = p.getTime();
  const long k = neg ? -v : v;
  const char c = nu ? u[0] : 's';
  const uint64_t m = sym_ite_u64(sym_or(c == 'm', c == 'M'), 60, sym_ite_u64(sym_or(c == 'h', c == 'H'), 3600, 1));
  sym_assert(got == k * long(m), "time is the number times its unit in seconds");
  sym_reach("time");
}
static void badTime() {
  const std::string s = symstr("s", sym_param(1));
  bool num = false;
  size_t i = 0;
  while (i < s.size() && is_ws(s[i])) ++i;
  if (i < s.size() && (s[i] == '-' || s[i] == '+')) ++i;
  num = i < s.size() && is_dig(s[i]);
  bool nul = false;
  for (char c : s) nul = sym_or(nul, c == 0);
  sym_assume(!nul);
  try { ParameterValue(s, false).getTime(); sym_assert(num, "text that is no time is rejected"); }
  catch (std::runtime_error&) { sym_assert(!num, "time is accepted"); sym_reach("badtime"); }
}
extern "C" void harness() {
  sym_opaque_fmt(true);
  switch (sym_param(0)) {
    case 0: vecAny(); break;
    case 1: vecForms(); break;
    case 2: unquote(); break;
    case 3: record(); break;
    case 4: recordAny(); break;
    case 5: numbers(); break;
    case 6: scalars(); break;
    case 7: times(); break;
    case 8: badTime(); break;
  }
}
