// C18/C19/C20: reading, overriding, subsetting and usage tracking of parameter sets.
#include <algorithm>
#include "util.h"
#include "common/ParameterSet.h"
using namespace dp3::common;
static char letter(const char* nm) {
  const char c = symstr(nm, 1)[0];
  sym_assume(sym_or(sym_and(c >= 'a', c <= 'z'), sym_and(c >= '0', c <= '9')));
  return c;
}
static std::string word(const char* nm, int n) {
  std::string s;
  for (int i = 0; i < n; ++i) s += letter(nm);
  return s;
}
// a text built from lines in every documented form
static void lines() {
  const int n = sym_param(1);
  std::string txt;
  std::vector<std::pair<std::string, std::string>> want;
  for (int i = 0; i < n; ++i) {
    const std::string k = std::string(1, char('p' + i)) + ".", v = word("v", 1);
    static const char* const nl = "\n";
    switch (sym_choose(0, 10, "form")) {
      case 0: txt += k + "=" + v + nl; want.emplace_back(k, v); break;
      case 1: txt += "  " + k + " = " + v + "  " + nl; want.emplace_back(k, v); break;
      case 2: txt += k + "=" + v + " # " + k + "=no" + nl; want.emplace_back(k, v); break;
      case 3: txt += "# " + k + "=" + v + nl; break;
      case 4: txt += std::string(" \t") + nl; break;
      case 5: txt += k + "='" + v + "#=x'" + nl; want.emplace_back(k, "'" + v + "#=x'"); break;
      case 6: txt += k + "=" + nl; want.emplace_back(k, ""); break;
      case 7: txt += k + "=[" + v + nl + "   ,b]" + nl; want.emplace_back(k, "[" + v + " ,b]"); break;
      case 8: txt += k + "=" + v + " \\" + nl + "c" + nl; want.emplace_back(k, v + " c"); break;
      case 9: txt += k + "='" + v + "'" + nl + " 'd'" + nl; want.emplace_back(k, "'" + v + "''d'"); break;
      case 10: txt += "\t\"" + k + "\"=x " + v + nl; want.emplace_back(k, "x " + v); break;
    }
  }
  if (sym_param(2)) txt.erase(txt.find_last_not_of('\n') + 1);  // no final newline
  const std::string pre = sym_param(3) ? "pre." : "";
  ParameterSet ps;
  ps.adoptBuffer(txt, pre);
  sym_assert(ps.size() == int(want.size()), "one parameter per setting");
  for (auto& w : want) {
    sym_assert(ps.isDefined(pre + w.first), "parameter is defined");
    if (!ps.isDefined(pre + w.first)) return;
    sym_assert_streq(ps.get(pre + w.first).get(), w.second, "value of the parameter");
  }
  sym_reach("lines");
}
// arbitrary text over syntax characters never crashes; errors only for quotes or empty keys
static void anyText() {
  const std::string s = symstr_of("s", sym_param(1), sym_param(2) ? "a='\n" : "a=# \\\n");
  ParameterSet ps;
  bool quote = false;
  for (char c : s) quote = sym_or(quote, c == '\'');
  bool emptyKey = false, hasEq = false, comment = false, start = true;
  for (size_t i = 0; i < s.size(); ++i) hasEq = sym_or(hasEq, s[i] == '=');
  (void)emptyKey; (void)comment; (void)start;
  try {
    ps.adoptBuffer(s);
    if (!hasEq) { sym_assert(ps.empty(), "no setting, no parameter"); sym_reach("none"); }
    sym_reach("accepted");
  } catch (std::runtime_error&) {
    sym_assert(sym_or(quote, hasEq), "only a bad quote or an empty name is an error");
    sym_reach("rejected");
  }
}
// last value wins, within a text and between text and command line
static void overrides() {
  const bool ci = sym_param(1);
  ParameterSet ps(ci);
  const char a = letter("a"), b = letter("b"), c = letter("c"), d = letter("d"), x = letter("x");
  sym_assume(x >= 'a');
  const std::string key = std::string("m") + x, up = std::string("M") + (ci ? char(x - 32) : x);
  std::string txt = key + "=" + a + "\nz=1\n" + (sym_choose(0, 1, "dup") ? key + "=" + b + "\n" : "");
  const bool dup = txt.size() > 10;
  ps.adoptBuffer(txt);
  sym_assert_streq(ps.getString(key), std::string(1, dup ? b : a), "last value of a name wins");
  sym_assert(ps.isDefined(up) == ci, "letter case of names");
  std::vector<std::string> args{key + "=" + c + "=" + d, "noequal", "new=" + std::string(1, d), "z="};
  if (sym_choose(0, 1, "again")) args.push_back((ci ? up : key) + "=" + d);
  const bool again = args.size() == 5;
  ps.adoptArguments(args);
  sym_assert_streq(ps.getString(key), again ? std::string(1, d) : std::string(1, c) + "=" + d, "command line overrides");
  sym_assert_streq(ps.getString("new"), std::string(1, d), "command line adds");
  sym_assert_streq(ps.getString("z"), "", "command line can clear a value");
  sym_assert(!ps.isDefined("noequal") && ps.size() == 3, "arguments without a value are ignored");
  bool threw = false;
  try { ps.add(key, "q"); } catch (std::runtime_error&) { threw = true; }
  sym_assert(threw, "adding a defined name is an error");
  ps.replace(key, "r");
  sym_assert_streq(ps.getString(ci ? up : key), "r", "replacing a value");
  ParameterSet other(ci);
  other.add("n", std::string(1, b));
  other.add(key, std::string(1, c));
  ps.adoptCollection(other, "p.");
  sym_assert_streq(ps.getString("p.n"), std::string(1, b), "adopted with prefix");
  sym_assert_streq(ps.getString("p." + key), std::string(1, c), "adopted with prefix");
  sym_assert_streq(ps.getString(key), "r", "other names are kept");
  ps.adoptCollection(other);
  sym_assert_streq(ps.getString(key), std::string(1, c), "adopted value overrides");
  const int before = ps.size();
  ps.adoptCollection(ps);
  sym_assert(ps.size() == before, "adopting itself changes nothing");
  ps.adoptCollection(ps, "s.");
  sym_assert(ps.size() == 2 * before, "adopting itself with a prefix");
  sym_assert_streq(ps.getString("s." + key), std::string(1, c), "adopting itself with a prefix");
  ps.remove(key);
  sym_assert(!ps.isDefined(key), "removed");
  sym_reach("overrides");
}
// subsets and subtraction by prefix; keys are arbitrary words
static void subset() {
  const int n = sym_param(1);
  const bool ci = sym_param(2);
  ParameterSet ps(ci);
  std::vector<std::string> keys;
  for (int i = 0; i < n; ++i) {
    std::string k = symstr_of("k", sym_param(4 + i), ci ? "ab.A" : "ab.");
    bool dupl = false;
    for (auto& o : keys) {
      bool eq = o.size() == k.size();
      for (size_t j = 0; eq && j < k.size(); ++j) {
        const char p = o[j], q = k[j];
        eq = ci ? ((p == 'A' ? 'a' : p) == (q == 'A' ? 'a' : q)) : p == q;
      }
      dupl |= eq;
    }
    sym_assume(!dupl);
    keys.push_back(k);
    ps.add(k, std::string(1, char('0' + i)));
  }
  const std::string base = symstr_of("base", sym_param(3), ci ? "ab.A" : "ab.");
  auto match = [&](const std::string& k) {
    if (k.size() < base.size()) return false;
    for (size_t j = 0; j < base.size(); ++j) {
      const char p = k[j], q = base[j];
      if (ci ? ((p == 'A' ? 'a' : p) != (q == 'A' ? 'a' : q)) : p != q) return false;
    }
    return true;
  };
  std::vector<bool> in;
  int cnt = 0;
  for (auto& k : keys) { in.push_back(match(k)); cnt += in.back(); }
  const ParameterSet sub = ps.makeSubset(base, "new-");
  sym_assert(sub.size() == cnt, "subset has exactly the names with that prefix");
  for (int i = 0; i < n; ++i) {
    if (!in[i]) continue;
    const std::string nk = "new-" + keys[i].substr(base.size());
    sym_assert(sub.isDefined(nk), "renamed parameter in subset");
    if (sub.isDefined(nk)) sym_assert_streq(sub.getString(nk), std::string(1, char('0' + i)), "value in subset");
  }
  sym_assert(ps.size() == n, "original is kept");
  // parameters taken into a subset count as used
  const std::vector<std::string> un = ps.unusedKeys();
  sym_assert(int(un.size()) == n - cnt, "parameters outside the subset are unused");
  for (int i = 0; i < n; ++i) sym_assert((std::find(un.begin(), un.end(), keys[i]) == un.end()) == in[i], "unused names");
  ParameterSet rest = ps;
  rest.subtractSubset(base);
  sym_assert(rest.size() == n - cnt, "exactly the names with that prefix are removed");
  for (int i = 0; i < n; ++i) sym_assert(rest.isDefined(keys[i]) != in[i], "other names stay");
  sym_reach(cnt ? "subset" : "empty");
}
// defaults and usage tracking
static void usage() {
  const bool ci = sym_param(1);
  ParameterSet ps(ci);
  const char v = letter("v");
  sym_assume(v <= '9');
  ps.add("one", std::string(1, v));
  ps.add("two", "[1,2]");
  ps.add("three", "[2*x,y1..3]");
  const int how = sym_param(2);
  std::string ask = "one";
  if (ci) ask = sym_choose(0, 1, "case") ? "ONE" : "oNe";
  bool used = true;
  switch (how) {
    case 0: sym_assert(ps.getInt(ask) == v - '0', "value"); break;
    case 1: sym_assert(ps.getInt(ask, 77) == v - '0', "value, not the default"); break;
    case 2: sym_assert(ps.getDouble(ask, 77) == v - '0', "value, not the default"); break;
    case 3: sym_assert_streq(ps.getString(ask), std::string(1, v), "value"); break;
    case 4: sym_assert(ps.isDefined(ask), "defined"); used = false; break;
    case 5: sym_assert(ps.getUint("none", 7) == 7u, "default of an undefined name"); used = false; break;
    case 6: {
      bool threw = false;
      try { ps.getInt("none"); } catch (std::runtime_error&) { threw = true; }
      sym_assert(threw, "undefined name without default is an error");
      used = false;
      break;
    }
    case 7: sym_assert(ps.getIntVector(ask).size() == 1, "single value as vector"); break;
    case 8: sym_assert(ps.getUint16(ask) == v - '0' && ps.getUint64(ask, 9) == uint64_t(v - '0') && ps.getInt64(ask) == v - '0', "value"); break;
    case 9: sym_assert(ps.getStringVector("none", std::vector<std::string>(2, "d")).size() == 2, "default vector"); used = false; break;
    case 10: {
      const std::vector<std::string> t = ps.getStringVector("three", true);
      sym_assert(t.size() == 5 && t[0] == "x" && t[1] == "x" && t[2] == "y1" && t[3] == "y2" && t[4] == "y3", "expanded vector");
      sym_assert(ps.getStringVector("three", false).size() == 2, "unexpanded vector");
      const std::vector<std::string> un = ps.unusedKeys();
      sym_assert(un.size() == 2 && un[0] == "one" && un[1] == "two", "other names are unused");
      sym_reach("usage");
      return;
    }
  }
  const std::vector<std::string> un = ps.unusedKeys();
  sym_assert(un.size() == (used ? 2u : 3u), "exactly the names never asked for are reported as unused");
  for (auto& u : un) sym_assert(!used || u != "one", "asked name is not reported");
  sym_reach("usage");
}
// every kind of access: type T, present or absent, with or without default
template <class G, class GD, class V, class VD, class T> static void everyWay(G get, GD getd, V vec, VD vecd, T one, T def, const char* text) {
  const int how = sym_param(3);
  const bool ci = sym_param(1);
  ParameterSet ps(ci);
  ps.add("s", text);
  ps.add("v", std::string("[") + text + "," + text + "]");
  ps.add("other", "1");
  const std::string s = ci && sym_choose(0, 1, "case") ? "S" : "s", v = ci && sym_choose(0, 1, "case") ? "V" : "v";
  const std::vector<T> dv(3, def);
  const std::vector<T> want(2, one);
  bool us = false, uv = false;
  bool threw = false;
  switch (how) {
    case 0: sym_assert(get(ps, s) == one, "value"); us = true; break;
    case 1: sym_assert(getd(ps, s, def) == one, "value, not the default"); us = true; break;
    case 2: sym_assert(getd(ps, "none", def) == def, "default of an undefined name"); break;
    case 3: try { get(ps, "none"); } catch (std::runtime_error&) { threw = true; } sym_assert(threw, "undefined name without default is an error"); break;
    case 4: sym_assert(vec(ps, v, false) == want, "vector"); uv = true; break;
    case 5: sym_assert(vecd(ps, v, dv, false) == want, "vector, not the default"); uv = true; break;
    case 6: sym_assert(vecd(ps, "none", dv, sym_choose(0, 1, "x")) == dv, "default of an undefined vector"); break;
    case 7: try { vec(ps, "none", false); } catch (std::runtime_error&) { threw = true; } sym_assert(threw, "undefined vector without default is an error"); break;
    case 8: sym_assert(vec(ps, v, true) == want, "expandable vector"); uv = true; break;
    case 9: sym_assert(vecd(ps, v, dv, true) == want, "expandable vector, not the default"); uv = true; break;
    case 10: sym_assert(vecd(ps, s, dv, false) == std::vector<T>(1, one), "single value as vector"); us = true; break;
  }
  const std::vector<std::string> un = ps.unusedKeys();
  sym_assert(un.size() == 3u - us - uv, "exactly the names never asked for are reported as unused");
  for (auto& u : un) sym_assert(u != (us ? "s" : "") && u != (uv ? "v" : ""), "asked name is not reported");
  sym_reach("everyway");
}
#define WAY(N, T, one, def, text)                                                                                           \
  everyWay([](const ParameterSet& p, const std::string& k) { return p.get##N(k); },                                         \
           [](const ParameterSet& p, const std::string& k, T d) { return p.get##N(k, d); },                                 \
           [](const ParameterSet& p, const std::string& k, bool x) { return p.get##N##Vector(k, x); },                      \
           [](const ParameterSet& p, const std::string& k, const std::vector<T>& d, bool x) { return p.get##N##Vector(k, d, x); }, \
           T(one), T(def), text)
static void ways() {
  switch (sym_param(2)) {
    case 0: WAY(Bool, bool, true, false, "T"); break;
    case 1: WAY(Int, int, -7, 3, "-7"); break;
    case 2: WAY(Uint, unsigned, 4000000000u, 3, "4000000000"); break;
    case 3: WAY(Int16, int16_t, -7, 3, "-7"); break;
    case 4: WAY(Uint16, uint16_t, 65000, 3, "65000"); break;
    case 5: WAY(Int32, int32_t, -7, 3, "-7"); break;
    case 6: WAY(Uint32, uint32_t, 4000000000u, 3, "4000000000"); break;
    case 7: WAY(Int64, int64_t, -70000000000L, 3, "-70000000000"); break;
    case 8: WAY(Uint64, uint64_t, 10000000000000000000UL, 3, "10000000000000000000"); break;
    case 9: WAY(Float, float, 1.5, 3, "1.5"); break;
    case 10: WAY(Double, double, 1e300, 3, "1e300"); break;
    case 11: WAY(String, std::string, "abc", "d", "abc"); break;
    case 12: WAY(Time, time_t, 60, 3, "1m"); break;
  }
}
// writing and reading back
static void roundtrip() {
  const int n = sym_param(1);
  ParameterSet ps;
  std::vector<std::string> val;
  for (int i = 0; i < n; ++i) {
    std::string v = symstr_of("v", sym_param(2 + i), "a[,'1 ");
    bool q = false;
    for (char c : v) if (c == '\'') q = !q;
    sym_assume(!q);  // a balanced value
    const ParameterValue pv(v);
    val.push_back(pv.get());
    ps.add(std::string("k") + char('a' + i), v);
  }
  std::string buf;
  ps.writeBuffer(buf);
  ParameterSet rd;
  rd.adoptBuffer(buf);
  sym_assert(rd.size() == n, "all parameters are read back");
  for (int i = 0; i < n; ++i) {
    const std::string k = std::string("k") + char('a' + i);
    sym_assert(rd.isDefined(k), "parameter is read back");
    if (rd.isDefined(k)) sym_assert_streq(rd.get(k).get(), val[i], "value is read back");
  }
  sym_reach("roundtrip");
}
extern "C" void harness() {
  sym_opaque_fmt(true);
  switch (sym_param(0)) {
    case 0: lines(); break;
    case 1: anyText(); break;
    case 2: overrides(); break;
    case 3: subset(); break;
    case 4: usage(); break;
    case 5: roundtrip(); break;
    case 6: ways(); break;
  }
}
