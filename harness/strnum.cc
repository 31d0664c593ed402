// C02: text to integer. Independent reference: trimmed text is
// [+-]digits or 0x hexdigits; value in 128 bits; accepted iff well formed and in range.
#include "util.h"
#include "common/StringTools.h"
using namespace dp3::common;
// Magnitude of a digit string: 64 bits are enough for 19 decimal (16 hex) digits;
// more digits saturate at 2^64 or above.
struct Num { bool neg = false, big = false; uint64_t v = 0; };
static bool ref(const std::string& s, bool uns, Num& r, bool& blank) {
  size_t b = 0, e = s.size();
  while (b < e && is_ws(s[b])) ++b;
  while (e > b && is_ws(s[e - 1])) --e;
  blank = b == e;
  if (blank) return true;
  if (e - b > 2 && s[b] == '0' && (s[b + 1] == 'x' || s[b + 1] == 'X')) {
    for (size_t i = b + 2; i < e; ++i) {
      unsigned char c = s[i];
      uint64_t h;
      if (c >= '0' && c <= '9') h = c - '0';
      else if (c >= 'a' && c <= 'f') h = c - 'a' + 10;
      else if (c >= 'A' && c <= 'F') h = c - 'A' + 10;
      else return false;
      r.big = sym_or(r.big, (r.v >> 60) != 0);
      r.v = (r.v << 4) | h;
    }
    return true;
  }
  if (s[b] == '-') { r.neg = true; ++b; } else if (s[b] == '+') ++b;
  if (b == e) return false;
  size_t nd = 0;
  for (size_t i = b; i < e; ++i) {
    const uint64_t d = uint64_t((unsigned char)s[i]) - '0';
    if (d > 9) return false;
    if (nd++ >= 19 && (r.big || r.v > UINT64_MAX / 10 || (r.v == UINT64_MAX / 10 && d > UINT64_MAX % 10))) r.big = true;
    else r.v = r.v * 10 + d;
  }
  return !(r.neg && uns);
}
template <typename T>
static void run(T (*f)(const std::string&), const std::string& s) {
  Num r;
  bool blank;
  const bool uns = T(-1) > T(0);
  bool ok = ref(s, uns, r, blank);
  const uint64_t hi = uns ? ~uint64_t(0) >> (64 - 8 * sizeof(T)) : (uint64_t(1) << (8 * sizeof(T) - 1)) - 1;
  T got = 0;
  bool threw = false;
  try {
    got = f(s);
  } catch (std::runtime_error&) {
    threw = true;
  }
  if (blank) return;  // outside the property
  if (!ok) {
    sym_assert(threw, "malformed text is rejected");
    sym_reach("malformed");
  } else {
    const bool in = sym_and(!r.big, r.v <= hi + (r.neg ? 1 : 0));
    if (threw) {
      sym_assert(!in, "well-formed value in range is accepted");
      sym_reach("outofrange");
    } else {
      sym_assert(in, "value out of range is rejected");
      sym_assert(uint64_t(int64_t(got)) == (r.neg ? 0 - r.v : r.v) || (uns && uint64_t(got) == r.v), "converted value");
      sym_reach("value");
    }
  }
}
static void disp(int t, const std::string& s) {
  switch (t) {
    case 0: run(strToLong, s); break;
    case 1: run(strToInt, s); break;
    case 2: run(strToInt32, s); break;
    case 3: run(strToInt16, s); break;
    case 4: run(strToInt64, s); break;
    case 5: run(strToUlong, s); break;
    case 6: run(strToUint, s); break;
    case 7: run(strToUint32, s); break;
    case 8: run(strToUint16, s); break;
    case 9: run(strToUint64, s); break;
  }
}
// param 0: function; param 1: mode; param 2: length
extern "C" void harness() {
  sym_opaque_fmt(true);
  const int t = sym_param(0), mode = sym_param(1), n = sym_param(2);
  std::string s;
  // Windows around every limit of the documented ranges: a concrete prefix
  // (param 3) followed by n symbolic digits and one arbitrary trailing byte.
  static const char* const dec[] = {"", "327", "655", "21474836", "42949672", "92233720368547758",
                                    "184467440737095516", "99999999999999999999", "000000000000000000000"};
  static const char* const hex[] = {"", "7f", "FFf", "7fffff", "ffffff", "ffffffffffffff", "7fffffffffffff",
                                    "fffffffffffffff", "00000000000000000"};
  if (mode == 0) {  // arbitrary bytes
    s = symstr("s", n);
  } else if (mode == 1) {  // decimal numbers near and beyond the range limits
    const int sg = sym_choose(0, 2, "sign");
    s = sg == 0 ? "" : sg == 1 ? " -" : "+";
    std::string d = symstr("d", n);
    for (char& c : d) sym_assume(is_dig(c));
    s += dec[sym_param(3)] + d;
  } else {  // hexadecimal
    s = sym_choose(0, 1, "x") ? "\t0x" : "0X";
    std::string d = symstr("d", n);
    for (char& c : d) sym_assume(sym_or(is_dig(c), sym_or(sym_and(c >= 'a', c <= 'f'), sym_and(c >= 'A', c <= 'F'))));
    s += hex[sym_param(3)] + d;
  }
  if (mode != 0 && sym_param(4)) s += symstr("tail", 1);
  disp(t, s);
}
