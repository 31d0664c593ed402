#pragma once
#include <bits/localefwd.h>
#include <string>
namespace std {
class locale {
 public:
  typedef int category;
  class id {};
  class facet {};
  static const category none = 0, ctype = 1, numeric = 2, collate = 4, time = 8, monetary = 16, messages = 32, all = 63;
  locale() noexcept {}
  explicit locale(const char*) {}
  explicit locale(const std::string&) {}
  static const locale& classic() { static locale l; return l; }
  static locale global(const locale& l) { return l; }
  std::string name() const { return "C"; }
  bool operator==(const locale&) const { return true; }
};
class ctype_base {
 public:
  typedef unsigned short mask;
  static constexpr mask upper = 1, lower = 2, alpha = 4, digit = 8, xdigit = 16, space = 32, print = 64, graph = 128 | 4 | 8 | 256, cntrl = 512, punct = 256, alnum = 4 | 8, blank = 1024;
};
template <> class ctype<char> : public ctype_base, public locale::facet {
 public:
  typedef char char_type;
  bool is(mask m, char ch) const {
    unsigned char c = ch;
    mask r = 0;
    if ((unsigned)(c - 'A') < 26u) r |= upper | alpha;
    if ((unsigned)(c - 'a') < 26u) r |= lower | alpha;
    if ((unsigned)(c - '0') < 10u) r |= digit;
    if ((unsigned)(c - '0') < 10u || (unsigned)((c | 32) - 'a') < 6u) r |= xdigit;
    if (c == ' ' || (c >= 9 && c <= 13)) r |= space;
    if (c >= 32 && c < 127) r |= print;
    if (c < 32 || c == 127) r |= cntrl;
    if (c > 32 && c < 127 && !(r & (alpha | digit))) r |= punct;
    if (c == ' ' || c == 9) r |= blank;
    return (r & m) != 0;
  }
  char toupper(char c) const { return (unsigned)((unsigned char)c - 'a') < 26u ? (char)(c - 32) : c; }
  char tolower(char c) const { return (unsigned)((unsigned char)c - 'A') < 26u ? (char)(c + 32) : c; }
  char widen(char c) const { return c; }
  char narrow(char c, char) const { return c; }
};
template <class F> const F& use_facet_impl() { static const F f; return f; }
template <class F> const F& use_facet(const locale&) { return use_facet_impl<F>(); }
template <class F> bool has_facet(const locale&) throw() { return true; }
template <class C> bool isspace(C c, const locale& l) { return ctype<C>().is(ctype_base::space, c); }
template <class C> bool isdigit(C c, const locale& l) { return ctype<C>().is(ctype_base::digit, c); }
template <class C> bool isalpha(C c, const locale& l) { return ctype<C>().is(ctype_base::alpha, c); }
template <class C> bool isalnum(C c, const locale& l) { return ctype<C>().is(ctype_base::alnum, c); }
template <class C> bool isupper(C c, const locale& l) { return ctype<C>().is(ctype_base::upper, c); }
template <class C> bool islower(C c, const locale& l) { return ctype<C>().is(ctype_base::lower, c); }
template <class C> bool ispunct(C c, const locale& l) { return ctype<C>().is(ctype_base::punct, c); }
template <class C> C toupper(C c, const locale& l) { return ctype<C>().toupper(c); }
template <class C> C tolower(C c, const locale& l) { return ctype<C>().tolower(c); }
}  // namespace std
