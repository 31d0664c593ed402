// Model: integer formatting without lookup tables. With sym_opaque_fmt(true) the
// decimal text of a symbolic value (error messages) is an opaque constant.
#ifndef _GLIBCXX_CHARCONV_H
#define _GLIBCXX_CHARCONV_H 1
#include <type_traits>
#include <ext/numeric_traits.h>
extern "C" { extern int sx_opaque_fmt; bool sx_is_concrete(unsigned long); }
namespace std {
namespace __detail {
template <typename _Tp> constexpr bool __integer_to_chars_is_unsigned = !__gnu_cxx::__int_traits<_Tp>::__is_signed;
template <typename _Tp>
constexpr unsigned __to_chars_len(_Tp v, int base = 10) noexcept {
  if (!__builtin_is_constant_evaluated())
    if (sx_opaque_fmt && !sx_is_concrete((unsigned long)v)) return 1;
  unsigned n = 1;
  if (base == 10) {
    unsigned long p = 10;
    while ((unsigned long)v >= p) { n++; if (n >= 20 || p > (unsigned long)(_Tp)-1 / 10) break; p *= 10; }
    return n;
  }
  while (v >= (unsigned)base) { v /= base; n++; }
  return n;
}
template <typename _Tp>
constexpr void __to_chars_10_impl(char* f, unsigned len, _Tp v) noexcept {
  if (!__builtin_is_constant_evaluated())
    if (sx_opaque_fmt && !sx_is_concrete((unsigned long)v)) { for (unsigned i = 0; i < len; i++) f[i] = '#'; return; }
  while (len > 0) { f[--len] = '0' + (char)(v % 10); v /= 10; }
}
}  // namespace __detail
}  // namespace std
#endif
