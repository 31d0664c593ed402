// Runtime models for the symbolic engine (compiled to LLVM IR and linked with
// the code under test). Only functions that live in libstdc++.so / libc.so and
// that no header defines. Written to the C and C++ standards, "C" locale.
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstddef>
#include <cstdint>
#include <climits>
#include <exception>
#include <stdexcept>
#include <new>
#include <typeinfo>
#include <string>
#include <functional>
#include <optional>
#include <variant>
#include <system_error>
#include <bits/stl_tree.h>
#include <list>
#include <unordered_map>

extern "C" {
double sx_host_strtod(const char*);
bool sx_is_concrete(uint64_t);
int sx_opaque_fmt = 0;
void sym_opaque_fmt(bool on) { sx_opaque_fmt = on; }
static int sx_errno;
int* __errno_location() { return &sx_errno; }

size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char* s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
int strcmp(const char* a, const char* b) {
  while (*a && *a == *b) { a++; b++; }
  return (unsigned char)*a - (unsigned char)*b;
}
int strncmp(const char* a, const char* b, size_t n) {
  while (n && *a && *a == *b) { a++; b++; n--; }
  return n ? (unsigned char)*a - (unsigned char)*b : 0;
}
char* strchr(const char* s, int c) {
  for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return nullptr; }
}
char* strrchr(const char* s, int c) {
  const char* r = nullptr;
  for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; }
}
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)) {} return r; }
char* strstr(const char* h, const char* n) {
  for (;; h++) {
    size_t i = 0;
    while (n[i] && h[i] == n[i]) i++;
    if (!n[i]) return (char*)h;
    if (!*h) return nullptr;
  }
}
void* memchr(const void* p, int c, size_t n) {
  const unsigned char* s = (const unsigned char*)p;
  for (size_t i = 0; i < n; i++) if (s[i] == (unsigned char)c) return (void*)(s + i);
  return nullptr;
}
int isspace(int c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }
int isdigit(int c) { return (unsigned)(c - '0') < 10u; }
int isupper(int c) { return (unsigned)(c - 'A') < 26u; }
int islower(int c) { return (unsigned)(c - 'a') < 26u; }
int isalpha(int c) { return (unsigned)((c | 32) - 'a') < 26u; }
int isalnum(int c) { return isalpha(c) | isdigit(c); }
int isxdigit(int c) { return isdigit(c) | ((unsigned)((c | 32) - 'a') < 6u); }
int iscntrl(int c) { return ((unsigned)c < 32u) | (c == 127); }
int isprint(int c) { return (unsigned)(c - 32) < 95u; }
int isgraph(int c) { return (unsigned)(c - 33) < 94u; }
int ispunct(int c) { return isgraph(c) & !isalnum(c); }
int isblank(int c) { return (c == ' ') | (c == '\t'); }
int toupper(int c) { return (unsigned)(c - 'a') < 26u ? c - 32 : c; }
int tolower(int c) { return (unsigned)(c - 'A') < 26u ? c + 32 : c; }

static int digitVal(char c) {  // branch free
  int d = (unsigned)(c - '0') < 10u, l = (unsigned)((c | 32) - 'a') < 26u;
  return (-d & (c - '0')) | (-l & ((c | 32) - 'a' + 10)) | (-((d | l) ^ 1) & 99);
}
static unsigned long long sx_strtou(const char* s, char** end, int base, bool& neg, bool& ovf, bool& any) {
  const char* p = s;
  while (isspace((unsigned char)*p)) p++;
  neg = false;
  if (*p == '-') { neg = true; p++; } else if (*p == '+') p++;
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && digitVal(p[2]) < 16) { p += 2; base = 16; }
  else if (base == 0) base = p[0] == '0' ? 8 : 10;
  unsigned long long v = 0;
  ovf = false;
  any = false;
  if (base == 10) {
    unsigned nd = 0;
    for (;; p++) {
      unsigned long long d = (unsigned long long)(unsigned char)*p - '0';
      if (d > 9) break;
      any = true;
      // 19 digits always fit; a 20th (or later) may overflow
      if (nd++ >= 19 && (ovf || v > 1844674407370955161ull || (v == 1844674407370955161ull && d > 5))) ovf = true;
      else v = v * 10 + d;
    }
  } else {
    unsigned nd = 0;
    for (; digitVal(*p) < base; p++) {
      any = true;
      unsigned long long d = digitVal(*p);
      if (nd++ >= (base == 16 ? 16u : 0u) && v > (ULLONG_MAX - d) / base) ovf = true;
      else v = v * base + d;
    }
  }
  if (end) *end = (char*)(any ? p : s);
  return v;
}
long strtol(const char* s, char** end, int base) {
  bool neg, ovf, any;
  unsigned long long v = sx_strtou(s, end, base, neg, ovf, any);
  if (neg) {
    if (ovf || v > 0x8000000000000000ull) { errno = ERANGE; return LONG_MIN; }
    return (long)(0 - v);
  }
  if (ovf || v > 0x7fffffffffffffffull) { errno = ERANGE; return LONG_MAX; }
  return (long)v;
}
long long strtoll(const char* s, char** end, int base) { return strtol(s, end, base); }
unsigned long strtoul(const char* s, char** end, int base) {
  bool neg, ovf, any;
  unsigned long long v = sx_strtou(s, end, base, neg, ovf, any);
  if (ovf) { errno = ERANGE; return ULONG_MAX; }
  return neg ? 0 - v : v;
}
unsigned long long strtoull(const char* s, char** end, int base) { return strtoul(s, end, base); }

static bool ciPrefix(const char* p, const char* w) {
  for (; *w; p++, w++) if (tolower((unsigned char)*p) != *w) return false;
  return true;
}
// strtod: decimal numbers whose significand has at most 15 digits and whose
// scaling is at most 10^22 are computed exactly (one correctly rounded
// operation); others only for fully concrete text (host strtod).
static int sx_dexp;  // decimal magnitude of the last number: |value| < 10^sx_dexp
double strtod(const char* s, char** end) {
  const char* p = s;
  sx_dexp = 0;
  while (isspace((unsigned char)*p)) p++;
  bool neg = false;
  if (*p == '-') { neg = true; p++; } else if (*p == '+') p++;
  double r;
  if (ciPrefix(p, "inf")) {
    p += ciPrefix(p, "infinity") ? 8 : 3;
    r = __builtin_inf();
  } else if (ciPrefix(p, "nan")) {
    p += 3;
    if (*p == '(') {
      const char* q = p + 1;
      while (isalnum((unsigned char)*q) || *q == '_') q++;
      if (*q == ')') p = q + 1;
    }
    r = __builtin_nan("");
  } else if (p[0] == '0' && (p[1] == 'x' || p[1] == 'X') &&
             (digitVal(p[2]) < 16 || (p[2] == '.' && digitVal(p[3]) < 16))) {
    p += 2;
    unsigned long long m = 0;
    int e = 0;
    while (digitVal(*p) < 16) m = m * 16 + digitVal(*p++);
    if (*p == '.') { p++; while (digitVal(*p) < 16) { m = m * 16 + digitVal(*p++); e -= 4; } }
    if (*p == 'p' || *p == 'P') {
      const char* q = p + 1;
      bool en = false;
      if (*q == '-') { en = true; q++; } else if (*q == '+') q++;
      if (isdigit((unsigned char)*q)) {
        int x = 0;
        while (isdigit((unsigned char)*q)) { if (x < 10000) x = x * 10 + (*q - '0'); q++; }
        e += en ? -x : x;
        p = q;
      }
    }
    r = (double)m;
    for (; e > 0 && e < 4000; e--) r *= 2.0;
    for (; e < 0 && e > -4000; e++) r *= 0.5;
  } else {
    unsigned long long m = 0;
    int nd = 0, e = 0;
    bool any = false;
    while (isdigit((unsigned char)*p)) { any = true; if (nd < 18) { m = m * 10 + (*p - '0'); nd++; } else e++; p++; }
    if (*p == '.') {
      const char* q = p + 1;
      if (any || isdigit((unsigned char)*q)) {
        p = q;
        while (isdigit((unsigned char)*p)) { any = true; if (nd < 18) { m = m * 10 + (*p - '0'); if (m) nd++; e--; } p++; }
      }
    }
    if (!any) { if (end) *end = (char*)s; return 0.0; }
    if (*p == 'e' || *p == 'E') {
      const char* q = p + 1;
      bool en = false;
      if (*q == '-') { en = true; q++; } else if (*q == '+') q++;
      if (isdigit((unsigned char)*q)) {
        int x = 0;
        while (isdigit((unsigned char)*q)) { if (x < 10000) x = x * 10 + (*q - '0'); q++; }
        e += en ? -x : x;
        p = q;
      }
    }
    bool conc = true;
    for (const char* q = s; q < p; q++) conc = conc && sx_is_concrete((unsigned char)*q);
    if (conc) {
      char buf[128];
      size_t n = 0;
      for (const char* q = s; q < p && n < 127; q++) buf[n++] = *q;
      buf[n] = 0;
      r = sx_host_strtod(buf);
      sx_dexp = 1000;
      if (end) *end = (char*)p;
      if (r == __builtin_inf() || r == -__builtin_inf()) errno = ERANGE;
      if (m && r > -2.2250738585072014e-308 && r < 2.2250738585072014e-308) errno = ERANGE;
      return r;
    }
    sx_dexp = nd + e;
    r = (double)m;
    double pw = 1.0;
    int k = e < 0 ? -e : e;
    if (k > 400) k = 400;
    // exact for k<=22; beyond that repeated scaling (rounding may differ in the
    // last bits from libc, over/underflow behaviour is the same)
    while (k > 0) {
      int st = k > 22 ? 22 : k;
      pw = 1.0;
      for (int i = 0; i < st; i++) pw *= 10.0;
      if (e < 0) r /= pw; else r *= pw;
      k -= st;
    }
    if (sx_dexp > 300 && m && r == __builtin_inf()) errno = ERANGE;
    if (sx_dexp < -300 && m && r < 2.2250738585072014e-308) errno = ERANGE;
  }
  if (end) *end = (char*)p;
  return neg ? -r : r;
}
float strtof(const char* s, char** end) {
  double d = strtod(s, end);
  float f = (float)d;
  if ((sx_dexp > 35 || sx_dexp < -30) && d != 0.0 && d != __builtin_inf() && d != -__builtin_inf() && d == d) {
    if (f == __builtin_inff() || f == -__builtin_inff()) errno = ERANGE;
    if (f > -1.17549435e-38f && f < 1.17549435e-38f) errno = ERANGE;
  }
  return f;
}

long lround(double x) { return (long)__builtin_round(x); }
long lroundf(float x) { return (long)__builtin_roundf(x); }
long long llround(double x) { return (long long)__builtin_round(x); }
long lrint(double x) { return (long)__builtin_rint(x); }
long lrintf(float x) { return (long)__builtin_rintf(x); }
// ---- printf family (the conversions the code base uses)
uint64_t sx_host_fmt_double(char* out, size_t cap, double v, int prec, int mode);
static void sx_put(char* out, size_t cap, size_t& n, char c) { if (n + 1 < cap) out[n] = c; n++; }
int vsnprintf(char* out, size_t cap, const char* f, __builtin_va_list ap) {
  size_t n = 0;
  for (; *f; f++) {
    if (*f != '%') { sx_put(out, cap, n, *f); continue; }
    f++;
    bool left = false, zero = false, plus = false;
    for (;; f++) {
      if (*f == '-') left = true; else if (*f == '0') zero = true; else if (*f == '+') plus = true;
      else if (*f == '#' || *f == ' ') {} else break;
    }
    int width = 0, prec = -1;
    if (*f == '*') { width = __builtin_va_arg(ap, int); f++; if (width < 0) { left = true; width = -width; } }
    else while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
    if (*f == '.') {
      f++; prec = 0;
      if (*f == '*') { prec = __builtin_va_arg(ap, int); f++; }
      else while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0');
    }
    int lng = 0;
    for (;; f++) {
      if (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't') lng++;
      else if (*f == 'h') lng--; else break;
    }
    char buf[400];
    const char* txt = buf;
    size_t len = 0;
    char c = *f;
    if (c == 0) break;
    if (c == '%') { sx_put(out, cap, n, '%'); continue; }
    if (c == 's') {
      txt = __builtin_va_arg(ap, const char*);
      if (!txt) txt = "(null)";
      while ((prec < 0 || len < (size_t)prec) && txt[len]) len++;
      zero = false;
    } else if (c == 'c') {
      buf[0] = (char)__builtin_va_arg(ap, int); len = 1; zero = false;
    } else if (c == 'd' || c == 'i' || c == 'u' || c == 'x' || c == 'X' || c == 'o' || c == 'p') {
      unsigned long v; bool neg = false;
      if (c == 'd' || c == 'i') {
        long x = lng > 0 ? __builtin_va_arg(ap, long) : (long)__builtin_va_arg(ap, int);
        if (lng == -1) x = (short)x; if (lng == -2) x = (signed char)x;
        neg = x < 0; v = neg ? 0ul - (unsigned long)x : (unsigned long)x;
      } else {
        v = (lng > 0 || c == 'p') ? __builtin_va_arg(ap, unsigned long) : (unsigned long)__builtin_va_arg(ap, unsigned);
        if (lng == -1) v = (unsigned short)v; if (lng == -2) v = (unsigned char)v;
      }
      unsigned base = (c == 'x' || c == 'X' || c == 'p') ? 16 : c == 'o' ? 8 : 10;
      char t[24]; int k = 0;
      do { unsigned d = v % base; t[k++] = d < 10 ? '0' + d : (c == 'X' ? 'A' : 'a') + d - 10; v /= base; } while (v);
      while (k < prec && k < 23) t[k++] = '0';
      if (prec >= 0) zero = false;
      if (neg) buf[len++] = '-'; else if (plus && (c == 'd' || c == 'i')) buf[len++] = '+';
      if (c == 'p') { buf[len++] = '0'; buf[len++] = 'x'; }
      if (zero && !left) while (len + k < (size_t)width && len < 350) buf[len++] = '0';
      while (k) buf[len++] = t[--k];
    } else if (c == 'f' || c == 'e' || c == 'g' || c == 'F' || c == 'E' || c == 'G') {
      double v = __builtin_va_arg(ap, double);
      len = sx_host_fmt_double(buf, sizeof buf, v, prec < 0 ? 6 : prec, (c | 32) == 'f' ? 1 : (c | 32) == 'e' ? 2 : 0);
    } else {
      __builtin_trap();
    }
    if (!left) for (size_t i = len; i < (size_t)width; i++) sx_put(out, cap, n, zero ? '0' : ' ');
    for (size_t i = 0; i < len; i++) sx_put(out, cap, n, txt[i]);
    if (left) for (size_t i = len; i < (size_t)width; i++) sx_put(out, cap, n, ' ');
  }
  if (cap) out[n < cap ? n : cap - 1] = 0;
  return (int)n;
}
int snprintf(char* out, size_t cap, const char* f, ...) {
  __builtin_va_list ap;
  __builtin_va_start(ap, f);
  int r = vsnprintf(out, cap, f, ap);
  __builtin_va_end(ap);
  return r;
}
int sprintf(char* out, const char* f, ...) {
  __builtin_va_list ap;
  __builtin_va_start(ap, f);
  int r = vsnprintf(out, (size_t)1 << 30, f, ap);
  __builtin_va_end(ap);
  return r;
}
int __vsnprintf_chk(char* out, size_t cap, int, size_t, const char* f, __builtin_va_list ap) { return vsnprintf(out, cap, f, ap); }
static int sx_vsscanf(const char* s, const char* f, __builtin_va_list ap) {
  int cnt = 0;
  const char* s0 = s;
  for (; *f; f++) {
    if (isspace((unsigned char)*f)) { while (isspace((unsigned char)*s)) s++; continue; }
    if (*f != '%') { if (*s != *f) return (cnt == 0 && !*s) ? -1 : cnt; s++; continue; }
    f++;
    int width = 0, lng = 0;
    while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
    while (*f == 'l') { lng++; f++; }
    if (*f == 'n') { *__builtin_va_arg(ap, int*) = (int)(s - s0); continue; }
    if (*f != 'c') while (isspace((unsigned char)*s)) s++;
    if (!*s) return cnt ? cnt : -1;
    if (*f == 'd' || *f == 'i' || *f == 'u') {
      if (width) __builtin_trap();
      char* e;
      long v = strtol(s, &e, 10);
      if (e == s) return cnt;
      s = e;
      if (lng) *__builtin_va_arg(ap, long*) = v; else *__builtin_va_arg(ap, int*) = (int)v;
      cnt++;
    } else if (*f == 'f' || *f == 'g' || *f == 'e') {
      if (width) __builtin_trap();
      char* e;
      double v = strtod(s, &e);
      if (e == s) return cnt;
      s = e;
      if (lng) *__builtin_va_arg(ap, double*) = v; else *__builtin_va_arg(ap, float*) = (float)v;
      cnt++;
    } else if (*f == 's') {
      char* d = __builtin_va_arg(ap, char*);
      int k = 0;
      while (*s && !isspace((unsigned char)*s) && (!width || k < width)) { *d++ = *s++; k++; }
      *d = 0;
      cnt++;
    } else if (*f == 'c') {
      *__builtin_va_arg(ap, char*) = *s++;
      cnt++;
    } else {
      __builtin_trap();
    }
  }
  return cnt;
}
#define SX_SSCANF(name)                                 \
  int name(const char* s, const char* f, ...) {         \
    __builtin_va_list ap;                               \
    __builtin_va_start(ap, f);                          \
    int r = sx_vsscanf(s, f, ap);                       \
    __builtin_va_end(ap);                               \
    return r;                                           \
  }
SX_SSCANF(sx_sscanf_plain)
int __isoc23_sscanf(const char* s, const char* f, ...) __attribute__((alias("sx_sscanf_plain")));
int __isoc99_sscanf(const char* s, const char* f, ...) __attribute__((alias("sx_sscanf_plain")));
int printf(const char*, ...) { return 0; }
int puts(const char*) { return 0; }
int putc(int c, FILE*) { return c; }
int fprintf(FILE*, const char*, ...) { return 0; }
int fputs(const char*, FILE*) { return 0; }
int fflush(FILE*) { return 0; }

}  // extern "C"

// ---- exceptions -----------------------------------------------------------
namespace std {
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }

static const char* sx_dup(const char* p, size_t n) {
  char* d = (char*)__builtin_malloc(n + 1);
  __builtin_memcpy(d, p, n);
  d[n] = 0;
  return d;
}
__cow_string::__cow_string() { _M_p = ""; }
__cow_string::__cow_string(const std::string& s) { _M_p = sx_dup(s.data(), s.size()); }
__cow_string::__cow_string(const char* s, size_t n) { _M_p = sx_dup(s, n); }
__cow_string::__cow_string(const __cow_string& o) noexcept { _M_p = o._M_p; }
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { _M_p = o._M_p; return *this; }
__cow_string::~__cow_string() {}
__cow_string::__cow_string(__cow_string&& o) noexcept { _M_p = o._M_p; }
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { _M_p = o._M_p; return *this; }

logic_error::logic_error(const string& s) : _M_msg(s) {}
logic_error::logic_error(const char* s) : _M_msg(s, __builtin_strlen(s)) {}
logic_error::logic_error(const logic_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error& logic_error::operator=(const logic_error& o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::logic_error(logic_error&& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error& logic_error::operator=(logic_error&& o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::~logic_error() noexcept {}
const char* logic_error::what() const noexcept { return _M_msg._M_p; }
runtime_error::runtime_error(const string& s) : _M_msg(s) {}
runtime_error::runtime_error(const char* s) : _M_msg(s, __builtin_strlen(s)) {}
runtime_error::runtime_error(const runtime_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error& runtime_error::operator=(const runtime_error& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::runtime_error(runtime_error&& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error& runtime_error::operator=(runtime_error&& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::~runtime_error() noexcept {}
const char* runtime_error::what() const noexcept { return _M_msg._M_p; }
#define SX_EXC(T, B)                                   \
  T::T(const string& s) : B(s) {}                      \
  T::T(const char* s) : B(s) {}                        \
  T::~T() noexcept {}
SX_EXC(domain_error, logic_error)
SX_EXC(invalid_argument, logic_error)
SX_EXC(length_error, logic_error)
SX_EXC(out_of_range, logic_error)
SX_EXC(range_error, runtime_error)
SX_EXC(overflow_error, runtime_error)
SX_EXC(underflow_error, runtime_error)

void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_domain_error(const char* s) { throw domain_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_range_error(const char* s) { throw range_error(s); }
void __throw_overflow_error(const char* s) { throw overflow_error(s); }
void __throw_underflow_error(const char* s) { throw underflow_error(s); }
void __throw_bad_function_call() { throw bad_function_call(); }

bool type_info::__is_pointer_p() const { return false; }
bool type_info::__is_function_p() const { return false; }

// ---- red-black tree: an unbalanced search tree has the same observable order
// semantics (header layout as in libstdc++: parent=root, left=min, right=max).
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() {
  if (x->_M_right) {
    x = x->_M_right;
    while (x->_M_left) x = x->_M_left;
  } else {
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    if (x->_M_right != y) x = y;
  }
  return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() {
  // header: colour red and parent->parent == x
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) {
    x = x->_M_left;
    while (x->_M_right) x = x->_M_right;
    return x;
  }
  _Rb_tree_node_base* y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
  x->_M_parent = p;
  x->_M_left = nullptr;
  x->_M_right = nullptr;
  x->_M_color = _S_black;
  if (left) {
    p->_M_left = x;
    if (p == &h) { h._M_parent = x; h._M_right = x; }
    else if (p == h._M_left) h._M_left = x;
  } else {
    p->_M_right = x;
    if (p == h._M_right) h._M_right = x;
  }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
  _Rb_tree_node_base *next = _Rb_tree_increment(z), *prev = nullptr;
  if (z != h._M_left) prev = _Rb_tree_decrement(z);
  _Rb_tree_node_base* r;
  if (!z->_M_left) r = z->_M_right;
  else if (!z->_M_right) r = z->_M_left;
  else {
    _Rb_tree_node_base* y = z->_M_right;
    while (y->_M_left) y = y->_M_left;
    if (y != z->_M_right) {
      y->_M_parent->_M_left = y->_M_right;
      if (y->_M_right) y->_M_right->_M_parent = y->_M_parent;
      y->_M_right = z->_M_right;
      z->_M_right->_M_parent = y;
    }
    y->_M_left = z->_M_left;
    z->_M_left->_M_parent = y;
    r = y;
  }
  if (r) r->_M_parent = z->_M_parent;
  if (z->_M_parent == &h) h._M_parent = r;
  else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = r;
  else z->_M_parent->_M_right = r;
  if (z == h._M_left) h._M_left = next;   // next may be the header itself
  if (z == h._M_right) h._M_right = prev ? prev : &h;
  return z;
}
unsigned int _Rb_tree_black_count(const _Rb_tree_node_base*, const _Rb_tree_node_base*) throw() { return 0; }

// ---- list
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* p) noexcept {
  _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this;
}
void _List_node_base::_M_unhook() noexcept {
  _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next;
}
void _List_node_base::_M_transfer(_List_node_base* f, _List_node_base* l) noexcept {
  if (this != l) {
    l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f;
    _List_node_base* t = _M_prev; _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t;
  }
}
void _List_node_base::_M_reverse() noexcept {
  _List_node_base* t = this;
  do { _List_node_base* n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this);
}
void _List_node_base::swap(_List_node_base& a, _List_node_base& b) noexcept {
  bool ea = a._M_next == &a, eb = b._M_next == &b;
  _List_node_base ta = a, tb = b;
  if (eb) { a._M_next = a._M_prev = &a; } else { a = tb; a._M_next->_M_prev = a._M_prev->_M_next = &a; }
  if (ea) { b._M_next = b._M_prev = &b; } else { b = ta; b._M_next->_M_prev = b._M_prev->_M_next = &b; }
}
// ---- hash tables: a single bucket keeps every operation exact and avoids
// symbolic bucket indices.
size_t _Prime_rehash_policy::_M_next_bkt(size_t) const { _M_next_resize = (size_t)-1; return 1; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t, size_t, size_t) const { return {false, 0}; }
}  // namespace __detail
size_t _Hash_bytes(const void* p, size_t n, size_t seed) {
  const unsigned char* b = (const unsigned char*)p;
  size_t h = seed;
  for (size_t i = 0; i < n; i++) h = h * 31 + b[i];
  return h;
}
size_t _Fnv_hash_bytes(const void* p, size_t n, size_t seed) { return _Hash_bytes(p, n, seed); }
}  // namespace std
// ---- complex helpers (libm, compiler runtime) ----
extern "C" float hypotf(float, float);
extern "C" double hypot(double, double);
extern "C" float cabsf(float _Complex z) { return hypotf(__real__ z, __imag__ z); }
extern "C" double cabs(double _Complex z) { return hypot(__real__ z, __imag__ z); }
// only reached when the plain product is NaN in both parts; recovery of infinities is not modelled
extern "C" double _Complex __muldc3(double a, double b, double c, double d) {
  double _Complex z;
  __real__ z = a * c - b * d;
  __imag__ z = a * d + b * c;
  return z;
}
extern "C" float _Complex __mulsc3(float a, float b, float c, float d) {
  float _Complex z;
  __real__ z = a * c - b * d;
  __imag__ z = a * d + b * c;
  return z;
}

// Clocks: time stands still (the timing harness has its own clock).
#include <chrono>
namespace std { namespace chrono { inline namespace _V2 {
__attribute__((weak)) steady_clock::time_point steady_clock::now() noexcept { return time_point(); }
__attribute__((weak)) system_clock::time_point system_clock::now() noexcept { return time_point(); }
}}}
extern "C" float cargf(float _Complex z) { return __builtin_atan2f(__imag__ z, __real__ z); }
extern "C" double carg(double _Complex z) { return __builtin_atan2(__imag__ z, __real__ z); }
