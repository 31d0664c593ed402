// Stand-in for the parts of casacore (not installed here) that the checked code uses, with casacore's documented
// semantics: column-major arrays with reference semantics, strings, patterns, records and measures.
// Conversions between different reference frames are not modelled (they throw).
#pragma once
#include <algorithm>
#include <array>
#include <cassert>
#include <cmath>
#include <complex>
#include <cstdint>
#include <iosfwd>
#include <limits>
#include <map>
#include <memory>
#include <numeric>
#include <ostream>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>
#include "casa/BasicMath/Math.h"
#include "casa/BasicSL/Constants.h"
#define CASACORE_MAJOR_VERSION 3
#define CASACORE_MINOR_VERSION 5
namespace casacore {
typedef int Int; typedef unsigned uInt; typedef bool Bool; typedef float Float; typedef double Double; typedef char Char; typedef unsigned char uChar;
typedef long long Int64; typedef unsigned long long uInt64; typedef std::complex<float> Complex; typedef std::complex<double> DComplex;
typedef std::uint64_t rownr_t; typedef short Short;
constexpr bool True = true, False = false;
enum StorageInitPolicy { COPY, TAKE_OVER, SHARE };
inline bool isFinite(double v) { return std::isfinite(v); }
inline bool isFinite(float v) { return std::isfinite(v); }
inline bool isNaN(double v) { return std::isnan(v); }
inline bool isNaN(float v) { return std::isnan(v); }
using std::ostream;
class AipsError : public std::runtime_error { public: explicit AipsError(const std::string& s = "") : std::runtime_error(s) {} };
// ---- patterns: literals, . [..] () | * + ? ^ $ and \ escapes, matched by backtracking
class Regex {
 public:
  Regex() {}
  Regex(const char* s) : r_(s) {}
  Regex(const std::string& s) : r_(s) {}
  static std::string fromPattern(const std::string& p) {  // shell pattern to regular expression
    std::string r;
    bool cls = false;
    int alt = 0;
    for (size_t i = 0; i < p.size(); ++i) {
      const char c = p[i];
      if (cls) { if (c == ']') cls = false; if (c == '!' && p[i - 1] == '[') r += '^'; else r += c; continue; }
      switch (c) {
        case '*': r += ".*"; break;
        case '?': r += '.'; break;
        case '[': cls = true; r += c; break;
        case '{': ++alt; r += "(("; break;
        case '}': if (alt) { --alt; r += "))"; } else r += "\\}"; break;
        case ',': if (alt) r += ")|("; else r += ','; break;
        case '\\': r += c; if (i + 1 < p.size()) r += p[++i]; break;
        case '.': case '+': case '(': case ')': case '|': case '^': case '$': r += '\\'; r += c; break;
        default: r += c;
      }
    }
    return r;
  }
  const std::string& regexp() const { return r_; }
  // length of the longest match at position pos of s, or npos
  size_t match(const std::string& s, size_t pos) const {
    size_t best = std::string::npos;
    alternatives(0, r_.size(), s, pos, [&](size_t e) { if (best == std::string::npos || e - pos > best) best = e - pos; return false; });
    return best;
  }
  bool fullMatch(const std::string& s) const {
    return alternatives(0, r_.size(), s, 0, [&](size_t e) { return e == s.size(); });
  }
 private:
  struct cont { virtual bool operator()(size_t e) = 0; };
  template <class F> struct contf : cont { F f; explicit contf(F g) : f(g) {} bool operator()(size_t e) override { return f(e); } };
  template <class F> bool alternatives(size_t b, size_t e, const std::string& s, size_t pos, F f) const { contf<F> c(f); return alts(b, e, s, pos, c); }
  bool alts(size_t b, size_t e, const std::string& s, size_t pos, cont& k) const {
    for (size_t st = b;;) {
      size_t i = st;
      while (i < e && r_[i] != '|') i = atomEnd(i, e);
      if (seq(st, i, s, pos, k)) return true;
      if (i >= e) return false;
      st = i + 1;
    }
  }
  size_t atomEnd(size_t i, size_t e) const {
    if (r_[i] == '\\') return std::min(i + 2, e);
    if (r_[i] == '[') { size_t j = i + 1; if (j < e && r_[j] == '^') ++j; if (j < e && r_[j] == ']') ++j; while (j < e && r_[j] != ']') ++j; return std::min(j + 1, e); }
    if (r_[i] == '(') { int d = 0; size_t j = i; while (j < e) { if (r_[j] == '\\') { j += 2; continue; } if (r_[j] == '(') ++d; if (r_[j] == ')' && --d == 0) return j + 1; ++j; } return e; }
    return i + 1;
  }
  bool one(size_t b, size_t e, char c) const {  // single-character atom
    if (r_[b] == '\\') return b + 1 < e && r_[b + 1] == c;
    if (r_[b] == '.') return true;
    if (r_[b] == '[') {
      size_t j = b + 1; bool neg = false, in = false;
      if (r_[j] == '^') { neg = true; ++j; }
      for (; j + 1 < e; ++j) {
        if (j + 3 < e && r_[j + 1] == '-') { if (c >= r_[j] && c <= r_[j + 2]) in = true; j += 2; } else if (r_[j] == c) in = true;
      }
      return in != neg;
    }
    return r_[b] == c;
  }
  bool seq(size_t b, size_t e, const std::string& s, size_t pos, cont& k) const {
    if (b >= e) return k(pos);
    if (r_[b] == '^') return pos == 0 && seq(b + 1, e, s, pos, k);
    if (r_[b] == '$') return pos == s.size() && seq(b + 1, e, s, pos, k);
    const size_t ae = atomEnd(b, e);
    const char q = ae < e ? r_[ae] : 0;
    const bool star = q == '*', plus = q == '+', opt = q == '?';
    const size_t next = ae + (star || plus || opt ? 1 : 0);
    return rep(b, ae, next, e, s, pos, k, plus ? 1 : star || opt ? 0 : 1, star || plus ? size_t(-1) : 1);
  }
  bool rep(size_t b, size_t ae, size_t next, size_t e, const std::string& s, size_t pos, cont& k, size_t mn, size_t mx) const {
    if (mx > 0) {
      auto go = [&, pos](size_t p) { return (p != pos || mn > 0) && rep(b, ae, next, e, s, p, k, mn ? mn - 1 : 0, mx == size_t(-1) ? mx : mx - 1); };
      contf<decltype(go)> c(go);
      if (r_[b] == '(') { if (alts(b + 1, ae - 1, s, pos, c)) return true; }
      else if (pos < s.size() && one(b, ae, s[pos]) && c(pos + 1)) return true;
    }
    return mn == 0 && seq(next, e, s, pos, k);
  }
  std::string r_;
};
class String : public std::string {
 public:
  using std::string::string;
  String() {}
  String(const std::string& s) : std::string(s) {}
  String(std::string&& s) : std::string(std::move(s)) {}
  explicit String(char c) : std::string(1, c) {}
  size_type index(const Regex& r) const { for (size_t i = 0; i <= size(); ++i) if (r.match(*this, i) != npos) return i; return npos; }
  String from(size_type p) const { return p < size() ? String(substr(p)) : String(); }
  String before(size_type p) const { return String(substr(0, p)); }
  String after(size_type p) const { return p + 1 < size() ? String(substr(p + 1)) : String(); }
  bool matches(const Regex& r) const { return r.fullMatch(*this); }
  bool contains(char c) const { return find(c) != npos; }
  bool contains(const std::string& c) const { return find(c) != npos; }
  template <class T> static String toString(const T& v) { return std::to_string(v); }
  void upcase() { for (char& c : *this) c = std::toupper(c); }
  void downcase() { for (char& c : *this) c = std::tolower(c); }
};
inline const Regex RXidentifier("[A-Za-z_][A-Za-z0-9_]*");
inline String operator+(const std::string& a, const String& b) { return String(a + static_cast<const std::string&>(b)); }
inline String operator+(std::string&& a, const String& b) { return String(a + static_cast<const std::string&>(b)); }
inline String operator+(String&& a, const std::string& b) { return String(static_cast<const std::string&>(a) + b); }
inline String operator+(const char* a, const String& b) { return String(a + static_cast<const std::string&>(b)); }
inline String operator+(const String& a, const char* b) { return String(static_cast<const std::string&>(a) + b); }
inline String operator+(const String& a, const std::string& b) { return String(static_cast<const std::string&>(a) + b); }
inline String operator+(const String& a, const String& b) { return String(static_cast<const std::string&>(a) + static_cast<const std::string&>(b)); }
// ---- arrays
class IPosition {
 public:
  IPosition() {}
  explicit IPosition(size_t n) : v_(n) {}
  template <class... T> IPosition(size_t n, long long a, T... r) : v_{a, static_cast<long long>(r)...} { if (v_.size() == 1 && n > 1) v_.assign(n, a); if (v_.size() != n) throw AipsError("IPosition"); }
  size_t size() const { return v_.size(); }
  size_t nelements() const { return v_.size(); }
  long long& operator[](size_t i) { return v_[i]; }
  long long operator[](size_t i) const { return v_[i]; }
  long long& operator()(size_t i) { return v_[i]; }
  long long operator()(size_t i) const { return v_[i]; }
  long long product() const { if (v_.empty()) return 0; long long p = 1; for (long long x : v_) p *= x; return p; }
  bool isEqual(const IPosition& o) const { return v_ == o.v_; }
  bool operator==(const IPosition& o) const { return v_ == o.v_; }
  bool operator!=(const IPosition& o) const { return v_ != o.v_; }
  auto begin() const { return v_.begin(); }
  auto end() const { return v_.end(); }
 private:
  std::vector<long long> v_;
};
class Slice {
 public:
  Slice() : all(true) {}
  Slice(size_t s, size_t l = 1, size_t i = 1) : st(s), len(l), inc(i), all(false) {}
  size_t st = 0, len = 0, inc = 1;
  bool all;
};
template <class N, class = std::enable_if_t<std::is_integral_v<N>>> bool operator!=(const IPosition& a, N v) { for (size_t i = 0; i < a.size(); ++i) if (a[i] != (long long)v) return true; return false; }
class Slicer { public: Slicer() {} Slicer(const IPosition& s, const IPosition& l) : start(s), len(l) {} IPosition start, len; };
template <class T> class Array {
 public:
  typedef T value_type;
  class iterator {
   public:
    using iterator_category = std::forward_iterator_tag; using value_type = T; using difference_type = std::ptrdiff_t; using pointer = T*; using reference = T&;
    iterator() {}
    iterator(const Array* a, size_t i) : a_(a), i_(i) {}
    T& operator*() const { return *const_cast<Array*>(a_)->at(i_); }
    T* operator->() const { return const_cast<Array*>(a_)->at(i_); }
    iterator& operator++() { ++i_; return *this; }
    iterator operator++(int) { iterator r = *this; ++i_; return r; }
    iterator& operator+=(std::ptrdiff_t n) { i_ += n; return *this; }
    iterator operator+(std::ptrdiff_t n) const { return iterator(a_, i_ + n); }
    std::ptrdiff_t operator-(const iterator& o) const { return std::ptrdiff_t(i_) - std::ptrdiff_t(o.i_); }
    bool operator==(const iterator& o) const { return i_ == o.i_; }
    bool operator!=(const iterator& o) const { return i_ != o.i_; }
   private:
    const Array* a_ = nullptr; size_t i_ = 0;
  };
  typedef iterator const_iterator;
  Array() {}
  explicit Array(const IPosition& s) { set(s); }
  Array(const IPosition& s, const T& v) { set(s); for (size_t i = 0; i < n_; ++i) *at(i) = v; }
  Array(const IPosition& s, T* p, StorageInitPolicy pol = COPY) {
    set(s, pol == COPY);
    if (pol == COPY) std::copy(p, p + n_, p_); else p_ = p;
  }
  Array(const Array& o) = default;  // reference
  Array(Array&& o) = default;
  virtual ~Array() {}
  Array& operator=(const Array& o) { assign_conforming(o); return *this; }
  Array& operator=(const T& v) { for (size_t i = 0; i < n_; ++i) *at(i) = v; return *this; }
  void reference(const Array& o) { store_ = o.store_; p_ = o.p_; shape_ = o.shape_; step_ = o.step_; n_ = o.n_; }
  void assign(const Array& o) { Array c = o.copy(); reference(c); }
  void assign_conforming(const Array& o) {
    if (this == &o) return;
    if (!(shape_ == o.shape_)) { reference(Array(o.shape_)); }
    std::vector<T> t; t.reserve(n_);
    for (size_t i = 0; i < n_; ++i) t.push_back(*o.at(i));
    for (size_t i = 0; i < n_; ++i) *at(i) = t[i];
  }
  Array copy() const { Array r(shape_); for (size_t i = 0; i < n_; ++i) *r.at(i) = *at(i); return r; }
  void unique() { reference(copy()); }
  void set(const T& v) { *this = v; }
  void resize(const IPosition& s, bool keep = false) {
    if (s == shape_) return;
    Array r(s);
    if (keep) {
      for (size_t i = 0; i < r.n_; ++i) {
        size_t rem = i; bool in = true; size_t off = 0;
        for (size_t k = 0; k < s.size(); ++k) { const size_t x = rem % s[k]; rem /= s[k]; if (k >= shape_.size() || x >= size_t(shape_[k])) in = false; else off += x * step_[k]; }
        if (in) *r.at(i) = p_[off];
      }
    }
    reference(r);
  }
  void resize() { reference(Array()); }
  const IPosition& shape() const { return shape_; }
  size_t ndim() const { return shape_.size(); }
  size_t size() const { return n_; }
  size_t nelements() const { return n_; }
  bool empty() const { return n_ == 0; }
  bool contiguousStorage() const { long long m = 1; for (size_t k = 0; k < shape_.size(); ++k) { if (shape_[k] != 1 && step_[k] != m) return false; m *= shape_[k]; } return true; }
  T* data() { return p_; }
  const T* data() const { return p_; }
  const T* getStorage(bool& d) const { d = false; return p_; }
  T* getStorage(bool& d) { d = false; return p_; }
  void freeStorage(const T*&, bool) const {}
  void putStorage(T*&, bool) {}
  typedef const T* const_contiter;
  typedef T* contiter;
  T* cbegin() { return p_; }
  const T* cbegin() const { return p_; }
  T* cend() { return p_ + n_; }
  const T* cend() const { return p_ + n_; }
  iterator begin() { return iterator(this, 0); }
  iterator end() { return iterator(this, n_); }
  iterator begin() const { return iterator(this, 0); }
  iterator end() const { return iterator(this, n_); }
  T& operator()(const IPosition& i) { return p_[off(i)]; }
  const T& operator()(const IPosition& i) const { return p_[off(i)]; }
  Array operator()(const Slicer& c) const { IPosition e(c.start.size()); for (size_t k = 0; k < e.size(); ++k) e[k] = c.start[k] + c.len[k] - 1; return section(c.start, e, IPosition(e.size(), 1)); }
  Array operator()(const IPosition& s, const IPosition& e) const { return section(s, e, IPosition(s.size(), 1)); }
  Array operator()(const IPosition& s, const IPosition& e, const IPosition& inc) const { return section(s, e, inc); }
  std::vector<T> tovector() const { return std::vector<T>(begin(), end()); }
  Array diag() const { Array r; r.store_ = store_; r.p_ = p_; r.n_ = std::min(shape_[0], shape_[1]); r.shape_ = IPosition(1, r.n_); r.step_ = {step_[0] + step_[1]}; return r; }
  T* at(size_t i) { return p_ + flat(i); }
  const T* at(size_t i) const { return p_ + flat(i); }
  Array section(const IPosition& s, const IPosition& e, const IPosition& inc) const {
    Array r(*this);
    r.n_ = 1;
    for (size_t k = 0; k < shape_.size(); ++k) {
      if (s[k] < 0 || e[k] >= shape_[k] || inc[k] < 1) throw AipsError("Array section out of bounds");
      r.shape_[k] = (e[k] - s[k]) / inc[k] + 1; r.step_[k] = step_[k] * inc[k]; r.n_ *= r.shape_[k]; r.p_ += s[k] * step_[k];
    }
    return r;
  }
  Array drop(size_t axis, size_t i) const {  // fix one axis
    Array r;
    r.store_ = store_; r.p_ = p_ + i * step_[axis]; r.n_ = 1;
    IPosition s(shape_.size() - 1);
    for (size_t k = 0, j = 0; k < shape_.size(); ++k) if (k != axis) { s[j++] = shape_[k]; r.step_.push_back(step_[k]); r.n_ *= shape_[k]; }
    r.shape_ = s;
    return r;
  }
  Array reform(const IPosition& s) const { if (size_t(s.product()) != n_) throw AipsError("reform"); Array c(*this); Array r(s); if (contiguousStorage()) { r.store_ = store_; r.p_ = p_; } else { for (size_t i = 0; i < n_; ++i) *r.at(i) = *c.at(i); } return r; }
 protected:
  void set(const IPosition& s, bool allocate = true) {
    shape_ = s; n_ = s.product(); step_.clear();
    long long m = 1;
    for (size_t k = 0; k < s.size(); ++k) { step_.push_back(m); m *= s[k]; }
    if (allocate) { store_ = std::shared_ptr<T[]>(new T[n_ ? n_ : 1]()); p_ = store_.get(); }
  }
  size_t flat(size_t i) const {
    if (i >= n_ && n_) throw AipsError("Array index out of bounds");
    size_t o = 0;
    for (size_t k = 0; k < shape_.size(); ++k) { o += (i % shape_[k]) * step_[k]; i /= shape_[k]; }
    return o;
  }
  size_t off(const IPosition& i) const { size_t o = 0; for (size_t k = 0; k < shape_.size(); ++k) { if (i[k] < 0 || i[k] >= shape_[k]) throw AipsError("Array index out of bounds"); o += i[k] * step_[k]; } return o; }
  std::shared_ptr<T[]> store_;
  T* p_ = nullptr;
  IPosition shape_;
  std::vector<long long> step_;
  size_t n_ = 0;
};
template <class T> class Vector : public Array<T> {
 public:
  Vector() : Array<T>(IPosition(1, 0)) {}
  explicit Vector(size_t n) : Array<T>(IPosition(1, n)) {}
  Vector(size_t n, const T& v) : Array<T>(IPosition(1, n), v) {}
  Vector(const IPosition& s) : Array<T>(s) {}
  Vector(const IPosition& s, T* p, StorageInitPolicy pol) : Array<T>(s, p, pol) {}
  Vector(const std::vector<T>& v) : Array<T>(IPosition(1, v.size())) { std::copy(v.begin(), v.end(), this->begin()); }
  Vector(const Array<T>& a) : Array<T>(a) { if (a.ndim() != 1) throw AipsError("Vector of more dimensions"); }
  template <class U, std::enable_if_t<!std::is_same_v<U, T> && std::is_convertible_v<U, T>, int> = 0> explicit Vector(const std::vector<U>& v) : Array<T>(IPosition(1, v.size())) { std::copy(v.begin(), v.end(), this->begin()); }
  Vector(std::initializer_list<T> l) : Array<T>(IPosition(1, l.size())) { std::copy(l.begin(), l.end(), this->begin()); }
  template <class It, std::enable_if_t<!std::is_integral_v<It>, int> = 0> Vector(It b, It e) : Array<T>(IPosition(1, std::distance(b, e))) { std::copy(b, e, this->begin()); }
  Vector(const Vector&) = default;
  Vector(Vector&&) = default;
  Vector& operator=(const Vector& o) { this->assign_conforming(o); return *this; }
  Vector& operator=(Vector&& o) { this->assign_conforming(o); return *this; }
  Vector& operator=(const Array<T>& o) { this->assign_conforming(o); return *this; }
  Vector& operator=(const T& v) { Array<T>::operator=(v); return *this; }
  using Array<T>::operator();
  using Array<T>::resize;
  void resize(size_t n, bool keep = false) { Array<T>::resize(IPosition(1, n), keep); }
  T& operator[](size_t i) { return *this->at(i); }
  const T& operator[](size_t i) const { return *this->at(i); }
  T& operator()(size_t i) { return *this->at(i); }
  const T& operator()(size_t i) const { return *this->at(i); }
};
template <class T> class Matrix : public Array<T> {
 public:
  Matrix() : Array<T>(IPosition(2, 0, 0)) {}
  Matrix(size_t a, size_t b) : Array<T>(IPosition(2, a, b)) {}
  Matrix(size_t a, size_t b, const T& v) : Array<T>(IPosition(2, a, b), v) {}
  Matrix(const IPosition& s) : Array<T>(s) {}
  Matrix(const IPosition& s, T* p, StorageInitPolicy pol) : Array<T>(s, p, pol) {}
  Matrix(const Array<T>& a) : Array<T>(a) { if (a.ndim() != 2) throw AipsError("Matrix of other dimensions"); }
  Matrix(const Matrix&) = default;
  Matrix(Matrix&&) = default;
  Matrix& operator=(const Matrix& o) { this->assign_conforming(o); return *this; }
  Matrix& operator=(Matrix&& o) { this->assign_conforming(o); return *this; }
  Matrix& operator=(const Array<T>& o) { this->assign_conforming(o); return *this; }
  Matrix& operator=(const T& v) { Array<T>::operator=(v); return *this; }
  using Array<T>::operator();
  using Array<T>::resize;
  void resize(size_t a, size_t b, bool keep = false) { Array<T>::resize(IPosition(2, a, b), keep); }
  T& operator()(size_t i, size_t j) { return (*this)(IPosition(2, i, j)); }
  const T& operator()(size_t i, size_t j) const { return (*this)(IPosition(2, i, j)); }
  size_t nrow() const { return this->shape_[0]; }
  size_t ncolumn() const { return this->shape_[1]; }
  Vector<T> row(size_t i) const { return this->drop(0, i); }
  Vector<T> column(size_t i) const { return this->drop(1, i); }
  Vector<T> diagonal() const { return this->diag(); }
};
template <class T> class Cube : public Array<T> {
 public:
  Cube() : Array<T>(IPosition(3, 0, 0, 0)) {}
  Cube(size_t a, size_t b, size_t c) : Array<T>(IPosition(3, a, b, c)) {}
  Cube(size_t a, size_t b, size_t c, const T& v) : Array<T>(IPosition(3, a, b, c), v) {}
  Cube(const IPosition& s) : Array<T>(s) {}
  Cube(const IPosition& s, T* p, StorageInitPolicy pol) : Array<T>(s, p, pol) {}
  Cube(const Array<T>& a) : Array<T>(a) {}
  Cube(const Cube&) = default;
  Cube(Cube&&) = default;
  Cube& operator=(const Cube& o) { this->assign_conforming(o); return *this; }
  Cube& operator=(Cube&& o) { this->assign_conforming(o); return *this; }
  Cube& operator=(const Array<T>& o) { this->assign_conforming(o); return *this; }
  Cube& operator=(const T& v) { Array<T>::operator=(v); return *this; }
  using Array<T>::operator();
  using Array<T>::resize;
  void resize(size_t a, size_t b, size_t c, bool keep = false) { Array<T>::resize(IPosition(3, a, b, c), keep); }
  T& operator()(size_t i, size_t j, size_t k) { return (*this)(IPosition(3, i, j, k)); }
  const T& operator()(size_t i, size_t j, size_t k) const { return (*this)(IPosition(3, i, j, k)); }
  size_t nrow() const { return this->shape_[0]; }
  size_t ncolumn() const { return this->shape_[1]; }
  size_t nplane() const { return this->shape_[2]; }
  Matrix<T> xyPlane(size_t k) const { return this->drop(2, k); }
};
#define CASA_OP(op) \
  template <class T> Array<T> operator op(const Array<T>& a, const Array<T>& b) { if (a.size() != b.size()) throw AipsError("conform"); Array<T> r(a.shape()); for (size_t i = 0; i < a.size(); ++i) *r.at(i) = *a.at(i) op *b.at(i); return r; } \
  template <class T> Array<T> operator op(const Array<T>& a, const T& b) { Array<T> r(a.shape()); for (size_t i = 0; i < a.size(); ++i) *r.at(i) = *a.at(i) op b; return r; } \
  template <class T> Array<T> operator op(const T& b, const Array<T>& a) { Array<T> r(a.shape()); for (size_t i = 0; i < a.size(); ++i) *r.at(i) = b op *a.at(i); return r; } \
  template <class T> void operator op##=(Array<T>& a, const Array<T>& b) { for (size_t i = 0; i < a.size(); ++i) *a.at(i) op##= *b.at(i); } \
  template <class T> void operator op##=(Array<T>& a, const T& b) { for (size_t i = 0; i < a.size(); ++i) *a.at(i) op##= b; }
CASA_OP(+) CASA_OP(-) CASA_OP(*) CASA_OP(/)
#undef CASA_OP
inline Array<bool> operator&&(const Array<bool>& a, const Array<bool>& b) { if (!(a.shape() == b.shape())) throw AipsError("conform"); Array<bool> r(a.shape()); for (size_t i = 0; i < a.size(); ++i) *r.at(i) = *a.at(i) & *b.at(i); return r; }
template <class T> T sum(const Array<T>& a) { T s(0); for (size_t i = 0; i < a.size(); ++i) s += *a.at(i); return s; }
template <class T> T max(const Array<T>& a) { T s = *a.at(0); for (size_t i = 1; i < a.size(); ++i) s = std::max(s, *a.at(i)); return s; }
template <class T> T min(const Array<T>& a) { T s = *a.at(0); for (size_t i = 1; i < a.size(); ++i) s = std::min(s, *a.at(i)); return s; }
template <class T> bool allEQ(const Array<T>& a, const T& v) { for (size_t i = 0; i < a.size(); ++i) if (!(*a.at(i) == v)) return false; return true; }
template <class T> bool allEQ(const Array<T>& a, const Array<T>& b) { if (!(a.shape() == b.shape())) return false; for (size_t i = 0; i < a.size(); ++i) if (!(*a.at(i) == *b.at(i))) return false; return true; }
template <class T> bool anyEQ(const Array<T>& a, const T& v) { for (size_t i = 0; i < a.size(); ++i) if (*a.at(i) == v) return true; return false; }
template <class T> bool allNear(const Array<T>& a, const Array<T>& b, double tol) { if (!(a.shape() == b.shape())) return false; for (size_t i = 0; i < a.size(); ++i) if (!near(*a.at(i), *b.at(i), tol)) return false; return true; }
template <class T> size_t ntrue(const Array<T>& a) { size_t n = 0; for (size_t i = 0; i < a.size(); ++i) if (*a.at(i)) ++n; return n; }
template <class T> bool anyTrue(const Array<T>& a) { return ntrue(a) > 0; }
template <class T> bool allTrue(const Array<T>& a) { return ntrue(a) == a.size(); }
template <class T> void indgen(Array<T>& a) { for (size_t i = 0; i < a.size(); ++i) *a.at(i) = T(i); }
template <class T> Matrix<T> transpose(const Matrix<T>& m) { Matrix<T> r(m.ncolumn(), m.nrow()); for (size_t i = 0; i < m.nrow(); ++i) for (size_t j = 0; j < m.ncolumn(); ++j) r(j, i) = m(i, j); return r; }
template <class T> Matrix<T> product(const Matrix<T>& a, const Matrix<T>& b) { Matrix<T> r(a.nrow(), b.ncolumn()); for (size_t i = 0; i < a.nrow(); ++i) for (size_t j = 0; j < b.ncolumn(); ++j) { T s(0); for (size_t k = 0; k < a.ncolumn(); ++k) s += a(i, k) * b(k, j); r(i, j) = s; } return r; }
template <class T> Vector<T> product(const Matrix<T>& a, const Vector<T>& b) { Vector<T> r(a.nrow()); for (size_t i = 0; i < a.nrow(); ++i) { T s(0); for (size_t k = 0; k < a.ncolumn(); ++k) s += a(i, k) * b[k]; r[i] = s; } return r; }
template <class T> void convertArray(Array<T>& to, const Array<bool>& from) { for (size_t i = 0; i < to.size(); ++i) *to.at(i) = T(*from.at(i)); }
template <class T> std::ostream& operator<<(std::ostream& os, const Array<T>&) { return os; }
template <class T> class Block : public std::vector<T> { public: using std::vector<T>::vector; size_t nelements() const { return this->size(); } };
template <class T> int linearSearch1(const Vector<T>& v, const T& x) { for (size_t i = 0; i < v.size(); ++i) if (v[i] == x) return int(i); return -1; }
// ---- quantities
class Unit { public: Unit() {} Unit(const char* s) : s_(s) {} Unit(const std::string& s) : s_(s) {} const std::string& getName() const { return s_; }
  double scale() const {  // to base units
    static const char* const n[] = {"", "Hz", "kHz", "MHz", "GHz", "THz", "rad", "deg", "arcmin", "arcsec", "s", "min", "h", "d", "m", "km", "cm", "mm"};
    static const double f[] = {1, 1, 1e3, 1e6, 1e9, 1e12, 1, C::pi / 180, C::pi / 10800, C::pi / 648000, 1, 60, 3600, 86400, 1, 1e3, 1e-2, 1e-3};
    for (size_t i = 0; i < sizeof n / sizeof *n; ++i) if (s_ == n[i]) return f[i];
    throw AipsError("Unknown unit " + s_);
  }
 private: std::string s_; };
template <class T> class Quantum {
 public:
  Quantum() : v_() {}
  Quantum(const T& v) : v_(v) {}
  Quantum(const T& v, const Unit& u) : v_(v), u_(u) {}
  const T& getValue() const { return v_; }
  T& getValue() { return v_; }
  T getValue(const Unit& u, bool = false) const { return v_ * (u_.scale() / u.scale()); }
  T getBaseValue() const { return v_ * u_.scale(); }
  const std::string& getUnit() const { return u_.getName(); }
  const Unit& getFullUnit() const { return u_; }
 private:
  T v_;
  Unit u_;
};
typedef Quantum<double> Quantity;
class MVAngle {
 public:
  MVAngle(double v = 0) : v_(v) {}
  MVAngle(const Quantity& q) : v_(q.getBaseValue()) {}
  double radian() const { return v_; }
  double degree() const { return v_ / C::degree; }
  operator double() const { return v_; }
  static bool read(Quantity& res, const std::string& in, bool = true);  // defined by the harness that needs it
 private: double v_; };
class MVTime {
 public:
  enum formatTypes { ANGLE, TIME, CLEAN, NO_D = 1024, NO_H, YMD, DMY };
  MVTime(double days = 0) : v_(days * 86400) {}
  MVTime(const Quantity& q) : v_(q.getBaseValue()) {}
  static bool read(Quantity& res, const std::string& in, bool = true);
  static bool read(Quantity& res, MVAngle&, const std::string& in, bool = true);
  String string(unsigned = 0, unsigned = 0) const { return ""; }
  double second() const { return v_; }
  double day() const { return v_ / 86400; }
  struct Format { Format(int = 0, int = 0) {} };
  static Format format(int = 0, int = 0) { return {}; }
  friend std::ostream& operator<<(std::ostream& o, const MVTime&) { return o; }
 private: double v_ = 0; };
inline std::ostream& operator<<(std::ostream& o, const MVTime::Format&) { return o; }
// ---- records
class Record {
 public:
  std::map<std::string, std::shared_ptr<void>> f;
  bool isDefined(const std::string& s) const { return f.count(s) > 0; }
  size_t nfields() const { return f.size(); }
  size_t size() const { return f.size(); }
  template <class T> void define(const std::string& s, const T& v) { f[s] = std::make_shared<T>(v); }
  void define(const std::string& s, const char* v) { f[s] = std::make_shared<std::string>(v); }
  String asString(const std::string& n) const { return get<std::string>(n); }
  Record asRecord(const std::string& n) const { return get<Record>(n); }
  Record subRecord(size_t i) const { auto it = f.begin(); std::advance(it, i); return *static_cast<const Record*>(it->second.get()); }
  template <class T> const T& get(const std::string& s) const { return *static_cast<const T*>(f.at(s).get()); }
};
typedef Record TableRecord;
// ---- measures: values in one frame
class MVPosition {
 public:
  MVPosition() {}
  MVPosition(double x, double y, double z) { v_[0] = x; v_[1] = y; v_[2] = z; }
  MVPosition(const Vector<double>& v) { for (int i = 0; i < 3; ++i) v_[i] = v[i]; }
  MVPosition(const Quantity& h, double lon, double lat) { const double r = h.getBaseValue(); v_[0] = r * std::cos(lat) * std::cos(lon); v_[1] = r * std::cos(lat) * std::sin(lon); v_[2] = r * std::sin(lat); }
  MVPosition(const Quantum<Vector<double>>& q) { for (int i = 0; i < 3; ++i) v_[i] = q.getValue()[i] * q.getFullUnit().scale(); }
  Vector<double> getValue() const { Vector<double> r(3); for (int i = 0; i < 3; ++i) r[i] = v_[i]; return r; }
  double operator()(int i) const { return v_[i]; }
  double& operator()(int i) { return v_[i]; }
  MVPosition& operator+=(const MVPosition& o) { for (int i = 0; i < 3; ++i) v_[i] += o.v_[i]; return *this; }
  MVPosition& operator-=(const MVPosition& o) { for (int i = 0; i < 3; ++i) v_[i] -= o.v_[i]; return *this; }
  MVPosition& operator*=(double f) { for (int i = 0; i < 3; ++i) v_[i] *= f; return *this; }
  MVPosition operator-(const MVPosition& o) const { MVPosition r(*this); r -= o; return r; }
  MVPosition operator+(const MVPosition& o) const { MVPosition r(*this); r += o; return r; }
  bool operator==(const MVPosition& o) const { return v_[0] == o.v_[0] && v_[1] == o.v_[1] && v_[2] == o.v_[2]; }
  bool near(const MVPosition& o, double tol = 1e-13) const { for (int i = 0; i < 3; ++i) if (!casacore::near(v_[i], o.v_[i], tol)) return false; return true; }
 protected:
  double v_[3] = {0, 0, 0};
};
class MVBaseline : public MVPosition { public: using MVPosition::MVPosition; MVBaseline() {} MVBaseline(const MVPosition& a, const MVPosition& b) : MVPosition(b - a) {} };
class MVuvw : public MVPosition { public: using MVPosition::MVPosition; MVuvw() {} };
class MVDirection {
 public:
  MVDirection(double lon = 0, double lat = C::pi / 2) : lon_(lon), lat_(lat) {}
  MVDirection(const Quantity& lon, const Quantity& lat) : lon_(lon.getBaseValue()), lat_(lat.getBaseValue()) {}
  Vector<double> getValue() const { Vector<double> r(3); r[0] = std::cos(lat_) * std::cos(lon_); r[1] = std::cos(lat_) * std::sin(lon_); r[2] = std::sin(lat_); return r; }
  Vector<double> get() const { Vector<double> r(2); r[0] = lon_; r[1] = lat_; return r; }
  Quantum<Vector<double>> getAngle(const Unit& u) const { const double f = u.getName() == "s" ? C::pi / 43200 : u.scale(); Vector<double> r(2); r[0] = lon_ / f; r[1] = lat_ / f; return Quantum<Vector<double>>(r, u); }
  double getLong() const { return lon_; }
  double getLat() const { return lat_; }
  double separation(const MVDirection&) const;
  bool operator==(const MVDirection& o) const { return lon_ == o.lon_ && lat_ == o.lat_; }
  bool near(const MVDirection& o, double = 1e-13) const { return *this == o; }
 private:
  double lon_, lat_;
};
class MVEpoch { public: MVEpoch(double d = 0) : d_(d) {} MVEpoch(const Quantity& q) : d_(q.getBaseValue() / 86400) {} double get() const { return d_; } Quantity getTime(const char* = "s") const { return Quantity(d_ * 86400, "s"); } private: double d_; };
class MeasFrame;
// Conversions between frames are done by these functions, when a harness sets them.
struct FrameHooks { bool (*direction)(MVDirection&, int) = nullptr; bool (*epoch)(MVEpoch&, int) = nullptr; };
inline FrameHooks& frameHooks() { static FrameHooks h; return h; }
inline bool frameConvert(MVDirection& v, int t) { return frameHooks().direction && frameHooks().direction(v, t); }
inline bool frameConvert(MVEpoch& v, int t) { return frameHooks().epoch && frameHooks().epoch(v, t); }
template <class V> bool frameConvert(V&, int) { return false; }
template <class V> class MeasRef { public: MeasRef(int t = 0) : t_(t) {} template <class F> MeasRef(int t, const F&) : t_(t) {} int getType() const { return t_; } template <class F> void set(const F&) {} private: int t_; };
class Measure { public: virtual ~Measure() {} };
template <class D, class V> class MeasBase : public Measure {
 public:
  typedef MeasRef<D> Ref;
  MeasBase() : t_(0) {}
  MeasBase(const V& v, int t = 0) : v_(v), t_(t) {}
  MeasBase(const V& v, const Ref& r) : v_(v), t_(r.getType()) {}
  const V& getValue() const { return v_; }
  Ref getRef() const { return Ref(t_); }
  int type() const { return t_; }
  std::string getRefString() const { return D::showType(t_); }
  void set(const V& v) { v_ = v; }
  void set(const V& v, int t) { v_ = v; t_ = t; }
  class Convert {
   public:
    Convert() : t_(0) {}
    Convert(const D& d, int t) : d_(d), t_(t) {}
    Convert(const D& d, const Ref& r) : d_(d), t_(r.getType()) {}
    D operator()() const { return conv(d_); }
    D operator()(const D& d) const { return conv(d); }
    D operator()(const V& v) const { return conv(D(v, d_.type())); }
    D operator()(double v) const { return conv(D(V(v), d_.type())); }
   private:
    D conv(const D& d) const { V v = d.getValue(); if (d.type() != t_) { if (!frameConvert(v, t_)) throw AipsError("conversion between reference frames"); return D(v, t_); } return d; }
    D d_;
    int t_;
  };
 private:
  V v_;
  int t_;
};
class MDirection : public MeasBase<MDirection, MVDirection> {
 public:
  enum Types { J2000, JMEAN, B1950, AZEL, AZELGEO, ITRF, APP, HADEC, MERCURY, VENUS, MARS, JUPITER, SATURN, URANUS, NEPTUNE, PLUTO, SUN, MOON, DEFAULT = J2000 };
  MDirection() {}
  MDirection(const MVDirection& v, int t = J2000) : MeasBase(v, t) {}
  MDirection(const MVDirection& v, const Ref& r) : MeasBase(v, r) {}
  MDirection(const Quantity& a, const Quantity& b, int t = J2000) : MeasBase(MVDirection(a, b), t) {}
  explicit MDirection(Types t) : MeasBase(MVDirection(), t) {}
  Quantum<Vector<double>> getAngle() const { return Quantum<Vector<double>>(getValue().get(), "rad"); }
  Quantum<Vector<double>> getAngle(const Unit& u) const { Vector<double> v(getValue().get()); v[0] = v[0] / u.scale(); v[1] = v[1] / u.scale(); return Quantum<Vector<double>>(v, u); }
  static std::string showType(int t) { return t == J2000 ? "J2000" : "?"; }
  static MDirection makeMDirection(const std::string& name);  // defined by the harness that needs it
  static bool getType(Types& t, const std::string& s) {
    static const char* const n[] = {"J2000", "JMEAN", "B1950", "AZEL", "AZELGEO", "ITRF", "APP", "HADEC", "MERCURY", "VENUS", "MARS", "JUPITER", "SATURN", "URANUS", "NEPTUNE", "PLUTO", "SUN", "MOON"};
    for (size_t i = 0; i < sizeof n / sizeof *n; ++i) { std::string u = s; for (char& c : u) c = c >= 'a' && c <= 'z' ? c - 32 : c; if (u == n[i]) { t = Types(i); return true; } }
    return false;
  }
};
class MPosition : public MeasBase<MPosition, MVPosition> {
 public:
  enum Types { ITRF, WGS84 };
  MPosition() {}
  MPosition(const MVPosition& v, int t = ITRF) : MeasBase(v, t) {}
  MPosition(const MVPosition& v, const Ref& r) : MeasBase(v, r) {}
  static std::string showType(int) { return "ITRF"; }
};
class MBaseline : public MeasBase<MBaseline, MVBaseline> { public: enum Types { J2000, ITRF }; MBaseline() {} MBaseline(const MVBaseline& v, int t = ITRF) : MeasBase(v, t) {} MBaseline(const MVBaseline& v, const Ref& r) : MeasBase(v, r) {} static std::string showType(int) { return ""; } };
class MEpoch : public MeasBase<MEpoch, MVEpoch> { public: enum Types { UTC, TAI, LAST }; MEpoch() {} MEpoch(const MVEpoch& v, int t = UTC) : MeasBase(v, t) {} MEpoch(const MVEpoch& v, const Ref& r) : MeasBase(v, r) {} static std::string showType(int) { return ""; } };
class Muvw : public MeasBase<Muvw, MVuvw> { public: enum Types { J2000 }; Muvw() {} Muvw(const MVuvw& v, int t = 0) : MeasBase(v, t) {} static std::string showType(int) { return ""; } };
inline MPosition& framePosition() { static MPosition p; return p; }  // the position set last in a frame
class MeasFrame { public: MeasFrame() {} template <class... A> explicit MeasFrame(const A&...) {} void set(const MPosition& p) { framePosition() = p; } template <class T> void set(const T&) {} template <class T> void resetEpoch(const T&) {} };
class MeasureHolder {
 public:
  MeasureHolder() {}
  MeasureHolder(const MDirection& d) : d_(std::make_shared<MDirection>(d)) {}
  MeasureHolder(const MPosition& d) : p_(std::make_shared<MPosition>(d)) {}
  bool isMDirection() const { return bool(d_); }
  const MDirection& asMDirection() const { return *d_; }
  const MPosition& asMPosition() const { return *p_; }
  bool toRecord(String&, Record& r) const { if (d_) r.define("d", *d_); if (p_) r.define("p", *p_); return true; }
  bool fromRecord(String&, const Record& r) { if (r.isDefined("d")) d_ = std::make_shared<MDirection>(r.get<MDirection>("d")); if (r.isDefined("p")) p_ = std::make_shared<MPosition>(r.get<MPosition>("p")); return true; }
 private:
  std::shared_ptr<MDirection> d_;
  std::shared_ptr<MPosition> p_;
};
// ---- tables (no storage behind them)
class TableLock { public: enum LockOption { AutoNoReadLocking, NoLocking, AutoLocking, UserLocking, PermanentLocking, DefaultLocking }; TableLock(LockOption = AutoLocking) {} };
struct TableDesc { template <class D> void addColumn(const D& d) { names.push_back(d.name); } bool isColumn(const std::string& n) const { return std::find(names.begin(), names.end(), n) != names.end(); } std::vector<std::string> names; };
template <class T> struct ScalarColumnDesc { explicit ScalarColumnDesc(const std::string& n) : name(n) {} std::string name; };
// Tables written by the code under test: kept in memory, per name, as the numbers and texts put in them.
struct TableData { rownr_t rows = 0; std::map<std::string, std::map<rownr_t, double>> number; std::map<std::string, std::map<rownr_t, std::string>> text;
  std::map<std::string, std::map<rownr_t, std::shared_ptr<void>>> array;  // Array<T>, T as the reader of the column says
  std::map<std::string, Record> columnKeywords;
  std::map<std::string, std::shared_ptr<TableData>> subtables;
  Record dataManager;
  bool has(const std::string& c) const { return number.count(c) || text.count(c) || array.count(c); } };
inline std::map<std::string, std::shared_ptr<TableData>>& writtenTables() { static std::map<std::string, std::shared_ptr<TableData>> t; return t; }
struct SetupNewTable { template <class O> SetupNewTable(const std::string& n, const TableDesc& d, O) : data(std::make_shared<TableData>()) { for (auto& c : d.names) { data->number[c]; } writtenTables()[n] = data; } std::shared_ptr<TableData> data; };
// Expressions: sums and products of numbers and the fields of a record; a column, whether it is in a set; rows.
class Table;
class TableExprNode {
 public:
  TableExprNode() {}
  TableExprNode(const Vector<rownr_t>& v) { for (rownr_t x : v) set.push_back(x); }
  std::string text;
  std::shared_ptr<TableData> table;
  std::string column;
  std::vector<double> set;
  std::vector<std::string> names;
  std::vector<rownr_t> rows;
  bool test = false, negate = false, rowList = false;
  TableExprNode in(const Vector<String>& v) const { TableExprNode r(*this); r.test = true; for (size_t i = 0; i < v.size(); ++i) r.names.push_back(v[i]); return r; }
  TableExprNode in(const TableExprNode& v) const { TableExprNode r(*this); r.test = true; r.set = v.set; return r; }
  friend TableExprNode operator==(const TableExprNode& a, int v) { TableExprNode r(a); r.test = true; r.set = {double(v)}; return r; }
  TableExprNode operator!() const { TableExprNode r(*this); r.negate = !negate; return r; }
  bool holds(rownr_t row) const {
    if (rowList) return std::find(rows.begin(), rows.end(), row) != rows.end();
    bool b;
    if (table->text.count(column)) b = std::find(names.begin(), names.end(), table->text[column][row]) != names.end();
    else b = std::find(set.begin(), set.end(), table->number[column][row]) != set.end();
    return b != negate;
  }
  void get(const Record& rec, double& v) const { size_t i = 0; v = sum(rec, i); if (i < text.size()) throw AipsError("parse error"); }
 private:
  char look(size_t& i) const { while (i < text.size() && text[i] == ' ') ++i; return i < text.size() ? text[i] : 0; }
  double sum(const Record& r, size_t& i) const { double v = prod(r, i); for (;;) { const char c = look(i); if (c == '+') { ++i; v += prod(r, i); } else if (c == '-') { ++i; v -= prod(r, i); } else return v; } }
  double prod(const Record& r, size_t& i) const { double v = atom(r, i); for (;;) { const char c = look(i); if (c == '*') { ++i; v *= atom(r, i); } else if (c == '/') { ++i; v /= atom(r, i); } else return v; } }
  double atom(const Record& r, size_t& i) const {
    const char c = look(i);
    if (c == '-') { ++i; return -atom(r, i); }
    if (c == '(') { ++i; const double v = sum(r, i); if (look(i) != ')') throw AipsError("parse error"); ++i; return v; }
    if (c >= '0' && c <= '9') { double v = 0; while (i < text.size() && text[i] >= '0' && text[i] <= '9') v = v * 10 + (text[i++] - '0'); if (i < text.size() && text[i] == '.') { double f = 0.1; for (++i; i < text.size() && text[i] >= '0' && text[i] <= '9'; f /= 10) v += f * (text[i++] - '0'); } return v; }
    size_t b = i;
    while (i < text.size() && std::isalpha(static_cast<unsigned char>(text[i]))) ++i;
    const std::string n = text.substr(b, i - b);
    if (n.empty() || !r.isDefined(n)) throw AipsError("unknown name in expression");
    return r.get<unsigned>(n);
  }
};
struct RecordGram { static TableExprNode parse(const Record&, const std::string& s) { TableExprNode n; n.text = s; return n; } };
class Table;
struct TableKeywords { std::string base; std::shared_ptr<TableData> data; bool isDefined(const std::string& n) const { return writtenTables().count(base + "/" + n) > 0 || (data && data->subtables.count(n)); } Table asTable(const std::string& n) const; };
class Table {
 public:
  enum TableOption { Old, New, Update, NewNoReplace, Scratch, Plain };
  enum TableType { PlainT, Memory };
  Table() {}
  explicit Table(const SetupNewTable& n) : data_(n.data) {}
  Table(const SetupNewTable& n, TableType, rownr_t rows) : data_(n.data) { data_->rows = rows; }
  explicit Table(const std::string& n, TableOption = Old) : name_(n) { auto i = writtenTables().find(n); if (i == writtenTables().end()) throw AipsError("no table " + n); data_ = i->second; }
  explicit Table(const String& n, TableOption o = Old) : Table(static_cast<const std::string&>(n), o) {}
  explicit Table(const char* n, TableOption o = Old) : Table(std::string(n), o) {}
  rownr_t nrow() const { return selected_ ? rows_.size() : data_ ? data_->rows : 0; }
  void addRow(rownr_t n = 1) { data_->rows += n; }
  bool isNull() const { return !data_; }
  void flush() {}
  String tableName() const { return name_; }
  TableExprNode col(const std::string& c) const { TableExprNode n; n.table = data_; n.column = c; return n; }
  Table operator()(const TableExprNode& n) const { Table t(*this); t.selected_ = true; t.rows_.clear(); for (rownr_t i = 0; i < nrow(); ++i) if (n.holds(at(i))) t.rows_.push_back(at(i)); return t; }
  Vector<rownr_t> rowNumbers() const { Vector<rownr_t> r(nrow()); for (rownr_t i = 0; i < nrow(); ++i) r[i] = at(i); return r; }
  void removeRow(const Vector<rownr_t>& v) {
    std::vector<rownr_t> keep;
    for (rownr_t i = 0; i < data_->rows; ++i) { bool gone = false; for (size_t k = 0; k < v.size(); ++k) gone |= v[k] == i; if (!gone) keep.push_back(i); }
    for (auto& c : data_->number) { std::map<rownr_t, double> m; for (size_t i = 0; i < keep.size(); ++i) m[i] = c.second[keep[i]]; c.second.swap(m); }
    for (auto& c : data_->text) { std::map<rownr_t, std::string> m; for (size_t i = 0; i < keep.size(); ++i) m[i] = c.second[keep[i]]; c.second.swap(m); }
    data_->rows = keep.size();
  }
  TableKeywords keywordSet() const { return {name_, data_}; }
  explicit Table(std::shared_ptr<TableData> d, const std::string& n = "") : data_(d), name_(n) {}
  TableDesc tableDesc() const { TableDesc d; if (data_) { for (auto& c : data_->number) d.names.push_back(c.first); for (auto& c : data_->text) d.names.push_back(c.first); for (auto& c : data_->array) d.names.push_back(c.first); } return d; }
  Record dataManagerInfo() const { return data_->dataManager; }
  Vector<rownr_t> rowNumbers(const Table&, bool = false) const { return rowNumbers(); }
  Table sort(const Block<String>& cols, int = 0, int option = 0) const {
    Table t(*this);
    t.selected_ = true; t.rows_.clear();
    auto less = [&](rownr_t a, rownr_t b) { for (auto& c : cols) { const double x = data_->number[c][a], y = data_->number[c][b]; if (x < y) return true; if (y < x) return false; } return false; };
    for (rownr_t i = 0; i < nrow(); ++i) {  // insertion, stable
      const rownr_t r = at(i);
      size_t k = t.rows_.size();
      while (k > 0 && less(r, t.rows_[k - 1])) --k;
      if ((option & 2) && k > 0 && !less(t.rows_[k - 1], r)) continue;
      t.rows_.insert(t.rows_.begin() + k, r);
    }
    return t;
  }
  void keepRows(const std::vector<rownr_t>& r) { rows_ = r; selected_ = true; }
  rownr_t at(rownr_t i) const { return selected_ ? rows_[i] : i; }
  std::shared_ptr<TableData> data_;
 protected:
  std::string name_;
  std::vector<rownr_t> rows_;
  bool selected_ = false;
};
inline Table TableKeywords::asTable(const std::string& n) const { if (data && data->subtables.count(n)) return Table(data->subtables[n], base + "/" + n); return Table(base + "/" + n); }
struct Sort { enum Order { Ascending, Descending }; enum Option { DefaultSort = 0, HeapSort = 0, QuickSort = 1, NoDuplicates = 2 }; };
class TableIterator {  // groups of successive rows with the same value
 public:
  enum Order { Ascending, Descending };
  enum Option { QuickSort, NoSort };
  TableIterator() {}
  TableIterator(const Table& t, const Block<String>& c, Order = Ascending, Option = QuickSort) : t_(t), col_(c[0]) { find(); }
  bool pastEnd() const { return at_ >= t_.nrow(); }
  Table table() const { Table r(t_); std::vector<rownr_t> v; for (rownr_t i = at_; i < end_; ++i) v.push_back(t_.at(i)); r.keepRows(v); return r; }
  void next() { at_ = end_; find(); }
  void operator++() { next(); }
  void reset() { at_ = 0; find(); }
 private:
  void find() { end_ = at_; auto& c = t_.data_->number[col_]; while (end_ < t_.nrow() && c[t_.at(end_)] == c[t_.at(at_)]) ++end_; }
  Table t_;
  std::string col_;
  rownr_t at_ = 0, end_ = 0;
};
class RefRows { public: RefRows(const Vector<rownr_t>& v) : v_(v) {} const Vector<rownr_t>& rowVector() const { return v_; } Vector<rownr_t> convert() const { return v_; } private: Vector<rownr_t> v_; };
template <class T> class ArrayColumn {
 public:
  ArrayColumn() {}
  ArrayColumn(const Table& t, const std::string& n) : t_(t), name_(n) { if (!t_.data_ || !t_.data_->array.count(n)) throw AipsError("no array column " + n); }
  rownr_t nrow() const { return t_.nrow(); }
  bool isDefined(rownr_t r) const { return bool(cell(r)); }
  IPosition shape(rownr_t r) const { return get(r).shape(); }
  Record keywordSet() const { return t_.data_->columnKeywords[name_]; }
  Array<T> get(rownr_t r) const { if (!cell(r)) throw AipsError("empty cell"); return *static_cast<Array<T>*>(cell(r).get()); }
  Array<T> operator()(rownr_t r) const { return get(r).copy(); }
  void put(rownr_t r, const Array<T>& a) { t_.data_->array[name_][t_.at(r)] = std::make_shared<Array<T>>(a.copy()); }
  Array<T> getColumn() const { return fetch(all(), nullptr); }
  void getColumn(Array<T>& a) const { give(fetch(all(), nullptr), a); }
  void getColumn(const Slicer& s, Array<T>& a) const { give(fetch(all(), &s), a); }
  Array<T> getColumnCells(const RefRows& r) const { return fetch(rows(r), nullptr); }
  void getColumnCells(const RefRows& r, Array<T>& a) const { give(fetch(rows(r), nullptr), a); }
  void getColumnCells(const RefRows& r, const Slicer& s, Array<T>& a) const { give(fetch(rows(r), &s), a); }
 private:
  std::shared_ptr<void>& cell(rownr_t r) const { return t_.data_->array[name_][t_.at(r)]; }
  std::vector<rownr_t> all() const { std::vector<rownr_t> v; for (rownr_t i = 0; i < t_.nrow(); ++i) v.push_back(i); return v; }
  std::vector<rownr_t> rows(const RefRows& r) const { return r.rowVector().tovector(); }
  Array<T> fetch(const std::vector<rownr_t>& v, const Slicer* s) const {
    Array<T> r;
    size_t k = 0;
    for (rownr_t i : v) {
      Array<T> a = get(i);
      if (s) { Array<T> b = a(*s); a.reference(b); }
      if (!k) { IPosition sh(a.ndim() + 1); for (size_t d = 0; d < a.ndim(); ++d) sh[d] = a.shape()[d]; sh[a.ndim()] = v.size(); r.resize(sh); }
      if (a.size() * v.size() != r.size()) throw AipsError("shapes differ");
      for (size_t j = 0; j < a.size(); ++j) *r.at(k++) = *a.at(j);
    }
    return r;
  }
  void give(const Array<T>& from, Array<T>& to) const { if (!(from.shape() == to.shape())) throw AipsError("shapes differ"); for (size_t i = 0; i < from.size(); ++i) *to.at(i) = *from.at(i); }
  Table t_;
  std::string name_;
};
template <class M> class ArrayMeasColumn { public: ArrayMeasColumn(const Table& t, const std::string& n) : c_(t, n) {} Array<M> operator()(rownr_t r) const { return c_(r); } private: ArrayColumn<M> c_; };
template <class M> class ScalarMeasColumn {
 public:
  ScalarMeasColumn() {}
  ScalarMeasColumn(const Table& t, const std::string& n) : c_(t, n), on_(true) {}
  void attach(const Table& t, const std::string& n) { c_ = ArrayColumn<M>(t, n); on_ = true; }
  bool isNull() const { return !on_; }
  M operator()(rownr_t r) const { Array<M> a = c_(r); return *a.data(); }
  void put(rownr_t r, const M& m) { Array<M> a(IPosition(1, 1)); *a.data() = m; c_.put(r, a); }
 private:
  ArrayColumn<M> c_;
  bool on_ = false;
};
struct TableRowValues { std::map<std::string, double> number; std::map<std::string, std::string> text; std::map<std::string, std::shared_ptr<void>> array; };
class TableRow {  // a whole row
 public:
  explicit TableRow(const Table& t) : t_(t) {}
  TableRowValues get(rownr_t r) const {
    if (r >= t_.nrow()) throw AipsError("no such row");
    TableRowValues v;
    for (auto& c : t_.data_->number) { auto i = c.second.find(t_.at(r)); if (i != c.second.end()) v.number[c.first] = i->second; }
    for (auto& c : t_.data_->text) { auto i = c.second.find(t_.at(r)); if (i != c.second.end()) v.text[c.first] = i->second; }
    for (auto& c : t_.data_->array) { auto i = c.second.find(t_.at(r)); if (i != c.second.end()) v.array[c.first] = i->second; }
    return v;
  }
  void put(rownr_t r, const TableRowValues& v) {
    for (auto& c : v.number) t_.data_->number[c.first][t_.at(r)] = c.second;
    for (auto& c : v.text) t_.data_->text[c.first][t_.at(r)] = c.second;
    for (auto& c : v.array) t_.data_->array[c.first][t_.at(r)] = c.second;
  }
 private:
  Table t_;
};
template <class T> struct SumSqr { T operator()(T a, T b) const { return a + b * b; } };
class TableColumn {};
struct MeasTable { static bool Observatory(MPosition& p, const String& name); };
template <class T> class ScalarColumn {
 public:
  ScalarColumn() {}
  ScalarColumn(const Table& t, const std::string& n) : t_(t), name_(n) {}
  void attach(const Table& t, const std::string& n) { t_ = t; name_ = n; }
  bool isNull() const { return name_.empty(); }
  rownr_t nrow() const { return t_.nrow(); }
  void put(rownr_t r, const T& v) { if constexpr (std::is_arithmetic_v<T>) t_.data_->number[name_][t_.at(r)] = v; else t_.data_->text[name_][t_.at(r)] = v; }
  T get(rownr_t r) const { if constexpr (std::is_arithmetic_v<T>) return T(t_.data_->number[name_][t_.at(r)]); else return t_.data_->text[name_][t_.at(r)]; }
  T operator()(rownr_t r) const { return get(r); }
  Vector<T> getColumn() const { Vector<T> v(t_.nrow()); for (rownr_t i = 0; i < t_.nrow(); ++i) v[i] = get(i); return v; }
  void putColumn(const Vector<T>& v) { for (rownr_t i = 0; i < t_.nrow(); ++i) put(i, v[i]); }
 private:
  Table t_;
  std::string name_;
};
class MSMainEnums { public: enum PredefinedColumns { DATA, FLAG, WEIGHT_SPECTRUM, UVW, TIME, ANTENNA1, ANTENNA2, EXPOSURE, INTERVAL, FLAG_ROW, WEIGHT, FIELD_ID, TIME_CENTROID }; enum PredefinedKeywords { SOURCE }; };
struct MSDataDescription;
struct MSPolarization;
class MeasurementSet : public Table, public MSMainEnums {
 public:
  using Table::Table;
  MeasurementSet() {}
  explicit MeasurementSet(const Table& t) : Table(t) {}
  MSDataDescription dataDescription() const;
  MSPolarization polarization() const;
  static const String& columnName(PredefinedColumns c) {
    static const String n[] = {"DATA", "FLAG", "WEIGHT_SPECTRUM", "UVW", "TIME", "ANTENNA1", "ANTENNA2", "EXPOSURE", "INTERVAL", "FLAG_ROW", "WEIGHT", "FIELD_ID", "TIME_CENTROID"};
    return n[c];
  }
};
struct MSDataDescription : Table { enum C { POLARIZATION_ID, SPECTRAL_WINDOW_ID }; explicit MSDataDescription(const Table& t) : Table(t) {} static String columnName(C c) { return c ? "SPECTRAL_WINDOW_ID" : "POLARIZATION_ID"; } };
struct MSPolarizationEnums { enum C { CORR_TYPE, NUM_CORR }; };
struct MSPolarization : Table, MSPolarizationEnums { explicit MSPolarization(const Table& t) : Table(t) {} static String columnName(C c) { return c ? "NUM_CORR" : "CORR_TYPE"; } };
inline MSDataDescription MeasurementSet::dataDescription() const { return MSDataDescription(keywordSet().asTable("DATA_DESCRIPTION")); }
inline MSPolarization MeasurementSet::polarization() const { return MSPolarization(keywordSet().asTable("POLARIZATION")); }
typedef MeasurementSet MS;
struct MSSelection { String expr; void setAntennaExpr(const String& e) { expr = e; } TableExprNode toTableExprNode(const MeasurementSet* ms) const; };
// ---- the selection of antennas: the expression itself is read by a function of the harness
struct MSSelectionErrorHandler { virtual ~MSSelectionErrorHandler() {} virtual void reportError(const char* token, const String message) = 0; };
struct MSAntennaParse { static inline std::shared_ptr<MSSelectionErrorHandler> thisMSAErrorHandler; };
struct MSAntenna : Table { explicit MSAntenna(const Table& t) : Table(t) {} static TableDesc requiredTableDesc() { TableDesc d; d.names.push_back("POSITION"); return d; } };
struct MSAntennaColumns { explicit MSAntennaColumns(const MSAntenna& a) : t(a) {} ScalarColumn<String> name() { return ScalarColumn<String>(t, "NAME"); } struct Pos { template <class M> void put(rownr_t, const M&) {} }; Pos positionMeas() { return {}; } Table t; };
TableExprNode msAntennaGramParseCommand(const Table& antennas, const TableExprNode& column1, const TableExprNode& column2, const String& command, Vector<int>& selected1, Vector<int>& selected2, Matrix<int>& baselines);
}  // namespace casacore
using std::string;
