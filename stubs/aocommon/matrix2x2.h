// Stand-in for aocommon's 2x2 complex matrices, with their documented algebra.
#pragma once
#include <cmath>
#include <complex>
#include <limits>
namespace aocommon {
template <class R> class MC2x2DiagBase;
template <class R> class MC2x2Base {
 public:
  typedef std::complex<R> C; typedef C value_type;
  MC2x2Base() : v_{} {}
  MC2x2Base(C a, C b, C c, C d) : v_{a, b, c, d} {}
  template <class S> explicit MC2x2Base(const std::complex<S>* p) { for (int i = 0; i < 4; ++i) v_[i] = C(p[i]); }
  template <class S> explicit MC2x2Base(const S* p) { for (int i = 0; i < 4; ++i) v_[i] = C(p[i]); }
  template <class S> explicit MC2x2Base(const MC2x2Base<S>& o) { for (int i = 0; i < 4; ++i) v_[i] = C(o.Get(i)); }
  template <class S> explicit MC2x2Base(const MC2x2DiagBase<S>& o);
  static MC2x2Base Zero() { return MC2x2Base(); }
  static MC2x2Base Unity() { return MC2x2Base(C(1), C(0), C(0), C(1)); }
  static MC2x2Base NaN() { const R n = std::numeric_limits<R>::quiet_NaN(); return MC2x2Base(C(n, n), C(n, n), C(n, n), C(n, n)); }
  C& operator[](std::size_t i) { return v_[i]; }
  const C& operator[](std::size_t i) const { return v_[i]; }
  const C& Get(std::size_t i) const { return v_[i]; }
  void Set(std::size_t i, C c) { v_[i] = c; }
  MC2x2Base operator*(const MC2x2Base& o) const { return MC2x2Base(v_[0] * o.v_[0] + v_[1] * o.v_[2], v_[0] * o.v_[1] + v_[1] * o.v_[3], v_[2] * o.v_[0] + v_[3] * o.v_[2], v_[2] * o.v_[1] + v_[3] * o.v_[3]); }
  MC2x2Base operator*(R f) const { return MC2x2Base(v_[0] * f, v_[1] * f, v_[2] * f, v_[3] * f); }
  MC2x2Base operator*(C f) const { return MC2x2Base(v_[0] * f, v_[1] * f, v_[2] * f, v_[3] * f); }
  MC2x2Base operator/(R f) const { return MC2x2Base(v_[0] / f, v_[1] / f, v_[2] / f, v_[3] / f); }
  MC2x2Base operator+(const MC2x2Base& o) const { return MC2x2Base(v_[0] + o.v_[0], v_[1] + o.v_[1], v_[2] + o.v_[2], v_[3] + o.v_[3]); }
  MC2x2Base operator-(const MC2x2Base& o) const { return MC2x2Base(v_[0] - o.v_[0], v_[1] - o.v_[1], v_[2] - o.v_[2], v_[3] - o.v_[3]); }
  MC2x2Base& operator+=(const MC2x2Base& o) { return *this = *this + o; }
  MC2x2Base& operator-=(const MC2x2Base& o) { return *this = *this - o; }
  MC2x2Base& operator*=(const MC2x2Base& o) { return *this = *this * o; }
  MC2x2Base& operator*=(R f) { return *this = *this * f; }
  MC2x2Base& operator*=(C f) { return *this = *this * f; }
  MC2x2Base& operator/=(R f) { return *this = *this / f; }
  MC2x2Base Multiply(const MC2x2Base& o) const { return *this * o; }
  MC2x2Base MultiplyHerm(const MC2x2Base& o) const { return *this * o.HermTranspose(); }
  MC2x2Base HermThenMultiply(const MC2x2Base& o) const { return HermTranspose() * o; }
  MC2x2Base HermTranspose() const { return MC2x2Base(std::conj(v_[0]), std::conj(v_[2]), std::conj(v_[1]), std::conj(v_[3])); }
  MC2x2Base Conjugate() const { return MC2x2Base(std::conj(v_[0]), std::conj(v_[1]), std::conj(v_[2]), std::conj(v_[3])); }
  MC2x2Base Transpose() const { return MC2x2Base(v_[0], v_[2], v_[1], v_[3]); }
  MC2x2DiagBase<R> Diagonal() const;
  C Trace() const { return v_[0] + v_[3]; }
  C Determinant() const { return v_[0] * v_[3] - v_[1] * v_[2]; }
  bool Invert() { const C d = Determinant(); if (d == C(0)) return false; *this = MC2x2Base(v_[3] / d, -v_[1] / d, -v_[2] / d, v_[0] / d); return true; }
  template <class T> void AssignTo(T* p) const { for (int i = 0; i < 4; ++i) p[i] = T(v_[i]); }
  C* Data() { return v_; }
  const C* Data() const { return v_; }
  auto begin() const { return v_; } auto end() const { return v_ + 4; }
  friend MC2x2Base operator*(R f, const MC2x2Base& o) { return o * f; }
 private:
  C v_[4];
};
template <class R> class MC2x2DiagBase {
 public:
  typedef std::complex<R> C;
  MC2x2DiagBase() : v_{} {}
  MC2x2DiagBase(C a, C d) : v_{a, d} {}
  template <class S> explicit MC2x2DiagBase(const std::complex<S>* p) : v_{C(p[0]), C(p[1])} {}
  template <class S> explicit MC2x2DiagBase(const MC2x2DiagBase<S>& o) : v_{C(o.Get(0)), C(o.Get(1))} {}
  template <class S> explicit MC2x2DiagBase(const MC2x2Base<S>& o) : v_{C(o.Get(0)), C(o.Get(3))} {}
  static MC2x2DiagBase Zero() { return MC2x2DiagBase(); }
  static MC2x2DiagBase Unity() { return MC2x2DiagBase(C(1), C(1)); }
  C& operator[](std::size_t i) { return v_[i]; }
  const C& operator[](std::size_t i) const { return v_[i]; }
  const C& Get(std::size_t i) const { return v_[i]; }
  void Set(std::size_t i, C c) { v_[i] = c; }
  MC2x2DiagBase operator*(const MC2x2DiagBase& o) const { return MC2x2DiagBase(v_[0] * o.v_[0], v_[1] * o.v_[1]); }
  MC2x2Base<R> operator*(const MC2x2Base<R>& o) const { return MC2x2Base<R>(v_[0] * o.Get(0), v_[0] * o.Get(1), v_[1] * o.Get(2), v_[1] * o.Get(3)); }
  MC2x2DiagBase operator*(R f) const { return MC2x2DiagBase(v_[0] * f, v_[1] * f); }
  MC2x2DiagBase operator*(C f) const { return MC2x2DiagBase(v_[0] * f, v_[1] * f); }
  MC2x2DiagBase operator+(const MC2x2DiagBase& o) const { return MC2x2DiagBase(v_[0] + o.v_[0], v_[1] + o.v_[1]); }
  MC2x2DiagBase operator-(const MC2x2DiagBase& o) const { return MC2x2DiagBase(v_[0] - o.v_[0], v_[1] - o.v_[1]); }
  MC2x2DiagBase& operator+=(const MC2x2DiagBase& o) { return *this = *this + o; }
  MC2x2DiagBase& operator-=(const MC2x2DiagBase& o) { return *this = *this - o; }
  MC2x2DiagBase& operator*=(R f) { return *this = *this * f; }
  MC2x2DiagBase& operator*=(C f) { return *this = *this * f; }
  MC2x2DiagBase HermTranspose() const { return MC2x2DiagBase(std::conj(v_[0]), std::conj(v_[1])); }
  MC2x2DiagBase Conjugate() const { return HermTranspose(); }
  MC2x2DiagBase Diagonal() const { return *this; }
  C Trace() const { return v_[0] + v_[1]; }
  template <class T> void AssignTo(T* p) const { p[0] = T(v_[0]); p[1] = T(v_[1]); }
  friend MC2x2DiagBase operator*(R f, const MC2x2DiagBase& o) { return o * f; }
  friend MC2x2Base<R> operator*(const MC2x2Base<R>& o, const MC2x2DiagBase& d) { return MC2x2Base<R>(o.Get(0) * d.v_[0], o.Get(1) * d.v_[1], o.Get(2) * d.v_[0], o.Get(3) * d.v_[1]); }
 private:
  C v_[2];
};
template <class R> MC2x2DiagBase<R> MC2x2Base<R>::Diagonal() const { return MC2x2DiagBase<R>(v_[0], v_[3]); }
template <class R> template <class S> MC2x2Base<R>::MC2x2Base(const MC2x2DiagBase<S>& o) : v_{C(o.Get(0)), C(0), C(0), C(o.Get(1))} {}
typedef MC2x2Base<double> MC2x2; typedef MC2x2Base<float> MC2x2F; typedef MC2x2DiagBase<double> MC2x2Diag; typedef MC2x2DiagBase<float> MC2x2FDiag;
template <class R> R Norm(const MC2x2Base<R>& m) { return std::norm(m.Get(0)) + std::norm(m.Get(1)) + std::norm(m.Get(2)) + std::norm(m.Get(3)); }
template <class R> R Norm(const MC2x2DiagBase<R>& m) { return std::norm(m.Get(0)) + std::norm(m.Get(1)); }
template <class R> R SumOfAbsolute(const MC2x2Base<R>& m) { return std::abs(m.Get(0)) + std::abs(m.Get(1)) + std::abs(m.Get(2)) + std::abs(m.Get(3)); }
template <class R> R SumOfAbsolute(const MC2x2DiagBase<R>& m) { return std::abs(m.Get(0)) + std::abs(m.Get(1)); }
template <class R> std::complex<R> Trace(const MC2x2Base<R>& m) { return m.Trace(); }
template <class R> std::complex<R> Trace(const MC2x2DiagBase<R>& m) { return m.Trace(); }
template <class R> MC2x2DiagBase<R> Diagonal(const MC2x2Base<R>& m) { return m.Diagonal(); }
template <class R> MC2x2DiagBase<R> Diagonal(const MC2x2DiagBase<R>& m) { return m; }
template <class R> MC2x2Base<R> HermTranspose(const MC2x2Base<R>& m) { return m.HermTranspose(); }
template <class R> MC2x2DiagBase<R> HermTranspose(const MC2x2DiagBase<R>& m) { return m.HermTranspose(); }
class Matrix2x2 {
 public:
  template <class T> static bool IsFinite(const std::complex<T>* m) { for (int i = 0; i < 4; ++i) if (!std::isfinite(m[i].real()) || !std::isfinite(m[i].imag())) return false; return true; }
  template <class M> static bool IsFinite(const M& m) { for (int i = 0; i < 4; ++i) if (!std::isfinite(m[i].real()) || !std::isfinite(m[i].imag())) return false; return true; }
};
}
