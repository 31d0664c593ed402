// Stand-in for aocommon::UVector: a vector whose resize leaves new elements uninitialised and whose copy has no spare capacity.
#pragma once
#include <algorithm>
#include <cstddef>
#include <initializer_list>
#include <memory>
#include <new>
#include <utility>
namespace aocommon {
template <class T> class UVector {
 public:
  typedef T value_type; typedef std::size_t size_type; typedef T* iterator; typedef const T* const_iterator; typedef T& reference; typedef const T& const_reference;
  UVector() {}
  explicit UVector(size_type n) { reserve(n); n_ = n; }
  UVector(size_type n, const T& v) { assign(n, v); }
  UVector(std::initializer_list<T> l) { assign(l.begin(), l.end()); }
  template <class It, class = decltype(*std::declval<It>())> UVector(It b, It e) { assign(b, e); }
  UVector(const UVector& o) { assign(o.begin(), o.end()); }
  UVector(UVector&& o) noexcept { swap(o); }
  ~UVector() { ::operator delete(p_); }
  UVector& operator=(const UVector& o) { if (this != &o) { UVector t(o); swap(t); } return *this; }
  UVector& operator=(UVector&& o) noexcept { UVector t(std::move(o)); swap(t); return *this; }
  void assign(size_type n, const T& v) { clear(); reserve(n); n_ = n; std::fill(begin(), end(), v); }
  template <class It, class = decltype(*std::declval<It>())> void assign(It b, It e) { clear(); reserve(std::distance(b, e)); for (; b != e; ++b) p_[n_++] = *b; }
  size_type size() const { return n_; }
  size_type capacity() const { return c_; }
  bool empty() const { return n_ == 0; }
  void clear() { n_ = 0; }
  void reserve(size_type n) {
    if (n <= c_) return;
    T* q = static_cast<T*>(::operator new(n * sizeof(T)));
    std::copy(p_, p_ + n_, q);
    ::operator delete(p_);
    p_ = q; c_ = n;
  }
  void resize(size_type n) { grow(n); n_ = n; }
  void resize(size_type n, const T& v) { const size_type o = n_; resize(n); if (n > o) std::fill(p_ + o, p_ + n, v); }
  T* begin() { return p_; } T* end() { return p_ + n_; } const T* begin() const { return p_; } const T* end() const { return p_ + n_; }
  const T* cbegin() const { return p_; } const T* cend() const { return p_ + n_; }
  T* data() { return p_; } const T* data() const { return p_; }
  T& operator[](size_type i) { return p_[i]; } const T& operator[](size_type i) const { return p_[i]; }
  T& front() { return *p_; } T& back() { return p_[n_ - 1]; } const T& front() const { return *p_; } const T& back() const { return p_[n_ - 1]; }
  void push_back(const T& v) { const T t = v; grow(n_ + 1); p_[n_++] = t; }
  template <class... A> void emplace_back(A&&... a) { push_back(T(std::forward<A>(a)...)); }
  iterator insert(const_iterator pos, size_type n, const T& v) { const T t = v; T* q = gap(pos, n); std::fill(q, q + n, t); return q; }
  template <class It, class = decltype(*std::declval<It>())> iterator insert(const_iterator pos, It b, It e) { const size_type n = std::distance(b, e); T* q = gap(pos, n); std::copy(b, e, q); return q; }
  iterator insert(const_iterator pos, const T& v) { return insert(pos, size_type(1), v); }
  iterator erase(const_iterator b, const_iterator e) { T* q = p_ + (b - p_); std::copy(p_ + (e - p_), end(), q); n_ -= e - b; return q; }
  void swap(UVector& o) noexcept { std::swap(p_, o.p_); std::swap(n_, o.n_); std::swap(c_, o.c_); }
  bool operator==(const UVector& o) const { return n_ == o.n_ && std::equal(begin(), end(), o.begin()); }
 private:
  void grow(size_type n) { if (n > c_) reserve(c_ == 0 ? n : std::max(n, 2 * c_)); }
  T* gap(const_iterator pos, size_type n) { const size_type k = pos - p_, m = n_; resize(n_ + n); std::copy_backward(p_ + k, p_ + m, p_ + m + n); return p_ + k; }
  T* p_ = nullptr;
  size_type n_ = 0, c_ = 0;
};
}
