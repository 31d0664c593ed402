// Small eager/lazy stand-in for the xtensor library (which is not installed): row-major tensors, views, broadcasting
// element-wise expressions and reductions with numpy semantics, as documented by xtensor. Only for checking code that uses it.
#pragma once
#include <algorithm>
#include <array>
#include <cassert>
#include <cmath>
#include <complex>
#include <cstddef>
#include <functional>
#include <initializer_list>
#include <limits>
#include <memory>
#include <numeric>
#include <span>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
#include <stdexcept>
namespace xt {
constexpr std::size_t kDyn = ~std::size_t(0);
enum class layout_type { row_major, column_major, dynamic, any };
struct expr_tag {};
template <class E> inline constexpr bool is_expr = std::is_base_of_v<expr_tag, std::decay_t<E>>;
template <class E> inline constexpr std::size_t rank_of = std::decay_t<E>::rank;
template <std::size_t N> struct shape_t { using type = std::array<std::size_t, N>; };
template <> struct shape_t<kDyn> { using type = std::vector<std::size_t>; };
template <class T> using dynamic_shape = std::vector<T>;
constexpr std::size_t kMaxDim = 8;
template <class E> decltype(auto) bget(E& e, const std::size_t* i, std::size_t nd) {  // element with broadcasting
  std::size_t loc[kMaxDim];
  const std::size_t d = e.dimension();
  for (std::size_t k = 0; k < d; ++k) loc[k] = e.shape(k) == 1 ? 0 : i[nd - d + k];
  return e.ref(loc);
}
// iterate over all indices of a shape, row-major
template <class S, class F> void for_each_index(const S& shape, F f) {
  std::size_t idx[kMaxDim] = {0}, n = shape.size();
  for (std::size_t k = 0; k < n; ++k) if (shape[k] == 0) return;
  while (true) {
    f(static_cast<const std::size_t*>(idx));
    std::size_t k = n;
    while (k > 0) {
      if (++idx[k - 1] < std::size_t(shape[k - 1])) break;
      idx[--k] = 0;
    }
    if (k == 0) return;
  }
}
template <class S> std::size_t shape_size(const S& s) { std::size_t n = 1; for (auto v : s) n *= v; return n; }
template <std::size_t N, class A> typename shape_t<N>::type to_shape(const A& a) {
  typename shape_t<N>::type s{};
  if constexpr (N == kDyn) s.assign(std::begin(a), std::end(a));
  else {
    std::size_t k = 0;
    for (auto v : a) { if (k >= N) throw std::runtime_error("xtensor: dimension mismatch"); s[k++] = v; }
    if (k != N) throw std::runtime_error("xtensor: dimension mismatch");
  }
  return s;
}
template <class S, std::size_t N> std::array<S, N> shape(const S (&v)[N]) { std::array<S, N> r; std::copy(v, v + N, r.begin()); return r; }
template <class S> bool same_shape(const S& a, const S& b) { return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin()); }

template <class D> class flat_iter;
template <class T, std::size_t N> class tensor_base;

// iterator over an arbitrary expression in row-major order
template <class E> class xiter {
 public:
  using iterator_category = std::forward_iterator_tag;
  using reference = decltype(std::declval<E&>().ref(nullptr));
  using value_type = typename std::decay_t<E>::value_type;
  using difference_type = std::ptrdiff_t;
  using pointer = value_type*;
  xiter() : e_(nullptr), i_(0) {}
  xiter(E* e, std::size_t i) : e_(e), i_(i) {}
  reference operator*() const {
    std::size_t idx[kMaxDim], r = i_;
    for (std::size_t k = e_->dimension(); k-- > 0;) { idx[k] = r % e_->shape(k); r /= e_->shape(k); }
    return e_->ref(idx);
  }
  xiter& operator++() { ++i_; return *this; }
  xiter operator++(int) { xiter r = *this; ++i_; return r; }
  xiter& operator+=(std::ptrdiff_t n) { i_ += n; return *this; }
  xiter operator+(std::ptrdiff_t n) const { return xiter(e_, i_ + n); }
  std::ptrdiff_t operator-(const xiter& o) const { return std::ptrdiff_t(i_) - std::ptrdiff_t(o.i_); }
  bool operator==(const xiter& o) const { return i_ == o.i_; }
  bool operator!=(const xiter& o) const { return i_ != o.i_; }
 private:
  E* e_;
  std::size_t i_;
};
// common parts of every expression D with dimension(), shape(k), ref(idx)
template <class D> class expr_base : public expr_tag {
 public:
  std::size_t size() const { std::size_t n = 1; for (std::size_t k = 0; k < d().dimension(); ++k) n *= d().shape(k); return n; }
  template <class... I> decltype(auto) operator()(I... i) const { return at(d(), i...); }
  template <class... I> decltype(auto) operator()(I... i) { return at(d(), i...); }
  decltype(auto) operator[](std::size_t i) const { const std::size_t x[1] = {i}; return bget(d(), x, std::max<std::size_t>(1, d().dimension()) == 1 ? 1 : bad()); }
  decltype(auto) operator[](std::size_t i) { const std::size_t x[1] = {i}; return bget(d(), x, std::max<std::size_t>(1, d().dimension()) == 1 ? 1 : bad()); }
  template <std::size_t M> decltype(auto) operator[](const std::array<std::size_t, M>& i) { return d().ref(i.data()); }
  template <std::size_t M> decltype(auto) operator[](const std::array<std::size_t, M>& i) const { return d().ref(i.data()); }
  decltype(auto) flat(std::size_t i) const { return *xiter<const D>(&d(), i); }
  decltype(auto) flat(std::size_t i) { return *xiter<D>(&d(), i); }
  auto begin() { return xiter<D>(&d(), 0); }
  auto end() { return xiter<D>(&d(), size()); }
  auto begin() const { return xiter<const D>(&d(), 0); }
  auto end() const { return xiter<const D>(&d(), size()); }
  auto cbegin() const { return begin(); }
  auto cend() const { return end(); }
 private:
  static std::size_t bad() { throw std::runtime_error("xtensor: operator[] on more dimensions"); }
  D& d() { return static_cast<D&>(*this); }
  const D& d() const { return static_cast<const D&>(*this); }
  template <class DD, class... I> static decltype(auto) at(DD& self, I... i) {
    // fewer arguments than dimensions: leading indices are 0; more: leading ones are dropped
    const std::size_t a[sizeof...(I) + 1] = {static_cast<std::size_t>(i)..., 0};
    const std::size_t n = sizeof...(I), dim = self.dimension();
    std::size_t idx[kMaxDim];
    for (std::size_t k = 0; k < dim; ++k) idx[k] = k + n < dim ? 0 : a[n - dim + k];
    for (std::size_t k = 0; k < dim; ++k) if (idx[k] >= self.shape(k)) throw std::out_of_range("xtensor: index out of range");
    return self.ref(idx);
  }
};
// assignment helpers for expressions whose elements can be written
template <class D, class E> void assign_elements(D& dst, const E& e) {
  if constexpr (is_expr<E>) {
    using T = typename std::decay_t<E>::value_type;
    std::vector<std::conditional_t<std::is_same_v<T, bool>, unsigned char, T>> tmp;  // aliasing: evaluate first
    tmp.reserve(dst.size());
    const std::size_t nd = dst.dimension();
    for (std::size_t k = 0; k < e.dimension(); ++k) {
      if (e.dimension() > nd) { if (e.shape(k) != 1 && k < e.dimension() - nd) throw std::runtime_error("xtensor: shape mismatch"); continue; }
      const std::size_t s = e.shape(k);
      if (s != 1 && s != dst.shape(nd - e.dimension() + k)) throw std::runtime_error("xtensor: shape mismatch");
    }
    for_each_index(dst.shape(), [&](const std::size_t* i) { tmp.push_back(bget(e, i, nd)); });
    std::size_t n = 0;
    for_each_index(dst.shape(), [&](const std::size_t* i) { dst.ref(i) = static_cast<typename std::decay_t<D>::value_type>(tmp[n++]); });
  } else {
    for_each_index(dst.shape(), [&](const std::size_t* i) { dst.ref(i) = static_cast<typename std::decay_t<D>::value_type>(e); });
  }
}
template <class D> class lvalue_ops {
 public:
  template <class E> D& operator+=(const E& e);
  template <class E> D& operator-=(const E& e);
  template <class E> D& operator*=(const E& e);
  template <class E> D& operator/=(const E& e);
  template <class E> D& operator&=(const E& e);
  template <class E> D& operator|=(const E& e);
  template <class V> void fill(const V& v) { assign_elements(self(), static_cast<typename D::value_type>(v)); }
 private:
  D& self() { return static_cast<D&>(*this); }
};
template <class T, std::size_t N> class tensor_base : public expr_base<tensor_base<T, N>>, public lvalue_ops<tensor_base<T, N>> {
 public:
  static constexpr std::size_t rank = N;
  using value_type = T;
  using shape_type = typename shape_t<N>::type;
  using size_type = std::size_t;
  using reference = T&;
  using const_reference = const T&;
  using iterator = T*;
  using const_iterator = const T*;
  tensor_base() : shape_{} { alloc(); }
  explicit tensor_base(const shape_type& s, layout_type = layout_type::row_major) : shape_(s) { alloc(); }
  tensor_base(const shape_type& s, const T& v, layout_type = layout_type::row_major) : shape_(s) { alloc(); std::fill(begin(), end(), v); }
  tensor_base(const tensor_base& o) : shape_(o.shape_) { alloc(); std::copy(o.begin(), o.end(), begin()); }
  tensor_base(tensor_base&& o) noexcept : shape_(std::move(o.shape_)), n_(o.n_), data_(std::move(o.data_)) { o.shape_ = shape_type{}; o.alloc(); }
  template <class E, std::enable_if_t<is_expr<E> && !std::is_base_of_v<tensor_base, std::decay_t<E>>, int> = 0>
  tensor_base(const E& e) : shape_{} { take(e); }
  template <std::size_t M = N, std::enable_if_t<M == 1 || M == kDyn, int> = 0>
  tensor_base(std::initializer_list<T> l) : shape_{} { set1(l.size()); std::copy(l.begin(), l.end(), begin()); }
  template <std::size_t M = N, std::enable_if_t<M == 2, int> = 0>
  tensor_base(std::initializer_list<std::initializer_list<T>> l) : shape_{} {
    shape_ = shape_type{l.size(), l.size() ? l.begin()->size() : 0}; alloc();
    T* p = begin(); for (auto& r : l) p = std::copy(r.begin(), r.end(), p);
  }
  template <std::size_t M = N, std::enable_if_t<M == 3, int> = 0>
  tensor_base(std::initializer_list<std::initializer_list<std::initializer_list<T>>> l) : shape_{} {
    shape_ = shape_type{l.size(), l.size() ? l.begin()->size() : 0, l.size() && l.begin()->size() ? l.begin()->begin()->size() : 0}; alloc();
    T* p = begin(); for (auto& r : l) for (auto& q : r) p = std::copy(q.begin(), q.end(), p);
  }
  template <class S = std::array<std::size_t, N == kDyn ? 1 : N>> static tensor_base from_shape(const S& s) { return tensor_base(to_shape<N>(s)); }
  tensor_base& operator=(const tensor_base& o) { if (this != &o) { tensor_base t(o); *this = std::move(t); } return *this; }
  tensor_base& operator=(tensor_base&& o) noexcept { if (this != &o) { shape_ = o.shape_; n_ = o.n_; data_ = std::move(o.data_); o.shape_ = shape_type{}; o.alloc(); } return *this; }
  template <class E, std::enable_if_t<!std::is_base_of_v<tensor_base, std::decay_t<E>>, int> = 0>
  tensor_base& operator=(const E& e) {
    if constexpr (is_expr<E>) { tensor_base t(e); *this = std::move(t); } else assign_elements(*this, e);
    return *this;
  }
  std::size_t dimension() const { return shape_.size(); }
  const shape_type& shape() const { return shape_; }
  std::size_t shape(std::size_t k) const { return shape_[k]; }
  std::size_t size() const { return n_; }
  bool empty() const { return n_ == 0; }
  T* data() { return data_.get(); }
  const T* data() const { return data_.get(); }
  std::span<T> storage() { return {data_.get(), n_}; }
  std::span<const T> storage() const { return {data_.get(), n_}; }
  T* begin() { return data_.get(); }
  T* end() { return data_.get() + n_; }
  const T* begin() const { return data_.get(); }
  const T* end() const { return data_.get() + n_; }
  const T* cbegin() const { return begin(); }
  const T* cend() const { return end(); }
  T& front() { return *begin(); }
  T& back() { return end()[-1]; }
  const T& front() const { return *begin(); }
  const T& back() const { return end()[-1]; }
  T& ref(const std::size_t* i) { return data_[offset(i)]; }
  const T& ref(const std::size_t* i) const { return data_[offset(i)]; }
  std::size_t data_offset() const { return 0; }
  std::array<std::ptrdiff_t, N == kDyn ? 1 : N> strides() const {
    std::array<std::ptrdiff_t, N == kDyn ? 1 : N> s{};
    std::ptrdiff_t m = 1;
    for (std::size_t k = shape_.size(); k-- > 0;) { s[k] = shape_[k] == 1 ? 0 : m; m *= shape_[k]; }
    return s;
  }
  template <class S> void resize(const S& s, bool = false) { resize_to(to_shape<N>(s)); }
  void resize(std::initializer_list<std::size_t> s) { resize_to(to_shape<N>(s)); }
  template <class S> tensor_base& reshape(const S& s) { auto n = to_shape<N>(s); if (shape_size(n) != n_) throw std::runtime_error("xtensor: reshape"); shape_ = n; return *this; }
  tensor_base& reshape(std::initializer_list<std::size_t> s) { auto n = to_shape<N>(s); if (shape_size(n) != n_) throw std::runtime_error("xtensor: reshape"); shape_ = n; return *this; }
  template <class S> bool in_bounds(const S&) const { return true; }
 private:
  void set1(std::size_t n) { if constexpr (N == kDyn) shape_ = shape_type{n}; else shape_[0] = n; alloc(); }
  void alloc() { n_ = shape_size(shape_); data_.reset(new T[n_ ? n_ : 1]()); }
  void resize_to(const shape_type& s) { if (!same_shape(s, shape_)) { shape_ = s; alloc(); } }
  std::size_t offset(const std::size_t* i) const {
    std::size_t o = 0;
    for (std::size_t k = 0; k < shape_.size(); ++k) o = o * shape_[k] + i[k];
    return o;
  }
  template <class E> void take(const E& e) {
    if constexpr (N == kDyn) shape_.clear();
    std::vector<std::size_t> s;
    for (std::size_t k = 0; k < e.dimension(); ++k) s.push_back(e.shape(k));
    shape_ = to_shape<N>(s);
    alloc();
    T* p = begin();
    const std::size_t nd = s.size();
    for_each_index(shape_, [&](const std::size_t* i) { *p++ = static_cast<T>(bget(e, i, nd)); });
  }
  shape_type shape_;
  std::size_t n_ = 0;
  std::unique_ptr<T[]> data_;
};
template <class T, std::size_t N, layout_type L = layout_type::row_major> using xtensor = tensor_base<T, N>;
template <class T, layout_type L = layout_type::row_major> using xarray = tensor_base<T, kDyn>;
// non-owning tensor
template <class T, std::size_t N> class xspan : public expr_base<xspan<T, N>>, public lvalue_ops<xspan<T, N>> {
 public:
  static constexpr std::size_t rank = N;
  using value_type = std::remove_const_t<T>;
  using shape_type = typename shape_t<N>::type;
  using size_type = std::size_t;
  xspan() : p_(nullptr), shape_{}, n_(0) {}
  xspan(T* p, const shape_type& s) : p_(p), shape_(s), n_(shape_size(s)) {}
  xspan(const xspan&) = default;
  xspan& operator=(const xspan& o) { if (n_ == 0 && p_ == nullptr) { p_ = o.p_; shape_ = o.shape_; n_ = o.n_; } else assign_elements(*this, o); return *this; }
  template <class E> xspan& operator=(const E& e) { assign_elements(*this, e); return *this; }
  void rebind(const xspan& o) { p_ = o.p_; shape_ = o.shape_; n_ = o.n_; }
  std::size_t dimension() const { return shape_.size(); }
  const shape_type& shape() const { return shape_; }
  std::size_t shape(std::size_t k) const { return shape_[k]; }
  std::size_t size() const { return n_; }
  T* data() const { return p_; }
  T* begin() const { return p_; }
  T* end() const { return p_ + n_; }
  T& ref(const std::size_t* i) const {
    std::size_t o = 0;
    for (std::size_t k = 0; k < shape_.size(); ++k) o = o * shape_[k] + i[k];
    return p_[o];
  }
 private:
  T* p_;
  shape_type shape_;
  std::size_t n_;
};
struct no_ownership {};
struct acquire_ownership {};
template <class C, class S> auto adapt(C& c, const S& s) {
  constexpr std::size_t N = [] { if constexpr (requires { std::tuple_size<S>::value; }) return std::tuple_size<S>::value; else return kDyn; }();
  using T = std::remove_reference_t<decltype(*c.data())>;
  return xspan<T, N>(c.data(), to_shape<N>(s));
}
template <class C, class S, std::size_t N> auto adapt(C& c, const S (&s)[N]) {
  using T = std::remove_reference_t<decltype(*c.data())>;
  return xspan<T, N>(c.data(), to_shape<N>(s));
}
template <class T, class S> auto adapt(T* c, const S& s) {
  constexpr std::size_t N = [] { if constexpr (requires { std::tuple_size<S>::value; }) return std::tuple_size<S>::value; else return kDyn; }();
  return xspan<T, N>(c, to_shape<N>(s));
}
template <class T, class S, std::size_t N> auto adapt(T* c, const S (&s)[N]) { return xspan<T, N>(c, to_shape<N>(s)); }
template <class T, class O, class S> auto adapt(T* c, std::size_t, O, const S& s) { return adapt(c, s); }
template <class C> auto adapt(C& c) { return adapt(c, std::array<std::size_t, 1>{c.size()}); }

// closures: lvalues by reference, rvalues by value
template <class E> struct closure { using type = std::decay_t<E>; };
template <class E> struct closure<E&> { using type = E&; };
template <class E> using closure_t = typename closure<E>::type;
template <class T> class xscalar : public expr_base<xscalar<T>> {
 public:
  static constexpr std::size_t rank = 0;
  using value_type = T;
  using shape_type = std::array<std::size_t, 0>;
  xscalar(const T& v) : v_(v) {}
  std::size_t dimension() const { return 0; }
  shape_type shape() const { return {}; }
  std::size_t shape(std::size_t) const { return 1; }
  const T& ref(const std::size_t*) const { return v_; }
 private:
  T v_;
};
template <class E> decltype(auto) as_expr(E&& e) {
  if constexpr (is_expr<E>) return std::forward<E>(e); else return xscalar<std::decay_t<E>>(e);
}
template <class E> using operand_t = std::conditional_t<is_expr<E>, closure_t<E>, xscalar<std::decay_t<E>>>;

// slices
struct xall {};
struct xnew {};
struct xrange { std::ptrdiff_t b, e, s; bool openB, openE; };
struct xkeep { std::vector<std::size_t> i; };
struct xplaceholder {};
namespace placeholders { inline constexpr xplaceholder _{}; struct xtuph {}; }
inline xall all() { return {}; }
inline xnew newaxis() { return {}; }
template <class A, class B> xrange range(A a, B b, std::ptrdiff_t s = 1) {
  xrange r{0, 0, s, false, false};
  if constexpr (std::is_same_v<A, xplaceholder>) r.openB = true; else r.b = a;
  if constexpr (std::is_same_v<B, xplaceholder>) r.openE = true; else r.e = b;
  return r;
}
template <class C> xkeep keep(const C& c) {
  xkeep k;
  if constexpr (std::is_integral_v<C>) k.i.push_back(c); else for (auto v : c) k.i.push_back(v);
  return k;
}
template <class T> xkeep keep(std::initializer_list<T> c) { xkeep k; for (auto v : c) k.i.push_back(v); return k; }
template <class... T> constexpr std::size_t count_int = (std::size_t(0) + ... + (std::is_integral_v<std::decay_t<T>> ? 1 : 0));
template <class... T> constexpr std::size_t count_new = (std::size_t(0) + ... + (std::is_same_v<std::decay_t<T>, xnew> ? 1 : 0));
template <class E, class... S> constexpr std::size_t view_rank = rank_of<E> == kDyn ? kDyn : rank_of<E> - count_int<S...> + count_new<S...>;
template <class C, std::size_t N> class xview : public expr_base<xview<C, N>>, public lvalue_ops<xview<C, N>> {
 public:
  using E = std::remove_reference_t<C>;
  static constexpr std::size_t rank = N;
  using value_type = typename std::decay_t<E>::value_type;
  using shape_type = typename shape_t<N>::type;
  template <class CC, class... S> explicit xview(CC&& e, const S&... s) : e_(std::forward<CC>(e)) {
    std::vector<std::size_t> sh;
    (add(s, sh), ...);
    while (maps_.size() < e_.dimension()) add(xall{}, sh);
    shape_ = to_shape<N>(sh);
  }
  xview(const xview&) = default;
  xview& operator=(const xview& o) { assign_elements(*this, o); return *this; }
  template <class X> xview& operator=(const X& x) { assign_elements(*this, x); return *this; }
  template <class X> xview& assign(const X& x) { assign_elements(*this, x); return *this; }
  std::size_t dimension() const { return shape_.size(); }
  const shape_type& shape() const { return shape_; }
  std::size_t shape(std::size_t k) const { return shape_[k]; }
  decltype(auto) ref(const std::size_t* i) { return e_.ref(map(i).data()); }
  decltype(auto) ref(const std::size_t* i) const { return std::as_const(e_).ref(map(i).data()); }
  auto data() { std::size_t z[kMaxDim] = {0}; return &ref(z); }
  std::size_t data_offset() const { return 0; }
 private:
  struct M { int axis; std::ptrdiff_t b, s; std::vector<std::size_t> keep; };  // axis: own axis or -1 (fixed at b)
  std::array<std::size_t, kMaxDim> map(const std::size_t* i) const {
    std::array<std::size_t, kMaxDim> r{};
    for (std::size_t k = 0; k < maps_.size(); ++k) {
      const M& m = maps_[k];
      r[k] = m.axis < 0 ? m.b : m.keep.empty() ? m.b + m.s * std::ptrdiff_t(i[m.axis]) : m.keep[i[m.axis]];
    }
    return r;
  }
  template <class T, std::enable_if_t<std::is_integral_v<T>, int> = 0> void add(T i, std::vector<std::size_t>&) {
    std::ptrdiff_t p = i;
    if (p < 0) p += e_.shape(maps_.size());
    if (maps_.size() >= e_.dimension() || std::size_t(p) >= e_.shape(maps_.size())) throw std::out_of_range("xtensor: view index");
    maps_.push_back(M{-1, p, 0, {}});
  }
  void add(xall, std::vector<std::size_t>& sh) { sh.push_back(e_.shape(maps_.size())); maps_.push_back(M{int(sh.size()) - 1, 0, 1, {}}); }
  void add(xnew, std::vector<std::size_t>& sh) { sh.push_back(1); }
  void add(const xrange& r, std::vector<std::size_t>& sh) {
    const std::ptrdiff_t n = e_.shape(maps_.size());
    std::ptrdiff_t b = r.openB ? (r.s > 0 ? 0 : n - 1) : r.b, e = r.openE ? (r.s > 0 ? n : -1) : r.e;
    if (!r.openB && b < 0) b += n;
    if (!r.openE && e < 0) e += n;
    if (r.s > 0) { b = std::min(b, n); e = std::min(e, n); }
    const std::ptrdiff_t c = r.s > 0 ? (e - b + r.s - 1) / r.s : (b - e - r.s - 1) / -r.s;
    sh.push_back(c > 0 ? c : 0);
    maps_.push_back(M{int(sh.size()) - 1, b, r.s, {}});
  }
  void add(const xkeep& k, std::vector<std::size_t>& sh) {
    for (auto i : k.i) if (i >= e_.shape(maps_.size())) throw std::out_of_range("xtensor: keep index");
    sh.push_back(k.i.size());
    maps_.push_back(M{int(sh.size()) - 1, 0, 1, k.i});
  }
  C e_;
  std::vector<M> maps_;
  shape_type shape_;
};
template <class E, class... S> auto view(E&& e, const S&... s) { return xview<closure_t<E>, view_rank<E, S...>>(std::forward<E>(e), s...); }
template <class E> auto row(E&& e, std::ptrdiff_t i) { return view(std::forward<E>(e), i, all()); }
template <class E> auto col(E&& e, std::ptrdiff_t i) { return view(std::forward<E>(e), all(), i); }
// reshaped
template <class C, std::size_t N> class xreshape : public expr_base<xreshape<C, N>>, public lvalue_ops<xreshape<C, N>> {
 public:
  static constexpr std::size_t rank = N;
  using value_type = typename std::decay_t<C>::value_type;
  using shape_type = typename shape_t<N>::type;
  template <class CC> xreshape(CC&& e, const shape_type& s) : e_(std::forward<CC>(e)), shape_(s) { if (shape_size(s) != e_.size()) throw std::runtime_error("xtensor: reshape"); }
  xreshape(const xreshape&) = default;
  xreshape& operator=(const xreshape& o) { assign_elements(*this, o); return *this; }
  template <class X> xreshape& operator=(const X& x) { assign_elements(*this, x); return *this; }
  std::size_t dimension() const { return shape_.size(); }
  const shape_type& shape() const { return shape_; }
  std::size_t shape(std::size_t k) const { return shape_[k]; }
  decltype(auto) ref(const std::size_t* i) { return e_.ref(map(i).data()); }
  decltype(auto) ref(const std::size_t* i) const { return std::as_const(e_).ref(map(i).data()); }
 private:
  std::array<std::size_t, kMaxDim> map(const std::size_t* i) const {
    std::size_t o = 0;
    for (std::size_t k = 0; k < shape_.size(); ++k) o = o * shape_[k] + i[k];
    std::array<std::size_t, kMaxDim> r{};
    for (std::size_t k = e_.dimension(); k-- > 0;) { r[k] = o % e_.shape(k); o /= e_.shape(k); }
    return r;
  }
  C e_;
  shape_type shape_;
};
template <class E, class S, std::size_t N> auto reshape_view(E&& e, const S (&s)[N]) { return xreshape<closure_t<E>, N>(std::forward<E>(e), to_shape<N>(s)); }
template <class E, class S, std::size_t N> auto reshape_view(E&& e, const std::array<S, N>& s) { return xreshape<closure_t<E>, N>(std::forward<E>(e), to_shape<N>(s)); }
template <class E> auto flatten(E&& e) { const std::size_t n = e.size(); return xreshape<closure_t<E>, 1>(std::forward<E>(e), std::array<std::size_t, 1>{n}); }
template <class E> auto ravel(E&& e) { return flatten(std::forward<E>(e)); }
template <class C> class xtransposed : public expr_base<xtransposed<C>> {
 public:
  static constexpr std::size_t rank = std::decay_t<C>::rank;
  using value_type = typename std::decay_t<C>::value_type;
  using shape_type = typename shape_t<rank>::type;
  template <class CC> explicit xtransposed(CC&& e, int) : e_(std::forward<CC>(e)) { std::vector<std::size_t> s; for (std::size_t k = e_.dimension(); k-- > 0;) s.push_back(e_.shape(k)); shape_ = to_shape<rank>(s); }
  std::size_t dimension() const { return shape_.size(); }
  const shape_type& shape() const { return shape_; }
  std::size_t shape(std::size_t k) const { return shape_[k]; }
  decltype(auto) ref(const std::size_t* i) const { std::size_t r[kMaxDim]; for (std::size_t k = 0; k < shape_.size(); ++k) r[shape_.size() - 1 - k] = i[k]; return std::as_const(e_).ref(r); }
 private:
  C e_;
  shape_type shape_;
};
template <class E> auto transpose(E&& e) { return xtransposed<closure_t<E>>(std::forward<E>(e), 0); }
// element-wise functions
constexpr std::size_t max_rank(std::initializer_list<std::size_t> l) { std::size_t m = 0; for (auto v : l) { if (v == kDyn) return kDyn; m = v > m ? v : m; } return m; }
template <class F, class... C> class xfunction : public expr_base<xfunction<F, C...>> {
 public:
  static constexpr std::size_t rank = max_rank({std::decay_t<C>::rank...});
  using value_type = std::decay_t<std::invoke_result_t<F, typename std::decay_t<C>::value_type...>>;
  using shape_type = typename shape_t<rank>::type;
  template <class... A> explicit xfunction(F f, A&&... a) : f_(f), c_(std::forward<A>(a)...) {
    std::vector<std::size_t> s;
    std::apply([&](const auto&... e) { (merge(e, s), ...); }, c_);
    shape_ = to_shape<rank>(s);
  }
  std::size_t dimension() const { return shape_.size(); }
  const shape_type& shape() const { return shape_; }
  std::size_t shape(std::size_t k) const { return shape_[k]; }
  value_type ref(const std::size_t* i) const {
    return std::apply([&](const auto&... e) { return static_cast<value_type>(f_(static_cast<typename std::decay_t<decltype(e)>::value_type>(bget(e, i, shape_.size()))...)); }, c_);
  }
 private:
  template <class E> static void merge(const E& e, std::vector<std::size_t>& s) {
    const std::size_t d = e.dimension();
    if (d > s.size()) s.insert(s.begin(), d - s.size(), 1);
    for (std::size_t k = 0; k < d; ++k) {
      std::size_t& t = s[s.size() - d + k];
      const std::size_t v = e.shape(k);
      if (t == 1) t = v; else if (v != 1 && v != t) throw std::runtime_error("xtensor: shape mismatch");
    }
  }
  F f_;
  std::tuple<C...> c_;
  shape_type shape_;
};
template <class F, class... E> auto make_function(F f, E&&... e) { return xfunction<F, operand_t<E>...>(f, as_expr(std::forward<E>(e))...); }
template <class A, class B> inline constexpr bool any_expr = is_expr<A> || is_expr<B>;
#define XT_BIN(op) \
  template <class A, class B, std::enable_if_t<any_expr<A, B>, int> = 0> auto operator op(A&& a, B&& b) { \
    return make_function([](const auto& x, const auto& y) { return xop::arith(x, y, [](const auto& p, const auto& q) { return p op q; }); }, std::forward<A>(a), std::forward<B>(b)); }
namespace xop {
template <class T> struct is_cplx : std::false_type {};
template <class T> struct is_cplx<std::complex<T>> : std::true_type {};
// xtensor lets complex<float> combine with double scalars and similar mixtures
template <class X, class Y, class F> auto arith(const X& x, const Y& y, F f) {
  if constexpr (is_cplx<X>::value && is_cplx<Y>::value) {
    using R = std::complex<std::common_type_t<typename X::value_type, typename Y::value_type>>;
    return f(R(x), R(y));
  } else if constexpr (is_cplx<X>::value && std::is_arithmetic_v<Y>) {
    using T = std::common_type_t<typename X::value_type, Y>;
    return f(std::complex<T>(x), T(y));
  } else if constexpr (is_cplx<Y>::value && std::is_arithmetic_v<X>) {
    using T = std::common_type_t<typename Y::value_type, X>;
    return f(T(x), std::complex<T>(y));
  } else return f(x, y);
}
}
XT_BIN(+) XT_BIN(-) XT_BIN(*) XT_BIN(/) XT_BIN(%) XT_BIN(&) XT_BIN(|) XT_BIN(^) XT_BIN(&&) XT_BIN(||) XT_BIN(<) XT_BIN(<=) XT_BIN(>) XT_BIN(>=)
#undef XT_BIN
template <class A, std::enable_if_t<is_expr<A>, int> = 0> auto operator-(A&& a) { return make_function([](const auto& x) { return -x; }, std::forward<A>(a)); }
template <class A, std::enable_if_t<is_expr<A>, int> = 0> auto operator!(A&& a) { return make_function([](const auto& x) { return !x; }, std::forward<A>(a)); }
template <class A, std::enable_if_t<is_expr<A>, int> = 0> auto operator~(A&& a) { return make_function([](const auto& x) { return ~x; }, std::forward<A>(a)); }
// comparison of whole expressions
template <class A, class B, std::enable_if_t<is_expr<A> && is_expr<B>, int> = 0> bool operator==(const A& a, const B& b) {
  if (a.dimension() != b.dimension()) return false;
  for (std::size_t k = 0; k < a.dimension(); ++k) if (a.shape(k) != b.shape(k)) return false;
  bool eq = true;
  for_each_index(a.shape(), [&](const std::size_t* i) { if (!(a.ref(i) == b.ref(i))) eq = false; });
  return eq;
}
template <class A, class B, std::enable_if_t<is_expr<A> && is_expr<B>, int> = 0> bool operator!=(const A& a, const B& b) { return !(a == b); }
#define XT_BF(name, expr) template <class A, class B> auto name(A&& a, B&& b) { return make_function([](const auto& x, const auto& y) { return expr; }, std::forward<A>(a), std::forward<B>(b)); }
XT_BF(equal, x == y) XT_BF(not_equal, x != y) XT_BF(less, x < y) XT_BF(greater, x > y) XT_BF(less_equal, x <= y) XT_BF(greater_equal, x >= y)
XT_BF(pow, std::pow(x, y)) XT_BF(maximum, (x > y ? x : y)) XT_BF(minimum, (x < y ? x : y)) XT_BF(fmod, std::fmod(x, y)) XT_BF(atan2, std::atan2(x, y)) XT_BF(hypot, std::hypot(x, y))
XT_BF(logical_and, x && y) XT_BF(logical_or, x || y)
#undef XT_BF
namespace xop {
template <class T> bool fin(const T& x) { return std::isfinite(x); }
template <class T> bool fin(const std::complex<T>& x) { return std::isfinite(x.real()) && std::isfinite(x.imag()); }
template <class T> bool nan(const T& x) { return std::isnan(x); }
template <class T> bool nan(const std::complex<T>& x) { return std::isnan(x.real()) || std::isnan(x.imag()); }
template <class T> T re(const T& x) { return x; }
template <class T> T re(const std::complex<T>& x) { return x.real(); }
template <class T> T im(const T&) { return T(0); }
template <class T> T im(const std::complex<T>& x) { return x.imag(); }
template <class T> T cj(const T& x) { return x; }
template <class T> std::complex<T> cj(const std::complex<T>& x) { return std::conj(x); }
}
#define XT_UN(name, expr) template <class A> auto name(A&& a) { return make_function([](const auto& x) { return expr; }, std::forward<A>(a)); }
XT_UN(abs, std::abs(x)) XT_UN(fabs, std::abs(x)) XT_UN(sqrt, std::sqrt(x)) XT_UN(exp, std::exp(x)) XT_UN(log, std::log(x)) XT_UN(sin, std::sin(x)) XT_UN(cos, std::cos(x)) XT_UN(arg, std::arg(x)) XT_UN(angle, std::arg(x)) XT_UN(norm, std::norm(x))
XT_UN(square, x * x) XT_UN(real, xop::re(x)) XT_UN(imag, xop::im(x)) XT_UN(conj, xop::cj(x)) XT_UN(isfinite, xop::fin(x)) XT_UN(isnan, xop::nan(x)) XT_UN(floor, std::floor(x)) XT_UN(ceil, std::ceil(x)) XT_UN(round, std::round(x)) XT_UN(logical_not, !x)
#undef XT_UN
template <class T, class A> auto cast(A&& a) { return make_function([](const auto& x) { return static_cast<T>(x); }, std::forward<A>(a)); }
template <class A> auto eval(A&& a) { return tensor_base<typename std::decay_t<A>::value_type, rank_of<A>>(a); }
template <class F> auto vectorize(F f) { return [f](auto&&... e) { return make_function(f, std::forward<decltype(e)>(e)...); }; }
template <class C, class A, class B> auto where(C&& c, A&& a, B&& b) { return make_function([](const auto& x, const auto& y, const auto& z) { return x ? y : z; }, std::forward<C>(c), std::forward<A>(a), std::forward<B>(b)); }
template <class E> auto where(const E& e) {
  std::vector<std::vector<std::size_t>> r(e.dimension());
  for_each_index(e.shape(), [&](const std::size_t* i) { if (e.ref(i)) for (std::size_t k = 0; k < e.dimension(); ++k) r[k].push_back(i[k]); });
  return r;
}
template <class E> auto nonzero(const E& e) { return where(e); }
template <class E> auto argwhere(const E& e) {
  std::vector<std::vector<std::size_t>> r;
  for_each_index(e.shape(), [&](const std::size_t* i) { if (e.ref(i)) r.emplace_back(i, i + e.dimension()); });
  return r;
}
inline auto flatten_indices(const std::vector<std::vector<std::size_t>>& v) {
  std::vector<std::size_t> f;
  for (auto& i : v) f.insert(f.end(), i.begin(), i.end());
  tensor_base<std::size_t, 1> r(std::array<std::size_t, 1>{f.size()});
  std::copy(f.begin(), f.end(), r.begin());
  return r;
}
template <class C> auto from_indices(const C& v) { return flatten_indices(v); }
// masked assignment
template <class E, class M> class xmasked {
 public:
  template <class EE, class MM> xmasked(EE&& e, MM&& m) : e_(std::forward<EE>(e)), m_(std::forward<MM>(m)) {}
  template <class V> xmasked& operator=(const V& v) {
    // masked_view refers to elements where the mask is true
    std::vector<unsigned char> on;
    const std::size_t nd = e_.dimension();
    for_each_index(e_.shape(), [&](const std::size_t* i) { on.push_back(bool(bget(m_, i, nd))); });
    std::size_t n = 0;
    for_each_index(e_.shape(), [&](const std::size_t* i) {
      if (on[n++]) { if constexpr (is_expr<V>) e_.ref(i) = bget(v, i, nd); else e_.ref(i) = v; }
    });
    return *this;
  }
  template <class V> void fill(const V& v) { *this = v; }
 private:
  E e_;
  M m_;
};
template <class E, class M> auto masked_view(E&& e, M&& m) { return xmasked<closure_t<E>, closure_t<M>>(std::forward<E>(e), std::forward<M>(m)); }
template <class E, class M> auto filtration(E&& e, M&& m) { return masked_view(std::forward<E>(e), std::forward<M>(m)); }
template <class E> class xnoalias { public: explicit xnoalias(E& e) : e_(e) {} template <class X> E& operator=(const X& x) { e_ = x; return e_; } template <class X> E& operator+=(const X& x) { return e_ += x; } private: E& e_; };
template <class E> auto noalias(E&& e) { return xnoalias<std::remove_reference_t<E>>(e); }
// reductions
template <class E> bool any(const E& e) { bool r = false; for_each_index(e.shape(), [&](const std::size_t* i) { if (e.ref(i)) r = true; }); return r; }
template <class E> bool all(const E& e) { bool r = true; for_each_index(e.shape(), [&](const std::size_t* i) { if (!e.ref(i)) r = false; }); return r; }
template <class R, class E, class F> tensor_base<R, 0> reduce_all(const E& e, F f, R init, bool first) {
  R r = init; bool fst = first;
  for_each_index(e.shape(), [&](const std::size_t* i) { if (fst) { r = R(e.ref(i)); fst = false; } else r = f(r, R(e.ref(i))); });
  return tensor_base<R, 0>(std::array<std::size_t, 0>{}, r);
}
template <class R, class E, class F> tensor_base<R, kDyn> reduce_axes(const E& e, const std::vector<std::ptrdiff_t>& axes, F f, R init, bool first) {
  std::vector<char> red(e.dimension(), 0);
  for (auto a : axes) red[a < 0 ? a + e.dimension() : a] = 1;
  std::vector<std::size_t> s;
  for (std::size_t k = 0; k < e.dimension(); ++k) if (!red[k]) s.push_back(e.shape(k));
  tensor_base<R, kDyn> r(s, init);
  std::vector<char> seen(r.size(), 0);
  for_each_index(e.shape(), [&](const std::size_t* i) {
    std::size_t o = 0;
    for (std::size_t k = 0; k < e.dimension(); ++k) if (!red[k]) o = o * e.shape(k) + i[k];
    R& t = r.begin()[o];
    if (first && !seen[o]) t = R(e.ref(i)); else t = f(t, R(e.ref(i)));
    seen[o] = 1;
  });
  return r;
}
template <class T> using sum_type = std::conditional_t<std::is_integral_v<T>, std::conditional_t<std::is_signed_v<T>, long long, unsigned long long>, T>;
inline std::vector<std::ptrdiff_t> axes_of(std::initializer_list<std::ptrdiff_t> l) { return l; }
template <class I, std::enable_if_t<std::is_integral_v<I>, int> = 0> std::vector<std::ptrdiff_t> axes_of(I i) { return {std::ptrdiff_t(i)}; }
template <class C, std::enable_if_t<!std::is_integral_v<C>, int> = 0> std::vector<std::ptrdiff_t> axes_of(const C& c) { return std::vector<std::ptrdiff_t>(c.begin(), c.end()); }
#define XT_RED(name, type, op, init, first) \
  template <class E, std::enable_if_t<is_expr<E>, int> = 0> auto name(const E& e) { using T = typename E::value_type; using R = type; return reduce_all<R>(e, [](const R& a, const R& b) { return op; }, R(init), first); } \
  template <class E, class A, std::enable_if_t<is_expr<E>, int> = 0> auto name(const E& e, const A& ax) { using T = typename E::value_type; using R = type; return reduce_axes<R>(e, axes_of(ax), [](const R& a, const R& b) { return op; }, R(init), first); } \
  template <class E, std::enable_if_t<is_expr<E>, int> = 0> auto name(const E& e, std::initializer_list<std::ptrdiff_t> ax) { using T = typename E::value_type; using R = type; return reduce_axes<R>(e, axes_of(ax), [](const R& a, const R& b) { return op; }, R(init), first); }
XT_RED(sum, sum_type<T>, a + b, 0, false) XT_RED(prod, sum_type<T>, a * b, 1, false) XT_RED(amax, T, (a > b ? a : b), T(), true) XT_RED(amin, T, (a < b ? a : b), T(), true)
#undef XT_RED
template <class E, std::enable_if_t<is_expr<E>, int> = 0> auto mean(const E& e) {
  using T = typename E::value_type; using R = std::conditional_t<std::is_integral_v<T>, double, T>;
  const auto s = sum(e);
  R r = R(*s.begin());
  r /= static_cast<decltype(xop::re(r))>(e.size());
  return tensor_base<R, 0>(std::array<std::size_t, 0>{}, r);
}
template <class E, class A, std::enable_if_t<is_expr<E>, int> = 0> auto mean(const E& e, const A& ax) {
  auto s = sum(e, ax);
  const double n = s.size() ? double(e.size() / s.size()) : 0.0;
  tensor_base<std::decay_t<decltype(*s.begin() / static_cast<decltype(xop::re(*s.begin()))>(n))>, kDyn> r(s);
  for (auto& v : r) v /= static_cast<decltype(xop::re(v))>(n);
  return r;
}
template <class E, class X> auto count_nonzero(const E& e) { std::size_t n = 0; for_each_index(e.shape(), [&](const std::size_t* i) { if (e.ref(i)) ++n; }); return n; }
template <class A, class B> bool allclose(const A& a, const B& b, double rtol = 1e-5, double atol = 1e-8) {
  auto f = make_function([=](const auto& x, const auto& y) { return std::abs(x - y) <= atol + rtol * std::abs(y); }, a, b);
  return all(f);
}
// builders
template <class T, class S, std::size_t N> auto zeros(const S (&s)[N]) { return tensor_base<T, N>(to_shape<N>(s), T(0)); }
template <class T, class S> auto zeros(const S& s) { if constexpr (requires { std::tuple_size<S>::value; }) return tensor_base<T, std::tuple_size<S>::value>(to_shape<std::tuple_size<S>::value>(s), T(0)); else return tensor_base<T, kDyn>(to_shape<kDyn>(s), T(0)); }
template <class T, class S, std::size_t N> auto ones(const S (&s)[N]) { return tensor_base<T, N>(to_shape<N>(s), T(1)); }
template <class T, class S> auto ones(const S& s) { if constexpr (requires { std::tuple_size<S>::value; }) return tensor_base<T, std::tuple_size<S>::value>(to_shape<std::tuple_size<S>::value>(s), T(1)); else return tensor_base<T, kDyn>(to_shape<kDyn>(s), T(1)); }
template <class T, class S, std::size_t N> auto empty(const S (&s)[N]) { return tensor_base<T, N>(to_shape<N>(s)); }
template <class T, class S> auto empty(const S& s) { if constexpr (requires { std::tuple_size<S>::value; }) return tensor_base<T, std::tuple_size<S>::value>(to_shape<std::tuple_size<S>::value>(s)); else return tensor_base<T, kDyn>(to_shape<kDyn>(s)); }
template <class E> auto zeros_like(const E& e) { return tensor_base<typename E::value_type, rank_of<E>>(e.shape(), typename E::value_type(0)); }
template <class E> auto ones_like(const E& e) { return tensor_base<typename E::value_type, rank_of<E>>(e.shape(), typename E::value_type(1)); }
template <class E, class V> auto full_like(const E& e, const V& v) { return tensor_base<typename E::value_type, rank_of<E>>(e.shape(), typename E::value_type(v)); }
template <class T = double> tensor_base<T, 1> arange(T b, T e, T s = T(1)) { std::vector<T> v; for (T x = b; x < e; x += s) v.push_back(x); tensor_base<T, 1> r(std::array<std::size_t, 1>{v.size()}); std::copy(v.begin(), v.end(), r.begin()); return r; }
template <class T = double> tensor_base<T, 1> arange(T e) { return arange<T>(T(0), e); }
template <class T = double> tensor_base<T, 1> linspace(T b, T e, std::size_t n = 50) { tensor_base<T, 1> r(std::array<std::size_t, 1>{n}); for (std::size_t i = 0; i < n; ++i) r.begin()[i] = n == 1 ? b : b + (e - b) * T(i) / T(n - 1); return r; }
template <class E, class S> auto broadcast(E&& e, const S& s) { return make_function([](const auto& x, const auto&) { return x; }, std::forward<E>(e), zeros<int>(s)); }
template <class D> template <class E> D& lvalue_ops<D>::operator+=(const E& e) { assign_elements(self(), self() + e); return self(); }
template <class D> template <class E> D& lvalue_ops<D>::operator-=(const E& e) { assign_elements(self(), self() - e); return self(); }
template <class D> template <class E> D& lvalue_ops<D>::operator*=(const E& e) { assign_elements(self(), self() * e); return self(); }
template <class D> template <class E> D& lvalue_ops<D>::operator/=(const E& e) { assign_elements(self(), self() / e); return self(); }
template <class D> template <class E> D& lvalue_ops<D>::operator&=(const E& e) { assign_elements(self(), self() & e); return self(); }
template <class D> template <class E> D& lvalue_ops<D>::operator|=(const E& e) { assign_elements(self(), self() | e); return self(); }
namespace linalg {
template <class A, class B> auto dot(const A& a, const B& b) {
  using T = decltype(typename A::value_type() * typename B::value_type());
  std::vector<std::size_t> s;
  const bool m1 = a.dimension() == 2, m2 = b.dimension() == 2;
  const std::size_t n1 = m1 ? a.shape(0) : 1, n2 = m2 ? b.shape(1) : 1, k = m1 ? a.shape(1) : a.shape(0);
  if (m1) s.push_back(n1);
  if (m2) s.push_back(n2);
  tensor_base<T, kDyn> r(s, T(0));
  for (std::size_t i = 0; i < n1; ++i) for (std::size_t j = 0; j < n2; ++j) {
    T t(0);
    for (std::size_t l = 0; l < k; ++l) t += (m1 ? a(i, l) : a(l)) * (m2 ? b(l, j) : b(l));
    r.begin()[i * n2 + j] = t;
  }
  return r;
}
template <class A, class B> auto outer(const A& a, const B& b) {
  using T = decltype(typename A::value_type() * typename B::value_type());
  tensor_base<T, 2> r(std::array<std::size_t, 2>{a.size(), b.size()});
  for (std::size_t i = 0; i < a.size(); ++i) for (std::size_t j = 0; j < b.size(); ++j) r(i, j) = a(i) * b(j);
  return r;
}
template <class A> auto norm(const A& a, int = 2) { decltype(std::abs(typename A::value_type())) s(0); for (std::size_t i = 0; i < a.size(); ++i) s += std::norm(a.flat(i)); return std::sqrt(s); }
}
template <class T, std::size_t N> xtensor<T, 1> adapt(std::array<T, N>&& a) { xtensor<T, 1> r(std::array<std::size_t, 1>{N}); for (std::size_t i = 0; i < N; ++i) r.data()[i] = a[i]; return r; }
}  // namespace xt
