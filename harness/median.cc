// C09: median. param 0: type (0 float, 1 double, 2 int), param 1: size
#include "util.h"
#include "common/Median.h"
template <class T>
static void run(size_t n) {
  std::vector<T> v(n);
  for (T& x : v) {
    x = sym<T>("x");
    if (std::is_floating_point<T>::value) sym_assume(sym_and(x >= T(-1e30), x <= T(1e30)));
    else sym_assume(sym_and(x >= T(-1000000000), x <= T(1000000000)));
  }
  const std::vector<T> o = v;
  const T m = dp3::common::Median(v);
  if (n == 0) { sym_assert(m == T(0), "median of nothing is zero"); sym_reach("empty"); return; }
  sym_assert(v.size() == n, "size is kept");
  // the two middle elements by rank
  auto rankOf = [&](T x, size_t& less, size_t& leq) {
    less = leq = 0;
    for (size_t i = 0; i < n; ++i) {
      less += sym_ite_u64(o[i] < x, 1, 0);
      leq += sym_ite_u64(o[i] <= x, 1, 0);
    }
  };
  const size_t hi = n / 2, lo = (n - 1) / 2;
  bool ok = false;
  for (size_t i = 0; i < n; ++i) {
    size_t l1, e1;
    rankOf(o[i], l1, e1);
    const bool isLo = sym_and(l1 <= lo, lo < e1);
    if (n % 2) { ok = sym_or(ok, sym_and(isLo, m == o[i])); continue; }
    for (size_t j = 0; j < n; ++j) {
      size_t l2, e2;
      rankOf(o[j], l2, e2);
      const bool isHi = sym_and(l2 <= hi, hi < e2);
      ok = sym_or(ok, sym_and(sym_and(isLo, isHi), m == T((o[i] + o[j]) / T(2))));
    }
  }
  sym_assert(ok, "median is the middle value, or the mean of the two middle values");
  // the data are only reordered
  for (size_t i = 0; i < n; ++i) {
    size_t a = 0, b = 0;
    for (size_t j = 0; j < n; ++j) { a += sym_ite_u64(o[j] == o[i], 1, 0); b += sym_ite_u64(v[j] == o[i], 1, 0); }
    sym_assert(a == b, "values are only reordered");
  }
  sym_reach("median");
}
extern "C" void harness() {
  const size_t n = sym_param(1);
  switch (sym_param(0)) {
    case 0: run<float>(n); break;
    case 1: run<double>(n); break;
    case 2: run<int>(n); break;
  }
}
