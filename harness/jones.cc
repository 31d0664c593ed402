// C11/C12: application of station gains and subtraction of weighted models.
#include <complex>
#include <vector>
#include "util.h"
#include "base/Apply.h"
#include "base/SubtractMixed.h"
using namespace dp3::base;
typedef std::complex<double> C;
// params: mode, n_stations, n_channels, n_baselines, padding, then baseline pairs
extern "C" void harness() {
  const int mode = sym_param(0), nst = sym_param(1), nch = sym_param(2), nbl = sym_param(3), pad = sym_param(4);
  std::vector<Baseline> bl;
  for (int i = 0; i < nbl; ++i) bl.emplace_back(sym_param(5 + 2 * i), sym_param(6 + 2 * i));
  const size_t sc = 4 + pad, sb = sc * nch + pad;
  const size_t str[3] = {1, sc, sb};
  if (mode == 0) {
    std::vector<double> g(nst * (8 + pad));
    for (double& x : g) x = sym_f64("g");
    std::vector<C> d(sb * nbl);
    for (C& x : d) x = C(sym_f64("re"), sym_f64("im"));
    const std::vector<C> o = d;
    const size_t gs[2] = {1, size_t(8 + pad)};
    apply(nbl, nch, const_cursor<Baseline>(&bl[0]), const_cursor<double>(&g[0], 2, gs), cursor<C>(&d[0], 3, str));
    auto J = [&](size_t s, int r, int c) { return C(g[s * (8 + pad) + 2 * (2 * r + c)], g[s * (8 + pad) + 2 * (2 * r + c) + 1]); };
    for (size_t k = 0; k < d.size(); ++k) {
      const size_t b = k / sb, ch = (k % sb) / sc, p = (k % sb) % sc;
      if (ch >= size_t(nch) || p >= 4 || bl[b].first == bl[b].second) {
        sym_assert(std::memcmp(&d[k], &o[k], sizeof(C)) == 0, "autocorrelations and padding are untouched");
        continue;
      }
      const int r = p / 2, c = p % 2;
      C want(0, 0);  // (Jp V Jq^H)[r][c]
      const C* V = &o[b * sb + ch * sc];
      for (int i = 0; i < 2; ++i)
        for (int j = 0; j < 2; ++j) want += J(bl[b].first, r, i) * V[2 * i + j] * std::conj(J(bl[b].second, c, j));
      sym_close(d[k].real(), want.real(), "visibility equals Jp V Jq^H (real part)");
      sym_close(d[k].imag(), want.imag(), "visibility equals Jp V Jq^H (imaginary part)");
    }
    sym_reach("apply");
  } else if (mode == 2) {
    // invalid (NaN) visibilities do not spoil the reported power
    std::vector<std::complex<float>> d(4);
    std::vector<C> m(4, C(1, 0)), w(4, C(0.5, 0));
    float before = -1, after = -1, vb = 0, va = 0;
    for (int p = 0; p < 4; ++p) {
      const int k = sym_choose(0, 3, "nan");
      const float nan = __builtin_nanf("");
      d[p] = std::complex<float>(k & 1 ? nan : 3.0f + p, k & 2 ? nan : -1.0f);
      if (k == 0 && (p == 0 || p == 3)) {
        vb += (3.0f + p) * (3.0f + p) + 1;
        va += (2.5f + p) * (2.5f + p) + 1;
      }
    }
    const size_t s3[3] = {1, 4, 4};
    const Baseline b(0, 1);
    subtract(1, 1, const_cursor<Baseline>(&b), cursor<std::complex<float>>(&d[0], 3, s3), const_cursor<C>(&m[0], 3, s3), const_cursor<C>(&w[0], 3, s3), before, after);
    sym_assert(before - vb < 1e-3f && vb - before < 1e-3f, "power before subtraction skips invalid data");
    sym_assert(after - va < 1e-3f && va - after < 1e-3f, "power after subtraction skips invalid data");
    sym_reach("nan");
  } else {
    std::vector<std::complex<float>> d(sb * nbl);
    std::vector<C> m(sb * nbl), w(sb * nbl);
    for (auto& x : d) x = std::complex<float>(sym_f32("dre"), sym_f32("dim"));
    for (auto& x : m) x = C(sym_f64("mre"), sym_f64("mim"));
    for (auto& x : w) x = C(sym_f64("wre"), sym_f64("wim"));
    const auto o = d;
    float before = -1, after = -1;
    subtract(nbl, nch, const_cursor<Baseline>(&bl[0]), cursor<std::complex<float>>(&d[0], 3, str), const_cursor<C>(&m[0], 3, str),
             const_cursor<C>(&w[0], 3, str), before, after);
    double vb = 0, va = 0;
    for (size_t k = 0; k < d.size(); ++k) {
      const size_t b = k / sb, ch = (k % sb) / sc, p = (k % sb) % sc;
      if (ch >= size_t(nch) || p >= 4 || bl[b].first == bl[b].second) {
        sym_assert(std::memcmp(&d[k], &o[k], sizeof d[k]) == 0, "autocorrelations and padding are untouched");
        continue;
      }
      const C s = w[k] * m[k];
      sym_close(d[k].real(), o[k].real() - s.real(), "weighted model is subtracted (real part)");
      sym_close(d[k].imag(), o[k].imag() - s.imag(), "weighted model is subtracted (imaginary part)");
      if (p == 0 || p == 3) {
        vb += double(o[k].real()) * o[k].real() + double(o[k].imag()) * o[k].imag();
        const double re = o[k].real() - s.real(), im = o[k].imag() - s.imag();
        va += re * re + im * im;
      }
    }
    sym_close(before, vb, "reported power before subtraction");
    sym_close(after, va, "reported power after subtraction");
    sym_reach("subtract");
  }
}
