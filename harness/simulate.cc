// C36: predicting the visibilities of a source. C37: antenna coordinates out of baseline coordinates.
#include "steps.h"
#include "base/GaussianSource.h"
#include "base/PointSource.h"
#include "base/Simulate.h"
#include "base/Simulator.h"
using namespace dp3::base;
typedef std::complex<double> Z;
struct V3 { double x, y, z; };
static double dot(const V3& a, const V3& b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
struct Axes { V3 u, v, w; };
static Axes axes(double ra, double dec) {  // towards the east, the north and the direction
  const double sr = sin(ra), cr = cos(ra), sd = sin(dec), cd = cos(dec);
  return {{-sr, cr, 0}, {-cr * sd, -sr * sd, cd}, {cr * cd, sr * cd, sd}};
}
static double sincf1(double x) { return (x < 1e-6 && x > -1e-6) ? 1.0 : sin(x) / x; }
static void near(double a, double b, const char* m) { sym_assert(sym_and(a - b < 1e-4, b - a < 1e-4), m); }
static double bounded(const char* n) { const double x = sym_f64(n); sym_assume(sym_and(x > -1, x < 1)); return x; }
// The four correlations of a source seen by two stations, for any brightness.
static void predict() {
  const bool gauss = sym_param(1), onlyI = sym_param(2), tsmear = sym_param(3), fsmear = sym_param(4), absolute = sym_param(5);
  const int geometry = sym_param(6);
  const double geo[4][4] = {{0.5, 0.25, 0.53, 0.22}, {1.0, -0.4, 1.0, -0.4}, {6.2, 0.9, 0.02, 0.8}, {2.5, 1.2, 2.0, 1.5}};
  const double ra0 = geo[geometry][0], dec0 = geo[geometry][1], ra = geo[geometry][2], dec = geo[geometry][3];
  const size_t nst = 3;
  const std::vector<Baseline> bls{{0, 1}, {1, 1}, {2, 0}};
  const std::vector<double> f{1e6, 1.4e6, 2.1e6}, w{2e5, 4e5, 7e5};
  const double uvw[3][3] = {{0, 0, 0}, {310.5, -120.25, 50}, {-85, 240, -330}};
  xt::xtensor<double, 2> st({nst, 3});
  for (size_t s = 0; s < nst; ++s) for (int k = 0; k < 3; ++k) st(s, k) = uvw[s][k];
  Stokes b;
  b.I = bounded("I"); b.Q = bounded("Q"); b.U = bounded("U"); b.V = bounded("V");
  const size_t ncr = onlyI ? 1 : 4;
  casacore::Cube<Z> vis(ncr, f.size(), bls.size());
  std::vector<Z> before;
  for (size_t i = 0; i < ncr * f.size() * bls.size(); ++i) { const double re = bounded("re"), im = bounded("im"); before.push_back(Z(re, im)); vis.data()[i] = before[i]; }
  const std::array<double, 3> ncp{0, 0.31 * 0.7, 0.12 * 0.7};
  std::unique_ptr<Simulator> sim = tsmear ? std::make_unique<Simulator>(Direction(ra0, dec0), nst, bls, f, w, ncp, st, vis, true, fsmear, onlyI)
                                          : std::make_unique<Simulator>(Direction(ra0, dec0), nst, bls, f, w, st, vis, fsmear, onlyI);
  const double pa = 0.4 + 0.9 * geometry, major = 0.6, minor = 0.2;
  if (gauss) {
    auto g = std::make_shared<GaussianSource>(Direction(ra, dec), b);
    g->setPositionAngle(pa); g->setPositionAngleIsAbsolute(absolute); g->setMajorAxis(major); g->setMinorAxis(minor);
    sim->simulate(g);
  } else sim->simulate(std::make_shared<PointSource>(Direction(ra, dec), b));
  const Axes o = axes(ra0, dec0), s = axes(ra, dec);
  for (size_t bl = 0; bl < bls.size(); ++bl) {
    const size_t p = bls[bl].first, q = bls[bl].second;
    const double u = uvw[q][0] - uvw[p][0], v = uvw[q][1] - uvw[p][1], ww = uvw[q][2] - uvw[p][2];
    const V3 base{u * o.u.x + v * o.v.x + ww * o.w.x, u * o.u.y + v * o.v.y + ww * o.w.y, u * o.u.z + v * o.v.z + ww * o.w.z};
    const double path = dot(base, s.w) - ww;  // relative to the phase centre
    // the change of the path while the sky turns: the derivative of (u,v,w) is the cross product with the pole
    const double l = dot(s.w, o.u), m = dot(s.w, o.v), n = dot(s.w, o.w);
    const double turn = l * (v * ncp[2] - ww * ncp[1]) + m * (ww * ncp[0] - u * ncp[2]) + (n - 1) * (u * ncp[1] - v * ncp[0]);
    const double sigma = 1.0 / (2.0 * std::sqrt(2.0 * std::log(2.0)));
    const double us = absolute ? dot(base, s.u) : u, vs = absolute ? dot(base, s.v) : v;
    const double along = (us * sin(pa) + vs * cos(pa)) * major * sigma, across = (us * cos(pa) - vs * sin(pa)) * minor * sigma;
    for (size_t ch = 0; ch < f.size(); ++ch) {
      const double k = 2.0 * M_PI * f[ch] / casacore::C::c;
      double amp = 1;
      if (gauss) amp *= std::exp(-0.5 * k * k * (along * along + across * across));
      if (tsmear) amp *= sincf1(0.5 * k * turn);
      if (fsmear) amp *= sincf1(0.5 * path * 2.0 * M_PI * w[ch] / casacore::C::c);
      if (p == q) amp = 0;
      const Z ph(amp * cos(k * path), amp * sin(k * path));
      const Z want[4] = {Z(onlyI ? b.I : b.I + b.Q, 0), Z(b.U, b.V), Z(b.U, -b.V), Z(b.I - b.Q, 0)};
      for (size_t c = 0; c < ncr; ++c) {
        const Z got = vis(c, ch, bl), was = before[(bl * f.size() + ch) * ncr + c];
        const double re = want[c].real() * ph.real() - want[c].imag() * ph.imag(), im = want[c].real() * ph.imag() + want[c].imag() * ph.real();
        near(got.real() - was.real(), re, "the response to the source is added"); near(got.imag() - was.imag(), im, "the response to the source is added");
      }
    }
  }
  sym_reach(gauss ? "gaussian" : "point");
}
// The brightness of a source at another frequency.
static void spectrum() {
  const int kind = sym_param(1), n = sym_param(2), rm = sym_param(3);  // kind: 0 flat, 1 logarithmic, 2 polynomial
  Stokes b;
  b.I = sym_f64("I"); b.Q = sym_f64("Q"); b.U = sym_f64("U"); b.V = sym_f64("V");
  PointSource s(Direction(0.1, 0.2), b);
  std::vector<double> c;
  for (int i = 0; i < n; ++i) c.push_back(sym_f64("term"));
  const double f0 = kind == 1 ? 1e8 : sym_f64("reference"), f = kind == 1 ? (sym_param(4) ? 1e6 : 1e9) : sym_f64("frequency");
  sym_assume(sym_and(f > 0, f0 > 0));
  if (kind) s.setSpectralTerms(f0, kind == 1, c.begin(), c.end());
  double fraction = 0, angle = 0, rot = 0;
  if (rm) { fraction = sym_f64("fraction"); angle = sym_f64("angle"); rot = sym_f64("rm"); s.setRotationMeasure(fraction, angle, rot); }
  const Stokes got = s.stokes(f);
  double I = b.I;
  if (kind == 1 && n) {
    const double x = sym_param(4) ? -2 : 1;
    double e = 0, p = x;
    for (int i = 0; i < n; ++i, p *= x) e += c[i] * p;
    I = b.I * std::pow(10.0, e);
  } else if (kind == 2 && n) {
    const double x = f / f0 - 1.0;
    double p = x;
    for (int i = 0; i < n; ++i, p *= x) I += c[i] * p;
  }
  sym_close(got.I, I, "the total intensity");
  if (rm) {
    const double lambda = casacore::C::c / f, chi = 2.0 * (angle + rot * lambda * lambda);
    sym_close(got.Q, I * fraction * cos(chi), "the polarized intensity turns with the square of the wavelength");
    sym_close(got.U, I * fraction * sin(chi), "the polarized intensity turns with the square of the wavelength");
  } else { sym_assert(got.Q == b.Q, "Q"); sym_assert(got.U == b.U, "U"); }
  sym_assert(got.V == b.V, "V");
  sym_reach("spectrum");
}
// The coordinates of antennas, out of those of any set of baselines.
static void split() {
  const int nant = sym_param(1), nbl = sym_param(2), positions = sym_param(3);
  std::vector<int> a1, a2;
  std::vector<Baseline> bls;
  for (int b = 0; b < nbl; ++b) {
    a1.push_back(sym_concretize(sym_choose(0, nant - 1, "ant1"))); a2.push_back(sym_concretize(sym_choose(0, nant - 1, "ant2")));
    bls.emplace_back(a1[b], a2[b]);
  }
  std::vector<std::array<double, 3>> pos;
  const double where[2][5] = {{0, 1, 3, 7, 20}, {5, 5, 0, 11, 2}};
  for (int a = 0; a < nant; ++a) pos.push_back({0.5, where[positions == 2][a], -1});
  std::vector<double> real;
  // baselines between antennas at the same place have no length
  for (int a = 0; a < nant; ++a) for (int k = 0; k < 3; ++k) real.push_back(positions == 2 && a == 1 ? real[k] : sym_f64("coordinate"));
  const std::vector<int> index = positions ? SetupUvwSplitting(nant, a1, a2, pos) : SetupUvwSplitting(nant, a1, a2);
  DPBuffer::UvwType uvw({size_t(nbl), 3});
  for (int b = 0; b < nbl; ++b) for (int k = 0; k < 3; ++k) uvw(b, k) = real[3 * a2[b] + k] - real[3 * a1[b] + k];
  xt::xtensor<double, 2> ant({size_t(nant), 3});
  for (int i = 0; i < 3 * nant; ++i) ant.data()[i] = 1e9;
  SplitUvw(index, bls, uvw, ant);
  std::vector<int> group;
  for (int a = 0; a < nant; ++a) group.push_back(a);
  for (int b = 0; b < nbl; ++b) { const int g1 = group[a1[b]], g2 = group[a2[b]]; for (int& g : group) if (g == g2) g = g1; }
  int ngroup = 0;
  bool all = true;
  for (int a = 0; a < nant; ++a) {
    int first = 0;
    while (group[first] != group[a]) ++first;
    for (int k = 0; k < 3; ++k) { const double d = ant(a, k) - (real[3 * a + k] - real[3 * first + k]); all = sym_and(all, sym_and(d < 1e-6, d > -1e-6)); }
    ngroup += first == a;
  }
  sym_assert(all, "the coordinates relative to the first antenna of the group");
  if (positions != 2) sym_assert(int(index.size()) == nant - ngroup, "one baseline per antenna that is not the first of its group");
  if (positions) {  // no baseline that was left out is longer than one on the path that replaces it
    auto len = [&](int b) { const double d = pos[a2[b]][1] - pos[a1[b]][1]; return d * d; };
    for (int b = 0; b < nbl; ++b) {
      if (len(b) == 0) continue;
      std::vector<int> g;
      for (int a = 0; a < nant; ++a) g.push_back(a);
      for (int i : index) { const int u = i < 0 ? -i - 1 : i; if (len(u) < len(b)) continue; const int g1 = g[a1[u]], g2 = g[a2[u]]; for (int& x : g) if (x == g2) x = g1; }
      sym_assert(g[a1[b]] == g[a2[b]], "the long baselines are used");
    }
  }
  sym_reach(positions ? "splitlong" : "split");
}
static void rotate() {
  const double ra0 = 0.3, dec0 = 0.9, ra = 1.1, dec = -0.2;
  double uvw[6], is[6];
  for (int i = 0; i < 6; ++i) uvw[i] = is[i] = bounded("uvw");
  rotateUVW(Direction(ra0, dec0), Direction(ra, dec), 2, uvw);
  const Axes o = axes(ra0, dec0), n = axes(ra, dec);
  for (int i = 0; i < 2; ++i) {
    const double* q = is + 3 * i;
    const V3 b{q[0] * o.u.x + q[1] * o.v.x + q[2] * o.w.x, q[0] * o.u.y + q[1] * o.v.y + q[2] * o.w.y, q[0] * o.u.z + q[1] * o.v.z + q[2] * o.w.z};
    near(uvw[3 * i], dot(b, n.u), "seen from the other direction"); near(uvw[3 * i + 1], dot(b, n.v), "seen from the other direction"); near(uvw[3 * i + 2], dot(b, n.w), "seen from the other direction");
  }
  sym_reach("rotate");
}
extern "C" void harness() {
  switch (sym_param(0)) {
    case 0: predict(); break;
    case 1: spectrum(); break;
    case 2: split(); break;
    case 3: rotate(); break;
  }
}
