// C24: sources, their flux as a function of frequency, and patches of sources.
#include <cmath>
#include <memory>
#include <vector>
#include "util.h"
#include "base/ComponentInfo.h"
#include "base/GaussianSource.h"
#include "base/ModelComponentVisitor.h"
#include "base/PointSource.h"
#include "sky_model/Patch.h"
using namespace dp3::base;
static Stokes symStokes() {
  Stokes s;
  s.I = sym_f64("I");
  s.Q = sym_f64("Q");
  s.U = sym_f64("U");
  s.V = sym_f64("V");
  return s;
}
static void same(const Stokes& a, double I, double Q, double U, double V) {
  sym_close(a.I, I, "Stokes I");
  sym_close(a.Q, Q, "Stokes Q");
  sym_close(a.U, U, "Stokes U");
  sym_close(a.V, V, "Stokes V");
}
static bool closeTo(double a, double b) { return a == b || (!sym_is_symbolic() && std::abs(a - b) < 1e-9); }
// params: terms, logarithmic, rotation measure, gaussian, frequency pair, replaced
static void flux() {
  const int n = sym_param(1), f = sym_param(5);
  const bool log = sym_param(2), rm = sym_param(3), gauss = sym_param(4);
  static const double F[6] = {1e8, 1e7, 1e6, 1e8, 2e7, 3e7}, F0[6] = {1e7, 1e8, 1e8, 1e8, 1e7, 2e7};
  const Stokes s = symStokes();
  std::vector<double> c(n), junk(3, 1.0);
  for (double& x : c) x = sym_f64("c");
  std::unique_ptr<PointSource> src;
  if (gauss) src.reset(new GaussianSource(Direction(0.1, 0.2)));
  else src.reset(new PointSource(Direction(0.1, 0.2)));
  same(src->stokes(), 0, 0, 0, 0);
  src->setStokes(s);
  if (sym_param(6)) src->setSpectralTerms(3e6, !log, junk.begin(), junk.end());
  src->setSpectralTerms(F0[f], log, c.begin(), c.end());
  const double frac = sym_f64("fraction"), pa = sym_f64("angle"), m = sym_f64("rm");
  if (rm) src->setRotationMeasure(frac, pa, m);
  sym_assert(src->hasSpectralTerms() == (n > 0) && src->hasRotationMeasure() == rm, "source properties");
  sym_assert(src->spectrum() == c, "spectral terms are kept");
  sym_assert(src->referenceFreq() == F0[f], "reference frequency is kept");
  if (n) sym_assert(src->hasLogarithmicSI() == log, "kind of spectrum is kept");
  same(src->stokes(), s.I, s.Q, s.U, s.V);
  const Stokes r = src->stokes(F[f]);
  double I = s.I;
  if (n) {
    double sum = 0, p = 1;
    const double x = log ? std::log10(F[f]) - std::log10(F0[f]) : F[f] / F0[f] - 1.0;
    for (int i = 0; i < n; ++i) {
      p *= x;
      sum += c[i] * p;
    }
    if (log) I *= std::pow(10.0, sum);
    else I += sum;
  }
  double Q = s.Q, U = s.U;
  if (rm) {
    const double lambda = 299792458.0 / F[f];
    const double chi = 2.0 * pa + 2.0 * m * (lambda * lambda);
    Q = I * frac * std::cos(chi);
    U = I * frac * std::sin(chi);
  }
  same(r, I, Q, U, s.V);
  same(src->stokes(), s.I, s.Q, s.U, s.V);
  sym_reach("flux");
}
static void settings() {
  const Stokes s = symStokes();
  const Direction d(sym_f64("ra"), sym_f64("dec"));
  const bool with = sym_choose(0, 1, "with");
  GaussianSource g = with ? GaussianSource(d, s) : GaussianSource(d);
  sym_assert(g.getPositionAngle() == 0 && g.getMajorAxis() == 0 && g.getMinorAxis() == 0 && g.getPositionAngleIsAbsolute(), "initial shape");
  sym_assert(!g.hasSpectralTerms() && !g.hasRotationMeasure(), "initial spectrum");
  sym_assert(g.direction().ra == d.ra && g.direction().dec == d.dec, "direction");
  same(g.stokes(1e8), with ? s.I : 0, with ? s.Q : 0, with ? s.U : 0, with ? s.V : 0);
  const double pa = sym_f64("pa"), mj = sym_f64("major"), mn = sym_f64("minor");
  g.setPositionAngle(pa);
  g.setMajorAxis(mj);
  g.setMinorAxis(mn);
  g.setPositionAngleIsAbsolute(false);
  const Direction e(sym_f64("ra"), sym_f64("dec"));
  g.setDirection(e);
  sym_assert(g.getPositionAngle() == pa && g.getMajorAxis() == mj && g.getMinorAxis() == mn && !g.getPositionAngleIsAbsolute(), "shape");
  sym_assert(g.direction().ra == e.ra && g.direction().dec == e.dec, "new direction");
  const double fr = sym_f64("f"), an = sym_f64("a"), rm = sym_f64("rm");
  g.setRotationMeasure(fr, an, rm);
  sym_assert(g.polarizedFraction() == fr && g.polarizationAngle() == an && g.rotationMeasure() == rm, "polarisation");
  sym_reach("settings");
}
// one object inspects several components one after the other
static void inspect() {
  const int k = sym_param(1);
  ComponentInfo info;
  for (int i = 0; i < k; ++i) {
    const int n = sym_param(2 + 2 * i);
    const bool gauss = sym_param(3 + 2 * i);
    const Direction d(sym_f64("ra"), sym_f64("dec"));
    const Stokes s = symStokes();
    std::vector<double> c(n);
    for (double& x : c) x = sym_f64("c");
    const double f0 = sym_f64("f0"), pa = sym_f64("pa"), mj = sym_f64("major"), mn = sym_f64("minor");
    std::shared_ptr<PointSource> p;
    if (gauss) {
      auto g = std::make_shared<GaussianSource>(d, s);
      g->setPositionAngle(pa);
      g->setMajorAxis(mj);
      g->setMinorAxis(mn);
      p = g;
    } else p = std::make_shared<PointSource>(d, s);
    p->setSpectralTerms(f0, true, c.begin(), c.end());
    bool threw = false;
    try {
      info.inspect(p);
    } catch (std::runtime_error&) {
      threw = true;
    }
    sym_assert(threw == (n > 3), "more than three spectral terms is an error");
    if (threw) { sym_reach("terms"); return; }
    sym_assert(info.ra_ == d.ra && info.dec_ == d.dec, "position of the component");
    sym_assert(info.sI_ == s.I && info.sQ_ == s.Q && info.sU_ == s.U && info.sV_ == s.V, "flux of the component");
    sym_assert(info.spectrum_.size() == 3, "three spectral terms");
    for (int j = 0; j < 3; ++j) sym_assert(info.spectrum_[j] == (j < n ? c[j] : 0.0), "spectral terms of this component only");
    sym_assert(info.f0_ == f0, "reference frequency");
    sym_assert(info.source_type_ == (gauss ? ComponentInfo::kGaussian : ComponentInfo::kPoint), "kind of component");
    if (gauss) sym_assert(info.g_pa_ == pa && info.g_major_ == mj && info.g_minor_ == mn, "shape of the component");
  }
  sym_reach("inspect");
}
static void patch() {
  const int n = sym_param(1);
  std::vector<std::shared_ptr<ModelComponent>> cs;
  double x = 0, y = 0, z = 0;
  for (int i = 0; i < n; ++i) {
    const Direction d(sym_f64("ra"), sym_f64("dec"));
    if (i == 1) cs.push_back(std::make_shared<GaussianSource>(d));
    else cs.push_back(std::make_shared<PointSource>(d));
    x += std::cos(d.ra) * std::cos(d.dec);
    y += std::sin(d.ra) * std::cos(d.dec);
    z += std::sin(d.dec);
  }
  dp3::sky_model::Patch p("name", cs.begin(), cs.end());
  auto check = [&] {
    if (n == 0) {
      sym_assert(p.Direction().ra == 0 && p.Direction().dec == 0, "direction of an empty patch");
      return;
    }
    sym_assert(sym_or(closeTo(p.Direction().ra, std::atan2(y / n, x / n)), closeTo(p.Direction().ra, std::atan2(y, x))), "right ascension of the mean direction");
    sym_assert(closeTo(p.Direction().dec, std::asin(z / n)), "declination of the mean direction");
  };
  check();
  sym_assert(p.NComponents() == size_t(n) && p.Name() == "name" && p.Brightness() == 0 && p.Index() == 0, "patch");
  int i = 0;
  for (auto it = p.begin(); it != p.end(); ++it, ++i) sym_assert(*it == cs[i] && p.component(i) == cs[i], "components in order");
  sym_assert(i == n, "all components");
  const Direction d(sym_f64("ra"), sym_f64("dec"));
  p.SetDirection(d);
  sym_assert(p.Direction().ra == d.ra && p.Direction().dec == d.dec, "given direction");
  p.ComputeDirection();
  check();
  sym_reach("patch");
}
extern "C" void harness() {
  switch (sym_param(0)) {
    case 0: flux(); break;
    case 1: settings(); break;
    case 2: inspect(); break;
    case 3: patch(); break;
  }
}
