// C27: phase model fits. GSL routines are stand-ins that check their arguments and return arbitrary results.
#include <algorithm>
#include <cmath>
#include <limits>
#include <new>
#include <gsl/gsl_multifit.h>
#include <gsl/gsl_multimin.h>
#include "util.h"
#include "base/PhaseFitter.h"
#include "ddecal/constraints/TecOffsetDelayFitting.h"
typedef std::vector<double> D;
static D X, Y, W;       // the problem; Y is the data of the fit being made
static bool anyY;       // Y is not prescribed
static int P;           // number of parameters
static int calls, status_of;
static D coef[64];      // the solution returned by call i
static D seenY[64];
static bool ok[64];
static int live = 0;    // gsl objects alive
static bool solveMode;  // grid search: only chosen calls succeed
static int good1, good2;
static double spread = 10;
extern "C" {
gsl_matrix* gsl_matrix_alloc(const size_t a, const size_t b) { gsl_matrix* m = new gsl_matrix(); m->size1 = a; m->size2 = b; m->tda = b; m->data = new double[a * b]; ++live; return m; }
gsl_vector* gsl_vector_alloc(const size_t a) { gsl_vector* m = new gsl_vector(); m->size = a; m->stride = 1; m->data = new double[a]; ++live; return m; }
void gsl_matrix_free(gsl_matrix* m) { if (m) { delete[] m->data; delete m; --live; } }
void gsl_vector_free(gsl_vector* m) { if (m) { delete[] m->data; delete m; --live; } }
gsl_multifit_linear_workspace* gsl_multifit_linear_alloc(const size_t n, const size_t p) { gsl_multifit_linear_workspace* w = new gsl_multifit_linear_workspace(); w->nmax = n; w->pmax = p; ++live; return w; }
void gsl_multifit_linear_free(gsl_multifit_linear_workspace* w) { if (w) { delete w; --live; } }
void gsl_matrix_set(gsl_matrix* m, const size_t i, const size_t j, const double x) { sym_assert(i < m->size1 && j < m->size2, "matrix index"); m->data[i * m->tda + j] = x; }
void gsl_vector_set(gsl_vector* m, const size_t i, double x) { sym_assert(i < m->size, "vector index"); m->data[i] = x; }
double gsl_vector_get(const gsl_vector* m, const size_t i) { sym_assert(i < m->size, "vector index"); return m->data[i]; }
int gsl_multifit_wlinear(const gsl_matrix* x, const gsl_vector* w, const gsl_vector* y, gsl_vector* c, gsl_matrix* cov, double* chisq, gsl_multifit_linear_workspace* work) {
  const size_t n = X.size();
  sym_assert(x->size1 == n && x->size2 == size_t(P) && w->size == n && y->size == n && c->size == size_t(P) && cov->size1 == size_t(P) && cov->size2 == size_t(P) && work->nmax >= n && work->pmax >= size_t(P), "sizes of the linear problem");
  for (size_t i = 0; i < n; ++i) {
    sym_close(x->data[i * x->tda] * X[i], 1.0, "coefficient of the 1/x term");
    if (P == 3) sym_close(x->data[i * x->tda + 1], 1.0, "coefficient of the constant term");
    sym_close(x->data[i * x->tda + P - 1], X[i], "coefficient of the linear term");
    sym_close(w->data[i], W[i], "weight");
    if (!anyY) sym_close(y->data[i], Y[i], "data");
  }
  const int k = calls++;
  if (k >= 64) { sym_fail("number of fits"); return 1; }
  seenY[k].assign(y->data, y->data + n);
  if (solveMode) {
    ok[k] = k == good1 || k == good2;
    if (ok[k]) {
      for (int j = 0; j < P; ++j) coef[k].push_back(sym_f64("coefficient"));
      for (int j = 0; j < P; ++j) sym_assume(sym_and(coef[k][j] >= -spread, coef[k][j] <= spread));
    }
  } else {
    ok[k] = status_of == 0;
    for (int j = 0; j < P; ++j) coef[k].push_back(sym_f64("coefficient"));
  }
  if (!ok[k]) return GSL_EFAILED;
  for (int j = 0; j < P; ++j) c->data[j] = coef[k][j];
  *chisq = 0;
  return GSL_SUCCESS;
}
// minimiser
static D result;
static int iters, stopAt, stopKind;
const gsl_multimin_fdfminimizer_type* gsl_multimin_fdfminimizer_vector_bfgs2;
gsl_multimin_fdfminimizer* gsl_multimin_fdfminimizer_alloc(const gsl_multimin_fdfminimizer_type*, size_t n) {
  gsl_multimin_fdfminimizer* m = new gsl_multimin_fdfminimizer();
  m->x = gsl_vector_alloc(n);
  m->gradient = gsl_vector_alloc(n);
  ++live;
  return m;
}
void gsl_multimin_fdfminimizer_free(gsl_multimin_fdfminimizer* m) { if (m) { gsl_vector_free(m->x); gsl_vector_free(m->gradient); delete m; --live; } }
int gsl_multimin_fdfminimizer_set(gsl_multimin_fdfminimizer* s, gsl_multimin_function_fdf* f, const gsl_vector* x, double step, double tol) {
  sym_assert(f->n == size_t(P) && x->size == size_t(P) && s->x->size == size_t(P), "dimensions of the minimisation");
  sym_assert(step > 0 && tol > 0, "step size and tolerance");
  for (int j = 0; j < P; ++j) sym_close(x->data[j], coef[calls - 1][j], "the minimisation starts at the linear solution");
  // the functions minimised
  gsl_vector *v = gsl_vector_alloc(P), *g = gsl_vector_alloc(P), *g2 = gsl_vector_alloc(P);
  D p;
  for (int j = 0; j < P; ++j) p.push_back(v->data[j] = sym_f64("point"));
  double cost = 0, da = 0, db = 0, dc = 0;
  for (size_t i = 0; i < X.size(); ++i) {
    const double r = Y[i] - (p[0] / X[i] + (P == 3 ? p[1] : 0.0) + p[P - 1] * X[i]);
    cost += 1.0 - std::cos(r) * W[i];
    da -= std::sin(r) * W[i] / X[i];
    db -= std::sin(r) * W[i];
    dc -= std::sin(r) * W[i] * X[i];
  }
  sym_close(f->f(v, f->params), cost, "cost function");
  f->df(v, f->params, g);
  double f2 = 0;
  f->fdf(v, f->params, &f2, g2);
  sym_close(f2, cost, "cost function");
  for (gsl_vector* q : {g, g2}) {
    sym_close(q->data[0], da, "derivative to a");
    if (P == 3) sym_close(q->data[1], db, "derivative to b");
    sym_close(q->data[P - 1], dc, "derivative to c");
  }
  gsl_vector_free(v); gsl_vector_free(g); gsl_vector_free(g2);
  for (int j = 0; j < P; ++j) s->x->data[j] = x->data[j];
  return 0;
}
int gsl_multimin_fdfminimizer_iterate(gsl_multimin_fdfminimizer* s) {
  ++iters;
  sym_assert(iters <= 200, "number of iterations is limited");
  for (int j = 0; j < P; ++j) s->gradient->data[j] = 0;
  if (iters == std::min(stopAt, 200)) for (int j = 0; j < P; ++j) s->x->data[j] = result[j];
  return iters == stopAt && stopKind == 0 ? GSL_ENOPROG : 0;
}
int gsl_multimin_test_gradient(const gsl_vector* g, double eps) {
  sym_assert(eps > 0 && g->size == size_t(P), "convergence test");
  return iters == stopAt && stopKind == 1 ? GSL_SUCCESS : GSL_CONTINUE;
}
}
static void problem(int n, bool symbolic) {
  for (int i = 0; i < n; ++i) {
    X.push_back(1.0 + 0.5 * i);
    Y.push_back(symbolic ? sym_f64("y") : 1.5 - 0.75 * ((i * 5) % 4));
    W.push_back(symbolic ? sym_f64("w") : 1.0 + 0.5 * (i % 2));
  }
}
static double wrapped(double d) {  // distance to the nearest multiple of 2 pi (constants only)
  const double k = std::floor(d / (2 * M_PI) + 0.5);
  return d - k * 2 * M_PI;
}
static double dist(double x) {  // distance of x to the nearest multiple of 2 pi
  double r = std::abs(std::fmod(x, 2 * M_PI));
  return r > M_PI ? 2 * M_PI - r : r;
}
static void linear() {
  problem(sym_param(1), true);
  P = sym_param(2);
  status_of = sym_choose(0, 1, "status");
  const auto r = P == 3 ? LinearTecOffsetDelaySolve(X, Y, W) : LinearTecDelaySolve(X, Y, W);
  sym_assert(calls == 1, "one linear fit");
  sym_assert(r.has_value() == (status_of == 0), "a failed fit is reported");
  if (r) {
    sym_close(r->a, coef[0][0], "a");
    sym_close(r->b, P == 3 ? coef[0][1] : 0.0, "b");
    sym_close(r->c, coef[0][P - 1], "c");
  }
  sym_assert(live == 0, "all memory is released");
  sym_reach("linear");
}
static void gradient() {
  problem(sym_param(1), true);
  P = 3;
  stopAt = sym_param(2);
  stopKind = sym_param(3);
  status_of = sym_choose(0, 1, "status");
  for (int j = 0; j < P; ++j) result.push_back(sym_f64("result"));
  const auto r = GradientTecOffsetDelaySolve(X, Y, W);
  sym_assert(r.has_value() == (status_of == 0), "a failed fit is reported");
  if (r) {
    sym_close(r->a, result[0], "a");
    sym_close(r->b, result[1], "b");
    sym_close(r->c, result[2], "c");
  }
  sym_assert(live == 0, "all memory is released");
  sym_reach("gradient");
}
static void search() {  // grid search
  const int n = sym_param(1);
  problem(n, false);
  P = sym_param(2);
  anyY = solveMode = true;
  good1 = sym_param(3);
  good2 = sym_param(4);
  const TecOffsetDelayValues f = TecOffsetDelayGridSearch(X, Y, W, P == 3, 1);
  sym_assert(live == 0, "all memory is released");
  const D v{f.a, f.b, f.c};
  double best = 0;
  for (int i = 0; i < n; ++i) best += 1.0 - std::cos(Y[i] - (f.a / X[i] + f.b + f.c * X[i])) * W[i];
  sym_close(TecOffsetDelayCost(X, Y, W, f), best, "cost of the result");
  int found = -1;
  double base[64][3];
  for (int k = 0; k < calls; ++k)
    for (int i = 0; i < n; ++i) sym_assert(seenY[k][i] >= -M_PI - 1e-9 && seenY[k][i] <= M_PI + 1e-9, "residuals are wrapped");
  // with both candidates known: the result is a candidate whose start explains its residuals
  for (int k : {good1, good2}) {
    if (k >= calls) continue;
    bool match = true;
    D s{f.a - coef[k][0], f.b - (P == 3 ? coef[k][1] : 0.0), f.c - coef[k][P - 1]};
    for (int j = 0; j < 3; ++j) {
      // a constant iff the result is this candidate
      base[k][j] = s[j];
    }
    for (int i = 0; i < n && match; ++i) {
      const double d = Y[i] - (s[0] / X[i] + s[1] + s[2] * X[i]) - seenY[k][i];
      match = dist(d) < 1e-6;
    }
    if (match) found = k;
  }
  (void)base;
  sym_assert(found >= 0, "the result is one of the fits, at the grid position the fit was made for");
  sym_reach("search");
}
static void choice() {  // the best of two fits of the grid, or of a grid fit and its refinement
  const int n = sym_param(1);
  problem(n, false);
  P = sym_param(2);
  anyY = solveMode = true;
  spread = 0.01;
  const int g1 = good1 = sym_param(3), g2 = good2 = sym_param(4);
  const TecOffsetDelayValues f = TecOffsetDelayGridSearch(X, Y, W, P == 3, 1);
  const D c1 = coef[g1], c2 = coef[g2];
  const int grid = 36;  // the number of fits that start at a grid position
  TecOffsetDelayValues cand{0, 0, 0};
  for (int k : {g1, g2}) {
    const D& c = k == g1 ? c1 : c2;
    if (k < grid) {  // where this fit starts shows when only it succeeds
      for (int i = 0; i < 64; ++i) { coef[i].clear(); seenY[i].clear(); }
      calls = 0;
      good1 = good2 = k;
      const TecOffsetDelayValues only = TecOffsetDelayGridSearch(X, Y, W, P == 3, 1);
      const D own = coef[k];
      cand = TecOffsetDelayValues{only.a - own[0] + c[0], P == 3 ? only.b - own[1] + c[1] : 0.0, only.c - own[P - 1] + c[P - 1]};
    } else {
      cand = TecOffsetDelayValues{cand.a + c[0], P == 3 ? cand.b + c[1] : 0.0, cand.c + c[P - 1]};
    }
    sym_assert(TecOffsetDelayCost(X, Y, W, f) <= TecOffsetDelayCost(X, Y, W, cand), "no fit has a lower cost than the result");
  }
  sym_reach("choice");
}
static void evaluate() {
  const int n = sym_param(1);
  TecOffsetDelayValues f{sym_f64("a"), sym_f64("b"), sym_f64("c")};
  for (double v : {f.a, f.b, f.c}) sym_assume(sym_and(v >= -1000, v <= 1000));
  D x, y(n, 99.0);
  for (int i = 0; i < n; ++i) x.push_back(1.0 + 0.25 * i);
  EvaluateLinearTecOffsetValues(f, x, y);
  for (int i = 0; i < n; ++i) {
    sym_assert(sym_and(y[i] >= -M_PI, y[i] < M_PI), "phases are wrapped to [-pi, pi)");
    const double d = std::fmod(f.a / x[i] + f.b + f.c * x[i] - y[i], 2 * M_PI);
    if (sym_is_symbolic()) sym_assert(d == 0, "phase differs from the model by whole turns");
    else sym_assert(std::abs(wrapped(d)) < 1e-6, "phase differs from the model by whole turns");
  }
  sym_reach("evaluate");
}
// ---- PhaseFitter
static void cost() {
  const int n = sym_param(1), beta = sym_param(2), wsel = sym_param(3);
  PhaseFitter f(n);
  D nu;
  for (int i = 0; i < n; ++i) nu.push_back(1 + i);
  f.Initialize(nu);
  sym_assert(f.Size() == size_t(n), "number of channels");
  const double a = sym_f64("alpha"), b = beta ? sym_f64("beta") : 0.0;
  sym_assume(sym_and(sym_and(a >= -20, a <= 20), sym_and(b >= -20, b <= 20)));
  double want = 0, ws = 0;
  for (int i = 0; i < n; ++i) {
    sym_assert(f.WeightData()[i] == 1.0, "weights are initially one");
    const double ph = sym_f64("phase");
    sym_assume(sym_and(ph >= -10, ph <= 10));
    f.PhaseData()[i] = ph;
    const double w = wsel == 0 ? 1.0 : wsel == 1 ? double((i + 1) % 2) * 3 : 0.0;
    f.WeightData()[i] = w;
    want += w * dist(ph - (a / nu[i] + b));
    ws += w;
  }
  const double c = beta ? f.TEC2ModelCost(a, b) : f.TEC1ModelCost(a);
  sym_close(c, ws == 0 ? 0.0 : want / ws, "cost is the weighted mean phase distance");
  sym_reach("cost");
}
static void fitted() {  // the fit, started from any previous parameter values
  const int two = sym_param(1), set = sym_param(2);
  const int n = 4;
  D nu;
  for (int i = 0; i < n; ++i) nu.push_back(120e6 + 10e6 * i);
  PhaseFitter f, g;
  f.Initialize(nu);
  g.Initialize(nu);
  D ph;
  for (int i = 0; i < n; ++i) {
    const double p = set == 0 ? 0.3 * i : set == 1 ? -2.0 + 1.1 * ((i * 3) % 4) : 3e8 / nu[i] + 0.2;
    ph.push_back(p);
    f.PhaseData()[i] = g.PhaseData()[i] = p;
    f.WeightData()[i] = g.WeightData()[i] = 1.0 + i % 2;
  }
  const int start = sym_param(3);  // the values passed in: any, or one of two extremes
  double a = 1.5, b = start == 1 ? 3.0 : std::numeric_limits<double>::quiet_NaN(), a2 = 0, b2 = 0;
  if (start == 0) {
    a = sym_f64("alpha0");
    b = sym_f64("beta0");
  }
  const double cf = two ? f.FitDataToTEC2Model(a, b) : f.FitDataToTEC1Model(a);
  const double cg = two ? g.FitDataToTEC2Model(a2, b2) : g.FitDataToTEC1Model(a2);
  if (!two) b = b2 = 0;
  sym_assert(std::abs(a - (a2)) < 1e-6, "the fit does not depend on the parameter values passed in");
  sym_assert(std::abs(b - (b2)) < 1e-6, "the fit does not depend on the parameter values passed in");
  sym_assert(std::abs(cf - (cg)) < 1e-6, "cost");
  double want = 0, ws = 0;
  for (int i = 0; i < n; ++i) {
    sym_assert(std::abs(dist(f.PhaseData()[i] - (a / nu[i] + b)) - (0.0)) < 1e-6, "the phases follow the fitted model");
    want += (1.0 + i % 2) * dist(ph[i] - (a / nu[i] + b));
    ws += 1.0 + i % 2;
  }
  sym_assert(std::abs(cf - (want / ws)) < 1e-6, "cost of the fit");
  if (set == 2) sym_assert(cf < 1e-3 || !two, "data that follow the model are fitted");
  sym_reach("fitted");
}
extern "C" void harness() {
  switch (sym_param(0)) {
    case 0: linear(); break;
    case 1: gradient(); break;
    case 2: search(); break;
    case 3: choice(); break;
    case 4: evaluate(); break;
    case 5: cost(); break;
    case 6: fitted(); break;
  }
}
