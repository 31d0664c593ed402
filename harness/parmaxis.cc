// C21/C22/C23: axes, boxes, grids and axis mappings of the parameter database (exact reals).
#include <algorithm>
#include <cmath>
#include "util.h"
#include "parmdb/Axis.h"
#include "parmdb/AxisMapping.h"
#include "parmdb/Box.h"
#include "parmdb/Grid.h"
using namespace dp3::parmdb;
typedef std::vector<double> V;
static double num(const char* nm, double lo, double hi) {
  const double v = sym_f64(nm);
  sym_assume(sym_and(v >= lo, v <= hi));
  return v;
}
// ascending disjoint cells; gaps is a bit mask of holes behind the cells
static void cells(int n, int gaps, V& lo, V& hi) {
  double p = num("start", -50, 50);
  for (int i = 0; i < n; ++i) {
    lo.push_back(p);
    p += num("width", 1, 10);
    hi.push_back(p);
    if (gaps >> i & 1) p += num("gap", 1, 10);
  }
}
static Axis::ShPtr ordered(const V& lo, const V& hi, bool centers) {
  if (!centers) return std::make_shared<OrderedAxis>(lo, hi, true);
  V c, w;
  for (size_t i = 0; i < lo.size(); ++i) { c.push_back((lo[i] + hi[i]) * 0.5); w.push_back(hi[i] - lo[i]); }
  return std::make_shared<OrderedAxis>(c, w, false);
}
// exactly on an edge, or clearly away from all edges
static double point(const V& lo, const V& hi, const char* nm) {
  const int n = lo.size(), k = sym_choose(-1, 2 * n - 1, nm);
  if (k >= 0) return k < n ? lo[k] : hi[k - n];
  const double x = num(nm, -200, 200);
  for (int i = 0; i < n; ++i) {
    sym_assume(sym_or(x <= lo[i] - 0.01, x >= lo[i] + 0.01));
    sym_assume(sym_or(x <= hi[i] - 0.01, x >= hi[i] + 0.01));
  }
  return x;
}
static void same(const Axis& a, const V& lo, const V& hi, const char* msg) {
  sym_assert(a.size() == lo.size(), msg);
  if (a.size() != lo.size()) return;
  for (size_t i = 0; i < lo.size(); ++i) {
    sym_close(a.lower(i), lo[i], msg);
    sym_close(a.upper(i), hi[i], msg);
    sym_close(a.center(i), (lo[i] + hi[i]) / 2, msg);
    sym_close(a.width(i), hi[i] - lo[i], msg);
  }
}
static void isDefault(const Axis& a) {
  sym_assert(a.size() == 1 && a.start() <= -1e29 && a.end() >= 1e29, "an empty subset is the default axis");
}
static void find() {
  const int n = sym_param(1), gaps = sym_param(2);
  V lo, hi;
  cells(n, gaps, lo, hi);
  const Axis::ShPtr ax = ordered(lo, hi, sym_param(3));
  same(*ax, lo, hi, "cells of the axis");
  const double x = point(lo, hi, "x");
  const bool right = sym_choose(0, 1, "right");
  const int hint = sym_choose(0, n, "hint");
  size_t want = n;
  bool in = false;
  for (int i = n - 1; i >= 0; --i)
    if (right ? x < hi[i] : x <= hi[i]) { want = i; in = right ? x >= lo[i] : x > lo[i]; }
  const auto r = ax->find(x, right, hint);
  sym_assert(r.first == want, "cell holding the value or the next higher cell");
  sym_assert(r.second == in, "whether the value lies in a cell");
  bool threw = false;
  size_t l = 0;
  try { l = ax->locate(x, right, hint); } catch (std::runtime_error&) { threw = true; }
  sym_assert(threw != in, "a value outside all cells is an error");
  if (in) sym_assert(l == want, "cell holding the value");
  sym_reach(in ? "inside" : "outside");
}
static void subset() {
  const int n = sym_param(1), gaps = sym_param(2);
  V lo, hi;
  cells(n, gaps, lo, hi);
  const bool regular = sym_param(3);
  Axis::ShPtr ax;
  if (regular) {
    const double w = hi[0] - lo[0];
    for (int i = 1; i < n; ++i) sym_assume(hi[i] - lo[i] == w);
    ax = std::make_shared<RegularAxis>(lo[0], w, n);
  } else ax = ordered(lo, hi, false);
  const double s = point(lo, hi, "s"), e = point(lo, hi, "e");
  sym_assume(s < e);
  V wl, wh;
  size_t first = 0;
  for (int i = 0; i < n; ++i)
    if (hi[i] > s && lo[i] < e) {
      if (wl.empty()) first = i;
      wl.push_back(lo[i]);
      wh.push_back(hi[i]);
    }
  size_t index = 99;
  const Axis::ShPtr r = ax->subset(s, e, index);
  if (wl.empty()) { isDefault(*r); sym_reach("none"); return; }
  same(*r, wl, wh, "the subset holds exactly the cells inside the range");
  sym_assert(index == first, "index of the first cell of the subset");
  same(*ax->subset(s, e), wl, wh, "the subset holds exactly the cells inside the range");
  sym_reach("subset");
}
static void combine() {
  // n consecutive cells; the two axes are cells [a0,a1) and [b0,b1), holes possible when they do not touch
  const int a0 = sym_param(1), a1 = sym_param(2), b0 = sym_param(3), b1 = sym_param(4), n = std::max(a1, b1);
  V lo, hi;
  cells(n, 0, lo, hi);
  auto part = [&](int s, int e) { return ordered(V(lo.begin() + s, lo.begin() + e), V(hi.begin() + s, hi.begin() + e), false); };
  const Axis::ShPtr A = part(a0, a1), B = part(b0, b1);
  const int s = std::min(a0, b0), e = std::max(a1, b1);
  V wl, wh;
  int off1, off2;
  if (a1 < b0 || b1 < a0) {  // a hole becomes one cell
    const int le = std::min(a1, b1), rs = std::max(a0, b0);
    for (int i = s; i < le; ++i) { wl.push_back(lo[i]); wh.push_back(hi[i]); }
    wl.push_back(hi[le - 1]); wh.push_back(lo[rs]);
    for (int i = rs; i < e; ++i) { wl.push_back(lo[i]); wh.push_back(hi[i]); }
    const int shift = rs - le - 1;
    off1 = a0 < b0 ? 0 : a0 - s - shift;
    off2 = b0 < a0 ? 0 : b0 - s - shift;
  } else {
    for (int i = s; i < e; ++i) { wl.push_back(lo[i]); wh.push_back(hi[i]); }
    off1 = a0 - s;
    off2 = b0 - s;
  }
  int s1 = -9, e1 = -9, s2 = -9, e2 = -9;
  const Axis::ShPtr C = A->combine(*B, s1, e1, s2, e2);
  same(*C, wl, wh, "the combined axis holds all cells of both");
  sym_assert(s1 == off1 && e1 == off1 + a1 - a0, "place of the first axis in the combined axis");
  sym_assert(s2 == off2 && e2 == off2 + b1 - b0, "place of the second axis in the combined axis");
  if (!(a1 < b0 || b1 < a0)) sym_assert(A->checkIntervals(*B), "matching axes have equal intervals");
  sym_reach("combined");
}
static void mismatch() {
  // overlapping axes with one different inner edge are refused
  V lo, hi;
  cells(3, 0, lo, hi);
  V lo2 = lo, hi2 = hi;
  const double d = num("d", 0.1, 0.4);
  hi2[0] += d;
  lo2[1] += d;
  bool threw = false;
  int a, b, c, e;
  try { ordered(lo, hi, false)->combine(*ordered(lo2, hi2, false), a, b, c, e); } catch (std::exception&) { threw = true; }
  sym_assert(threw, "mismatching intervals are refused");
  sym_assert(!ordered(lo, hi, false)->checkIntervals(*ordered(lo2, hi2, false)), "mismatching intervals are noticed");
  sym_reach("mismatch");
}
static void compress() {
  const int n = sym_param(1), f = sym_param(2);
  V lo, hi;
  cells(n, 0, lo, hi);
  const bool regular = sym_param(3);
  Axis::ShPtr ax;
  if (regular) {
    const double w = hi[0] - lo[0];
    for (int i = 1; i < n; ++i) sym_assume(hi[i] - lo[i] == w);
    ax = sym_param(3) == 2 ? std::make_shared<RegularAxis>(lo[0], hi[n - 1], n, true) : std::make_shared<RegularAxis>(lo[0], w, n);
    same(*ax, lo, hi, "cells of a regular axis");
    sym_assert(ax->isRegular(), "regular");
  } else ax = ordered(lo, hi, false);
  V wl, wh;
  for (int i = 0; i < n; i += f) { wl.push_back(lo[i]); wh.push_back(hi[std::min(n, i + f) - 1]); }
  same(*ax->compress(f), wl, wh, "each compressed cell covers the given number of cells");
  same(*Axis::makeAxis(lo, hi), lo, hi, "axis of given cells");
  sym_assert(*ax == *ax->clone(), "a copy is equal");
  sym_reach("compressed");
}
static void boxes() {
  double v[2][4];  // x0,x1,y0,y1
  for (auto& b : v) {
    b[0] = num("x", -50, 50); b[1] = num("x", -50, 50);
    b[2] = num("y", -50, 50); b[3] = num("y", -50, 50);
    sym_assume(sym_and(b[1] >= b[0] + 0.01, b[3] >= b[2] + 0.01));
  }
  auto sep = [](double a, double b) { sym_assume(sym_or(a == b, sym_or(a <= b - 0.01, a >= b + 0.01))); };
  for (int d = 0; d < 4; d += 2)
    for (int i = 0; i < 2; ++i)
      for (int j = 0; j < 2; ++j) sep(v[0][d + i], v[1][d + j]);
  const Box A(Point(v[0][0], v[0][2]), Point(v[0][1], v[0][3])), B(Point(v[1][0], v[1][2]), Point(v[1][1], v[1][3]));
  const bool hit = sym_and(sym_and(v[0][0] < v[1][1], v[1][0] < v[0][1]), sym_and(v[0][2] < v[1][3], v[1][2] < v[0][3]));
  sym_assert(A.intersects(B) == hit, "two boxes intersect if their insides overlap");
  sym_assert(B.intersects(A) == hit, "intersection is symmetric");
  const bool in = sym_and(sym_and(v[0][0] <= v[1][0], v[0][1] >= v[1][1]), sym_and(v[0][2] <= v[1][2], v[0][3] >= v[1][3]));
  sym_assert(A.contains(B) == in, "a box contains another");
  const Box U = A | B, I = A & B;
  sym_close(U.lowerX(), std::min(v[0][0], v[1][0]), "bounding box");
  sym_close(U.upperX(), std::max(v[0][1], v[1][1]), "bounding box");
  sym_close(U.lowerY(), std::min(v[0][2], v[1][2]), "bounding box");
  sym_close(U.upperY(), std::max(v[0][3], v[1][3]), "bounding box");
  sym_assert(I.empty() == !hit, "the intersection of disjoint boxes is empty");
  if (hit) {
    sym_close(I.lowerX(), std::max(v[0][0], v[1][0]), "intersection");
    sym_close(I.upperX(), std::min(v[0][1], v[1][1]), "intersection");
    sym_close(I.lowerY(), std::max(v[0][2], v[1][2]), "intersection");
    sym_close(I.upperY(), std::min(v[0][3], v[1][3]), "intersection");
  }
  const bool less = sym_or(v[0][2] < v[1][2], sym_and(v[0][2] == v[1][2], v[0][0] < v[1][0]));
  sym_assert((A < B) == less && (B > A) == less, "boxes are ordered on start y, start x");
  const Box W((v[0][0] + v[0][1]) / 2, v[0][1] - v[0][0], (v[0][2] + v[0][3]) / 2, v[0][3] - v[0][2]);
  sym_close(W.lowerX(), v[0][0], "box from centre and width");
  sym_close(W.upperX(), v[0][1], "box from centre and width");
  sym_close(W.lowerY(), v[0][2], "box from centre and width");
  sym_close(W.upperY(), v[0][3], "box from centre and width");
  sym_reach("boxes");
}
static void grid() {
  const int nx = sym_param(1), ny = sym_param(2), gx = sym_param(3), gy = sym_param(4), perm = sym_param(5);
  V xl, xh, yl, yh;
  cells(nx, gx, xl, xh);
  cells(ny, gy, yl, yh);
  std::vector<Box> bx;
  for (int j = 0; j < ny; ++j)
    for (int i = 0; i < nx; ++i) bx.emplace_back(Point(xl[i], yl[j]), Point(xh[i], yh[j]));
  const std::vector<Box> sorted = bx;
  if (perm == 1) std::reverse(bx.begin(), bx.end());
  if (perm == 2) std::rotate(bx.begin(), bx.begin() + bx.size() / 2, bx.end());
  if (perm == 3 && bx.size() > 1) std::swap(bx[0], bx[sym_choose(1, int(bx.size()) - 1, "swap")]);
  const Grid g(bx, perm != 0);
  sym_assert(g.nx() == size_t(nx) && g.ny() == size_t(ny) && g.size() == size_t(nx * ny), "grid shape");
  if (g.nx() != size_t(nx) || g.ny() != size_t(ny)) return;
  same(*g[0], xl, xh, "x axis of the grid");
  same(*g[1], yl, yh, "y axis of the grid");
  std::vector<Box> out(1, sorted[0]);
  g.toDomains(out);
  sym_assert(out.size() == size_t(nx * ny + 1), "one domain per cell");
  for (int id = 0; id < nx * ny; ++id) {
    const Grid::Location l = g.getCellLocation(id);
    sym_assert(l.first == size_t(id % nx) && l.second == size_t(id / nx) && g.getCellId(l) == unsigned(id), "cell numbers");
    const Box c = g.getCell(id);
    for (const Box& b : {c, out[id + 1]}) {
      sym_close(b.lowerX(), sorted[id].lowerX(), "cell of the grid");
      sym_close(b.upperX(), sorted[id].upperX(), "cell of the grid");
      sym_close(b.lowerY(), sorted[id].lowerY(), "cell of the grid");
      sym_close(b.upperY(), sorted[id].upperY(), "cell of the grid");
    }
    const Grid::Location f = g.locate(g.getCellCenter(l));
    sym_assert(f == l, "the cell holding its centre");
  }
  const Box bb = g.getBoundingBox();
  sym_close(bb.lowerX(), xl[0], "bounding box of the grid");
  sym_close(bb.upperY(), yh[ny - 1], "bounding box of the grid");
  sym_reach("grid");
}
static void gridOfGrids() {
  // grids side by side (each with nx,ny cells) combine into one grid
  const int kx = sym_param(1), ky = sym_param(2), nx = sym_param(3), ny = sym_param(4);
  V xl, xh, yl, yh;
  cells(kx * nx, 0, xl, xh);
  cells(ky * ny, 0, yl, yh);
  std::vector<Grid> gs;
  for (int j = 0; j < ky; ++j)
    for (int i = 0; i < kx; ++i) {
      auto part = [](const V& a, const V& b, int s, int n) { return ordered(V(a.begin() + s, a.begin() + s + n), V(b.begin() + s, b.begin() + s + n), false); };
      gs.emplace_back(part(xl, xh, i * nx, nx), part(yl, yh, j * ny, ny));
    }
  if (sym_param(5)) std::reverse(gs.begin(), gs.end());
  const Grid g(gs, sym_param(5));
  same(*g[0], xl, xh, "x axis of the combined grid");
  same(*g[1], yl, yh, "y axis of the combined grid");
  const Grid::Location s(0, ky * ny > 1 ? 1 : 0), e(kx * nx - 1, ky * ny - 1);
  const Grid sub = g.subset(s, e);
  same(*sub[0], xl, xh, "subset of a grid");
  same(*sub[1], V(yl.begin() + s.second, yl.end()), V(yh.begin() + s.second, yh.end()), "subset of a grid");
  Grid::Location ix;
  const Grid sub2 = g.subset(Box(Point(xl[0], yl[s.second]), Point(xh.back(), yh.back())), ix);
  same(*sub2[1], V(yl.begin() + s.second, yl.end()), V(yh.begin() + s.second, yh.end()), "subset of a grid");
  sym_assert(ix == s, "index of the subset");
  sym_assert(g.checkIntervals(sub), "intervals of a subset match");
  sym_reach("grids");
}
static void mapping() {
  const int nf = sym_param(1), nt = sym_param(2);
  V fl, fh, tl, th;
  cells(nf, 0, fl, fh);
  cells(nt, 0, tl, th);
  for (int i = 0; i < nf; ++i)
    for (int j = 0; j < nt; ++j) {
      const double c = (fl[i] + fh[i]) / 2;
      sym_assume(sym_and(sym_or(c <= tl[j] - 0.01, c >= tl[j] + 0.01), sym_or(c <= th[j] - 0.01, c >= th[j] + 0.01)));
    }
  const Axis::ShPtr F = ordered(fl, fh, false), T = ordered(tl, th, false);
  const AxisMapping m(*F, *T);
  sym_assert(m.size() == size_t(nf), "one entry per cell");
  std::vector<int> want, border;
  for (int i = 0; i < nf; ++i) {
    const double c = (fl[i] + fh[i]) / 2;
    int k = nt - 1;
    for (int j = nt - 1; j >= 0; --j) if (c < th[j]) k = j;
    sym_assert(m[i] == k, "cell holding the centre, or the nearest cell outside the axis");
    sym_close(m.getScaledCenters()[i] * (th[k] - tl[k]), c - tl[k], "centre scaled to the cell");
    if (!want.empty() && want.back() != k) border.push_back(i);
    want.push_back(k);
  }
  border.push_back(nf);
  sym_assert(m.getBorders() == border, "borders between different target cells");
  AxisMappingCache cache;
  const AxisMapping& c1 = cache.get(*F, *T);
  sym_assert(&c1 == &cache.get(*F, *T) && cache.size() == 1, "a mapping is cached");
  for (int i = 0; i < nf; ++i) sym_assert(c1[i] == want[i], "cached mapping");
  cache.get(*T, *F);
  sym_assert(cache.size() == 2, "the opposite mapping differs");
  const Grid gf(F, T), gt(T, T);
  for (int i = 0; i < nf; ++i) {
    sym_assert(GridMapping::findLocation(cache, Grid::Location(i, nt - 1), gf, gt) == Grid::Location(want[i], nt - 1), "location in another grid");
    sym_assert(GridMapping::findcellId(cache, unsigned(i), gf, gt) == unsigned(want[i]), "cell in another grid");
  }
  sym_reach("mapping");
}
extern "C" void harness() {
  switch (sym_param(0)) {
    case 0: find(); break;
    case 1: subset(); break;
    case 2: combine(); break;
    case 3: mismatch(); break;
    case 4: compress(); break;
    case 5: boxes(); break;
    case 6: grid(); break;
    case 7: gridOfGrids(); break;
    case 8: mapping(); break;
  }
}
