// C28: the description of the data (times, channels, antennas, baselines) after selecting and averaging.
#include <cmath>
#include "util.h"
#include "base/DPInfo.h"
using dp3::base::DPInfo;
typedef std::vector<double> D;
typedef std::vector<int> I;
static D symv(const char* n, size_t k) { D v; for (size_t i = 0; i < k; ++i) v.push_back(sym_f64(n)); return v; }
static void same(const D& a, const D& b, const char* m) {
  sym_assert(a.size() == b.size(), m);
  for (size_t i = 0; i < a.size() && i < b.size(); ++i) sym_close(a[i], b[i], m);
}
static void times() {
  const int k = sym_param(1);
  DPInfo info(4, 8);
  static const double intervals[] = {-2.0, 0.0, 1.0, 2.5, 0.125};
  const double first = sym_f64("first"), iv = intervals[sym_param(2)], jit = sym_f64("jitter");
  const double last = first + k * iv + jit;
  sym_assume(sym_and(first >= -1e10, first <= 1e10));
  if (iv > 0) sym_assume(sym_and(jit > -0.45 * iv, jit < 0.45 * iv)); else sym_assume(sym_and(jit >= -1, jit <= 1));
  bool threw = false;
  try { info.setTimes(first, last, iv); } catch (std::exception&) { threw = true; }
  sym_assert(threw == sym_or(last < first, iv <= 0), "invalid times are refused");
  if (threw) {
    sym_assert(info.ntime() == 1 && info.firstTime() == 0 && info.timeInterval() == 1, "a refused setting changes nothing");
    sym_reach("badtimes");
    return;
  }
  sym_assert(info.ntime() == unsigned(k + 1), "number of time slots");
  sym_close(info.firstTime(), first, "first time");
  sym_close(info.lastTime(), last, "last time");
  sym_close(info.timeInterval(), iv, "interval");
  sym_close(info.startTime(), first - 0.5 * iv, "start time");
  sym_reach("times");
}
struct Chan { D f, w, r, e; };
static Chan mk(int n) { return Chan{symv("freq", n), symv("width", n), symv("resolution", n), symv("bandwidth", n)}; }
static void apply(DPInfo& info, const Chan& c, double ref, int spw) { info.setChannels(D(c.f), D(c.w), D(c.r), D(c.e), ref, spw); }
static double total(const D& v) { double s = 0; for (double x : v) s += x; return s; }
static void check(const DPInfo& info, const Chan& c) {
  sym_assert(info.nchan() == c.f.size(), "number of channels");
  same(info.chanFreqs(), c.f, "channel frequencies");
  same(info.chanWidths(), c.w, "channel widths");
  same(info.resolutions(), c.r, "channel resolutions");
  same(info.effectiveBW(), c.e, "effective bandwidths");
  sym_close(info.totalBW(), total(c.e), "total bandwidth is that of the channels");
}
static void channels() {
  const int n = sym_param(1), nw = sym_param(2), nr = sym_param(3), ne = sym_param(4);
  DPInfo info(4, 8);
  Chan old = mk(2);
  apply(info, old, 5.0, 1);
  const D f = symv("freq", n), w = symv("width", nw), r = symv("resolution", nr), e = symv("bandwidth", ne);
  const double ref = sym_f64("reference");
  bool threw = false;
  try { info.setChannels(D(f), D(w), D(r), D(e), ref, 3); } catch (std::invalid_argument&) { threw = true; }
  const bool bad = nw != n || (nr && nr != n) || (ne && ne != n);
  sym_assert(threw == bad, "inconsistent channel lists are refused");
  if (threw) { check(info, old); sym_close(info.refFreq(), 5.0, "reference frequency"); sym_assert(info.spectralWindow() == 1, "spectral window"); sym_reach("badchannels"); return; }
  check(info, Chan{f, w, nr ? r : w, ne ? e : w});
  sym_close(info.refFreq(), ref != 0 ? ref : 0.5 * (f[(n - 1) / 2] + f[n / 2]), "reference frequency");
  sym_assert(info.spectralWindow() == 3, "spectral window");
  sym_reach("channels");
}
// sequences of channel selections and averagings
static void sequence() {
  int nchan = sym_param(1), ntime = sym_param(2);
  const int steps = sym_param(3);
  Chan c = mk(nchan);
  DPInfo info(4, nchan);
  const double iv0 = 2.5, first0 = sym_f64("first");
  sym_assume(sym_and(first0 >= -1e6, first0 <= 1e6));
  info.setTimes(first0, first0 + (ntime - 1) * iv0, iv0);
  apply(info, c, 7.0, 0);
  int start = 0, cfac = 1, tfac = 1;
  double iv = iv0, first = first0;
  for (int s = 0; s < steps; ++s) {
    if (sym_choose(0, 1, "operation")) {
      const int ca = sym_concretize(sym_choose(1, nchan + 1, "channel factor")), ta = sym_concretize(sym_choose(1, ntime + 1, "time factor"));
      const int eca = std::min(ca, nchan), eta = std::min(ta, ntime);
      bool threw = false;
      unsigned got = 0;
      try { got = info.update(ca, ta); } catch (std::exception&) { threw = true; }
      sym_assert(threw == (nchan % eca != 0), "channels that do not divide evenly are refused");
      if (threw) { sym_reach("badaverage"); return; }
      sym_assert(got == unsigned(eca), "channel factor used");
      Chan n;
      for (int i = 0; i < nchan / eca; ++i) {
        n.f.push_back(0.5 * (c.f[i * eca] + c.f[(i + 1) * eca - 1]));
        n.w.push_back(0); n.r.push_back(0); n.e.push_back(0);
        for (int j = 0; j < eca; ++j) { n.w[i] += c.w[i * eca + j]; n.r[i] += c.r[i * eca + j]; n.e[i] += c.e[i * eca + j]; }
      }
      c = n;
      nchan /= eca;
      cfac *= eca;
      tfac *= eta;
      first = first + 0.5 * (eta - 1) * iv;
      iv = iv * eta;
      ntime = (ntime + eta - 1) / eta;
      sym_reach("average");
    } else {
      const int st = sym_concretize(sym_choose(0, nchan, "start channel")), nc = sym_concretize(sym_choose(1, nchan + 1, "number of channels"));
      bool threw = false;
      try { info.SelectChannels(st, nc); } catch (std::exception&) { threw = true; }
      sym_assert(threw == (st + nc > nchan), "a range outside the channels is refused");
      if (threw) { check(info, c); sym_reach("badselect"); return; }
      auto cut = [&](D& v) { v = D(v.begin() + st, v.begin() + st + nc); };
      cut(c.f); cut(c.w); cut(c.r); cut(c.e);
      start += st;
      nchan = nc;
      sym_reach("select");
    }
    check(info, c);
    sym_assert(info.startchan() == unsigned(start), "first channel");
    sym_assert(info.nchanAvg() == unsigned(cfac), "accumulated channel factor");
    sym_assert(info.ntimeAvg() == unsigned(tfac), "accumulated time factor");
    sym_assert(info.ntime() == unsigned(ntime), "number of time slots");
    sym_close(info.timeInterval(), iv, "interval");
    sym_close(info.firstTime(), first, "first time");
    sym_close(info.lastTime(), first + (ntime - 1) * iv, "last time");
    sym_close(info.startTime(), first0 - 0.5 * iv0, "start time is unchanged");
    sym_close(info.refFreq(), 7.0, "reference frequency");
  }
  sym_assert(info.ncorr() == 4, "number of correlations");
}
// antennas and baselines
static const double X[5] = {0, 3, 3, 15, -5}, Y[5] = {0, 0, 4, 9, 12}, Z[5] = {0, 0, 0, 0, 7};
struct Ants { std::vector<std::string> names; D diam; std::vector<casacore::MPosition> pos; I id; };
static Ants ants(int from, int n) {
  Ants a;
  for (int i = from; i < from + n; ++i) {
    a.names.push_back(std::string(1, char('A' + i)));
    a.diam.push_back(70 + i);
    a.pos.push_back(casacore::MPosition(casacore::MVPosition(X[i], Y[i], Z[i]), casacore::MPosition::ITRF));
    a.id.push_back(i);
  }
  return a;
}
// id: for each antenna of info the identity of the antenna; b1, b2: identities of the baselines
static void checkBaselines(const DPInfo& info, const I& id, const I& b1, const I& b2) {
  sym_assert(info.nantenna() == id.size(), "number of antennas");
  sym_assert(info.nbaselines() == b1.size(), "number of baselines");
  for (size_t i = 0; i < id.size(); ++i) {
    sym_assert(info.antennaNames()[i] == std::string(1, char('A' + id[i])), "antenna name");
    sym_assert(info.antennaDiam()[i] == 70 + id[i], "antenna diameter");
    sym_assert(info.antennaPos()[i].getValue()(0) == X[id[i]] && info.antennaPos()[i].getValue()(1) == Y[id[i]] && info.antennaPos()[i].getValue()(2) == Z[id[i]], "antenna position");
  }
  const D& len = info.getBaselineLengths();
  sym_assert(len.size() == b1.size(), "a length for every baseline");
  std::vector<bool> used(id.size(), false);
  I autos(5, -1);
  for (size_t b = 0; b < b1.size(); ++b) {
    const int i = info.getAnt1()[b], j = info.getAnt2()[b];
    sym_assert(i >= 0 && j >= 0 && i < int(id.size()) && j < int(id.size()), "baseline refers to antennas");
    sym_assert(id[i] == b1[b] && id[j] == b2[b], "baseline refers to the same antennas");
    used[i] = used[j] = true;
    const double dx = X[b1[b]] - X[b2[b]], dy = Y[b1[b]] - Y[b2[b]], dz = Z[b1[b]] - Z[b2[b]];
    sym_assert(std::abs(len[b] * len[b] - (dx * dx + dy * dy + dz * dz)) < 1e-6, "baseline length");
    if (i == j) autos[i] = b;
  }
  int n = 0;
  std::vector<std::string> names;
  for (size_t i = 0; i < id.size(); ++i) {
    sym_assert(info.antennaMap()[i] == (used[i] ? n : -1), "index of an antenna in the used antennas");
    if (used[i]) {
      sym_assert(info.antennaUsed()[n] == int(i), "used antenna");
      names.push_back(info.antennaNames()[i]);
      ++n;
    }
  }
  sym_assert(info.antennaUsed().size() == size_t(n) && info.antennaMap().size() == id.size(), "number of used antennas");
  sym_assert(info.GetUsedAntennaNames() == names, "names of used antennas");
  if (b1.empty()) return;
  const I& ac = info.getAutoCorrIndex();
  for (size_t i = 0; i < id.size(); ++i) sym_assert((i < ac.size() ? ac[i] : -1) == autos[i], "index of the autocorrelation");
}
static void baselines() {
  const int n = sym_param(1), nb = sym_param(2), last = sym_param(3);
  DPInfo info(4, 8);
  const Ants a = ants(0, n);
  I b1, b2;
  for (int b = 0; b < nb; ++b) {
    b1.push_back(sym_concretize(sym_choose(0, n - 1, "antenna1")));
    b2.push_back(sym_concretize(sym_choose(0, n - 1, "antenna2")));
    for (int c = 0; c < b; ++c) if (b1[b] == b1[c] && b2[b] == b2[c]) return;  // every baseline once
  }
  info.setAntennas(a.names, a.diam, a.pos, b1, b2);
  checkBaselines(info, a.id, b1, b2);
  sym_assert(!info.metaChanged(), "meta data are unchanged");
  I id = a.id;
  if (last == 0) {
    std::vector<unsigned> sel;
    I c1, c2;
    for (int b = 0; b < nb; ++b) if (sym_choose(0, 1, "select")) { sel.push_back(b); c1.push_back(b1[b]); c2.push_back(b2[b]); }
    info.SelectBaselines(sel);
    checkBaselines(info, id, c1, c2);
    sym_reach("selectbaselines");
    info.RemoveUnusedAntennas();
    I nid;
    for (int i : id) { bool u = false; for (size_t b = 0; b < c1.size(); ++b) u = u || c1[b] == i || c2[b] == i; if (u) nid.push_back(i); }
    sym_assert(info.metaChanged() == (nid.size() < id.size()), "removing antennas changes the meta data");
    checkBaselines(info, nid, c1, c2);
    sym_reach("removeantennas");
  } else {  // antennas are set again, e.g. because a station is added
    const Ants e = ants(0, n + 1);
    I c1 = b1, c2 = b2;
    c1.push_back(sym_concretize(sym_choose(0, n, "antenna1")));
    c2.push_back(n);
    info.setAntennas(e.names, e.diam, e.pos, c1, c2);
    checkBaselines(info, e.id, c1, c2);
    sym_reach("setagain");
  }
}
static void badAntennas() {
  DPInfo info(4, 8);
  Ants a = ants(0, 3);
  I b1{0, 1}, b2{1, 2};
  info.setAntennas(a.names, a.diam, a.pos, b1, b2);
  const int what = sym_choose(0, 3, "what");
  Ants e = ants(0, 3);
  I c1{0}, c2{2};
  bool bad = true;
  if (what == 0) e.diam.pop_back();
  else if (what == 1) e.pos.push_back(e.pos[0]);
  else if (what == 2) c2.push_back(1);
  else { c2[0] = sym_concretize(sym_choose(0, 4, "antenna2")); bad = c2[0] >= 3; }
  bool threw = false;
  try { info.setAntennas(e.names, e.diam, e.pos, c1, c2); } catch (std::exception&) { threw = true; }
  sym_assert(threw == bad, "inconsistent antennas are refused");
  if (threw && what < 3) checkBaselines(info, a.id, b1, b2);
  sym_reach("badantennas");
}
static void bda() {
  const int n0 = sym_param(1), n1 = sym_param(2), bad = sym_param(3);
  DPInfo info(4, 8);
  const Ants a = ants(0, 2);
  info.setAntennas(a.names, a.diam, a.pos, I{0, 0}, I{1, 0});
  const int n[2] = {n0, n1};
  std::vector<D> f, w, r, e;
  for (int b = 0; b < 2; ++b) { f.push_back(symv("freq", n[b])); w.push_back(symv("width", n[b])); r.push_back(symv("resolution", n[b])); e.push_back(symv("bandwidth", n[b])); }
  if (bad == 1) w[1].push_back(1);
  if (bad == 2) r[0].push_back(1);
  if (bad == 3) e[1].pop_back();
  if (bad == 4) f.pop_back();
  if (bad == 5) r.clear();
  if (bad == 6) e.clear();
  const D& e0 = bad == 6 ? w[0] : e[0];
  const D& e1 = bad == 6 ? w[1] : e[1];
  const double t0 = total(e0), t1 = total(e1), dt = t0 - t1, lim = 1e-6 * (t0 < 0 ? -t0 : t0);
  const bool eq = t0 == t1;
  sym_assume(sym_or(eq, sym_or(dt > lim, dt < -lim)));  // equal or clearly different
  bool threw = false;
  const double ref = sym_f64("reference");
  try { info.setChannels(std::vector<D>(f), std::vector<D>(w), std::vector<D>(r), std::vector<D>(e), ref, 2); } catch (std::exception&) { threw = true; }
  sym_assert(threw == sym_or(bad >= 1 && bad <= 4, !eq), "inconsistent channel lists or bandwidths are refused");
  if (threw) { sym_reach("badbda"); return; }
  const int m = n0 >= n1 ? 0 : 1;  // the baseline with most channels
  sym_assert(info.nchan() == unsigned(n[m]), "number of channels");
  sym_assert(info.hasBDAChannels(), "channels per baseline");
  for (int b = 0; b < 2; ++b) {
    same(info.chanFreqs(b), f[b], "channel frequencies");
    same(info.chanWidths(b), w[b], "channel widths");
    same(info.resolutions(b), bad == 5 ? w[b] : r[b], "channel resolutions");
    same(info.effectiveBW(b), bad == 6 ? w[b] : e[b], "effective bandwidths");
  }
  sym_close(info.totalBW(), total(e0), "total bandwidth");
  if (n0 != n1) sym_close(info.refFreq(), ref != 0 ? ref : 0.5 * (f[m][(n[m] - 1) / 2] + f[m][n[m] / 2]), "reference frequency");
  sym_assert(info.spectralWindow() == 2, "spectral window");
  bool refused = false;
  try { info.SelectChannels(0, 1); } catch (std::exception&) { refused = true; }
  sym_assert(refused || n[m] == 1, "selecting channels of baseline-dependent data is refused");
  refused = false;
  try { info.update(1, 1); } catch (std::exception&) { refused = true; }
  sym_assert(refused, "averaging baseline-dependent data is refused");
  sym_reach("bda");
}
static void regular() {
  const int n = sym_param(1), perBaseline = sym_param(2);
  DPInfo info(4, 8);
  const Ants a = ants(0, 2);
  info.setAntennas(a.names, a.diam, a.pos, I{0, 0}, I{1, 0});
  D f = symv("freq", n), w = symv("width", n);
  bool want = true;
  for (int i = 1; i < n; ++i) {
    const double d = (f[i] - f[i - 1]) - (f[1] - f[0]), e = w[i] - w[0];
    want = sym_and(want, sym_and(sym_and(d < 1000, d > -1000), sym_and(e < 1000, e > -1000)));
  }
  if (perBaseline) {
    D g = symv("freq", n);
    for (int i = 0; i < n; ++i) { const double d = g[i] - f[i]; want = sym_and(want, sym_and(d <= 1, d >= -1)); sym_assume(sym_and(d != 1, d != -1)); }
    info.setChannels(std::vector<D>{f, g}, std::vector<D>{w, w});
  } else {
    info.setChannels(D(f), D(w));
  }
  sym_assert(info.channelsAreRegular() == want, "regular channels have equal steps and widths, for all baselines");
  sym_reach("regular");
}
// Widths that sum to the same bandwidth in another order are accepted, in floating point arithmetic.
static void rounding() {
  const int n = sym_param(1), m = sym_param(2);
  DPInfo info(4, 8);
  const Ants a = ants(0, 2);
  info.setAntennas(a.names, a.diam, a.pos, I{0, 0}, I{1, 0});
  const uint64_t bits = 0x3ff5555555550000 | (sym<uint64_t>("width") & 0xffff);  // about 4/3, with any last bits
  double w;
  std::memcpy(&w, &bits, 8);
  std::vector<D> f(2), v(2);
  for (int i = 0; i < n; ++i) { f[0].push_back(100 + i); v[0].push_back(w); }
  for (int i = 0; i < m; ++i) {
    double s = 0;
    for (int c = i * n / m; c < (i + 1) * n / m; ++c) s += w;
    f[1].push_back(100 + i); v[1].push_back(s);
  }
  bool threw = false;
  try { info.setChannels(std::move(f), std::move(v)); } catch (std::exception&) { threw = true; }
  sym_assert(!threw, "averaged channels have the same total bandwidth");
  sym_reach("rounding");
}
extern "C" void harness() {
  switch (sym_param(0)) {
    case 0: times(); break;
    case 1: channels(); break;
    case 2: sequence(); break;
    case 3: baselines(); break;
    case 4: badAntennas(); break;
    case 5: bda(); break;
    case 6: regular(); break;
    case 7: rounding(); break;
  }
}
