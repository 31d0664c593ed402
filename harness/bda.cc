// C31: baseline-dependent averaging and its expansion back to regular time slots.
#include <cmath>
#include "steps.h"
#include "steps/BDAAverager.h"
#include "steps/BdaExpander.h"
using dp3::steps::BdaAverager;
using dp3::steps::BdaExpander;
typedef std::complex<double> Z;
static double num(const char* s) { return std::stod(s); }
static std::string str(int v) { return std::to_string(v); }
struct Setup {
  size_t nbl, nch, ncr;
  double iv = 2.0, t0 = 1000.0, fw = 2.0;
  DPInfo info;
  std::vector<double> len;
  std::vector<size_t> tf, nc;  // time factor and channels of each baseline
  ParameterSet p;
};
// Baseline b connects antenna 0 with antenna b+1, at 0 (autocorrelation-like), 10, 40, 90 m.
static void setup(Setup& s, int timebase, int freqbase, int maxint, int minch) {
  s.info = DPInfo(s.ncr, s.nch);
  std::vector<int> a1, a2;
  std::vector<double> x{0};
  static const double dist[] = {10, 40, 0, 90};
  for (size_t b = 0; b < s.nbl; ++b) { a1.push_back(0); a2.push_back(b + 1); x.push_back(dist[b]); s.len.push_back(dist[b]); }
  setAnts(s.info, s.nbl + 1, a1, a2, x);
  s.info.setTimes(s.t0, s.t0 + 20 * s.iv, s.iv);
  setChans(s.info, s.nch, 100, s.fw);
  if (timebase) s.p.add("a.timebase", str(timebase));
  if (freqbase) s.p.add("a.frequencybase", str(freqbase));
  if (maxint) s.p.add("a.maxinterval", str(maxint));
  if (minch != 1) s.p.add("a.minchannels", str(minch));
  for (double l : s.len) {
    size_t f = timebase / std::max(l, 0.1);
    if (maxint && f * s.iv > maxint) f = maxint / s.iv;
    s.tf.push_back(std::max<size_t>(f, 1));
    size_t c = s.nch;
    if (freqbase) c = std::ceil(l / freqbase * s.nch);
    c = std::min(std::max<size_t>(c, std::max(minch, 1)), s.nch);
    s.nc.push_back(c);
  }
}
struct In { std::vector<C> d, x; std::vector<float> w; std::vector<char> f; std::vector<double> u; double t, e; };
static In fill(const Setup& s, DPBuffer& b, int t, int flags, bool extra) {
  In in;
  in.t = s.t0 + t * s.iv; in.e = sym_f64("exposure");
  b.SetTime(in.t); b.SetExposure(in.e);
  if (extra) b.AddData("x");
  for (size_t i = 0; i < s.nbl * s.nch * s.ncr; ++i) {
    in.d.push_back(symc("data"));
    if (extra) in.x.push_back(symc("extra"));
    const float w = sym_f32("weight");
    sym_assume(flags == 2 && i == 0 ? w >= 0 : w > 0);
    in.w.push_back(w);
    in.f.push_back(flags == 2 ? symflag("flag") : flags == 1 ? (i * 5 + t) % 3 == 0 || i / (s.nch * s.ncr) == 0 : false);
    b.GetData().data()[i] = in.d[i]; b.GetWeights().data()[i] = w; b.GetFlags().data()[i] = in.f[i];
    if (extra) b.GetData("x").data()[i] = in.x[i];
  }
  for (size_t i = 0; i < s.nbl * 3; ++i) { in.u.push_back(sym_f64("uvw")); b.GetUvw().data()[i] = in.u[i]; }
  return in;
}
static std::vector<size_t> groups(size_t nch, size_t n) { std::vector<size_t> g; for (size_t i = 0; i <= n; ++i) g.push_back(i * nch / n); return g; }
// Weighted mean over times [tb, te) and channels [cb, ce) of one correlation.
struct Mean { Z sum = 0, xsum = 0; double w = 0; };
static Mean mean(const Setup& s, const std::vector<In>& in, size_t bl, int tb, int te, size_t cb, size_t ce, size_t k, bool use) {
  Mean m;
  for (int t = tb; t < te; ++t) for (size_t c = cb; c < ce; ++c) {
    const size_t i = (bl * s.nch + c) * s.ncr + k;
    const double w = use ? double(in[t].w[i]) : 1.0;
    if (use && in[t].f[i]) continue;
    m.sum += Z(in[t].d[i].real(), in[t].d[i].imag()) * w;
    if (in[t].x.size()) m.xsum += Z(in[t].x[i].real(), in[t].x[i].imag()) * w;
    m.w += w;
  }
  return m;
}
static Buf newbuf(const Setup& s) { return makeBuf(s.nbl, s.nch, s.ncr, 0, 0); }
static void checkInfo(const Setup& s, const DPInfo& out, const DPInfo& in) {
  sym_assert(out.ntimeAvgs().size() == s.nbl && out.BdaChanFreqs().size() == s.nbl && out.BdaChanWidths().size() == s.nbl, "every baseline is described");
  for (size_t b = 0; b < s.nbl; ++b) {
    sym_assert(out.ntimeAvgs()[b] == s.tf[b], "time factor of a baseline");
    const std::vector<size_t> g = groups(s.nch, s.nc[b]);
    sym_assert(out.chanFreqs(b).size() == s.nc[b] && out.chanWidths(b).size() == s.nc[b], "channels of a baseline");
    for (size_t c = 0; c < s.nc[b] && c < out.chanFreqs(b).size(); ++c) {
      sym_close(out.chanFreqs(b)[c], 0.5 * (in.chanFreqs()[g[c]] + in.chanFreqs()[g[c + 1] - 1]), "frequency of an averaged channel");
      sym_close(out.chanWidths(b)[c], s.fw * (g[c + 1] - g[c]), "width of an averaged channel");
    }
  }
  sym_assert(out.isBDAIntervalFactorInteger(), "intervals are whole factors");
}
static void averager() {
  Setup s;
  s.nbl = sym_param(1); s.nch = sym_param(2); s.ncr = sym_param(3);
  const int nt = sym_param(4), flags = sym_param(9);
  setup(s, sym_param(5), sym_param(6), sym_param(7), sym_param(8));
  const bool use = flags != 3, extra = sym_param(10);
  auto avg = std::make_shared<BdaAverager>(s.p, "a.", use);
  auto next = std::make_shared<Capture>();
  avg->setNextStep(next);
  avg->setInfo(s.info);
  checkInfo(s, avg->getInfoOut(), s.info);
  double cells = 0;
  for (size_t b = 0; b < s.nbl; ++b) cells += double(s.nc[b]) / s.nch / s.tf[b];
  sym_close(avg->TotalAveragingFactor() * cells, s.nbl, "total averaging factor");
  std::vector<In> in;
  for (int t = 0; t < nt; ++t) {
    Buf b = newbuf(s);
    in.push_back(fill(s, *b, t, flags, extra));
    avg->process(std::move(b));
  }
  avg->finish();
  sym_assert(next->finished == 1, "the next step is finished");
  std::vector<int> at(s.nbl, 0);  // times seen of each baseline
  size_t nr = 0;
  for (const auto& bb : next->bda) {
    sym_assert(bb->GetRows().size() > 0, "no empty buffers");
    sym_assert(bb->HasData() && bb->HasData("x") == extra, "named data");
    for (size_t r = 0; r < bb->GetRows().size(); ++r) {
      const BdaBuffer::Row& row = bb->GetRows()[r];
      const size_t bl = row.baseline_nr;
      sym_assert(bl < s.nbl && row.row_nr == nr++, "rows are numbered in order");
      const int tb = at[bl], te = std::min<int>(tb + s.tf[bl], nt);
      at[bl] = te;
      sym_assert(te > tb, "no row beyond the data");
      if (te <= tb) continue;
      sym_close(row.interval, s.iv * (te - tb), "interval");
      sym_close(row.time, s.t0 + s.iv * (tb + te - 1) / 2, "centre of the interval");
      double e = 0;
      for (int t = tb; t < te; ++t) e += in[t].e;
      sym_close(row.exposure, e, "exposure");
      for (int k = 0; k < 3; ++k) { double u = 0; for (int t = tb; t < te; ++t) u += in[t].u[bl * 3 + k]; sym_close(row.uvw[k] * (te - tb), u, "mean uvw"); }
      sym_assert(row.n_channels == s.nc[bl] && row.n_correlations == s.ncr, "shape");
      const std::vector<size_t> g = groups(s.nch, s.nc[bl]);
      for (size_t c = 0; c < s.nc[bl]; ++c) for (size_t k = 0; k < s.ncr; ++k) {
        const Mean m = mean(s, in, bl, tb, te, g[c], g[c + 1], k, use);
        const size_t i = c * s.ncr + k;
        const double w = bb->GetWeights(r)[i];
        sym_close(w, m.w, "sum of the weights");
        sym_assert(!bb->GetFlags(r)[i], "not flagged");
        const C d = bb->GetData(r)[i];
        if (w == 0) { closec(d, Z(0), "no data"); sym_reach("noweight"); }
        else {
          closec(C(d.real() * w, d.imag() * w), m.sum, "weighted mean");
          if (extra) { const C x = bb->GetData(r, "x")[i]; closec(C(x.real() * w, x.imag() * w), m.xsum, "weighted mean of the extra data"); sym_reach("extra"); }
          sym_reach("mean");
        }
      }
      sym_reach(te - tb < int(s.tf[bl]) ? "partial" : "whole");
    }
  }
  for (size_t b = 0; b < s.nbl; ++b) sym_assert(at[b] == nt, "all times of a baseline are passed on");
}
// averaging, then expanding: every regular time slot once, in order, with the values of the cell it lies in
static void expand() {
  Setup s;
  s.nbl = sym_param(1); s.nch = sym_param(2); s.ncr = sym_param(3);
  const int nt = sym_param(4), flags = sym_param(9);
  setup(s, sym_param(5), sym_param(6), sym_param(7), sym_param(8));
  auto avg = std::make_shared<BdaAverager>(s.p, "a.", true);
  auto exp = std::make_shared<BdaExpander>("e.");
  auto next = std::make_shared<Capture>();
  avg->setNextStep(exp);
  exp->setNextStep(next);
  avg->setInfo(s.info);
  if (sym_param(10)) avg->setInfo(s.info);  // setting up again changes nothing
  const DPInfo& out = exp->getInfoOut();
  sym_assert(out.nchan() == s.nch && out.chanFreqs().size() == s.nch && out.BdaChanFreqs().size() == 1, "the original channels");
  for (size_t c = 0; c < s.nch && c < out.chanFreqs().size(); ++c) { sym_close(out.chanFreqs()[c], s.info.chanFreqs()[c], "channel frequency"); sym_close(out.chanWidths()[c], s.fw, "channel width"); }
  std::vector<In> in;
  for (int t = 0; t < nt; ++t) {
    Buf b = newbuf(s);
    in.push_back(fill(s, *b, t, flags, false));
    if (nt > 0) { avg->process(std::move(b)); }
  }
  avg->finish();
  sym_assert(next->finished == 1 && next->out.size() == size_t(nt), "every time slot once");
  for (int t = 0; t < nt && t < int(next->out.size()); ++t) {
    const DPBuffer& b = *next->out[t];
    sym_close(b.GetTime(), s.t0 + t * s.iv, "time slots in order");
    sym_assert(b.GetData().shape(0) == s.nbl && b.GetData().shape(1) == s.nch && b.GetData().shape(2) == s.ncr, "shape");
    for (size_t bl = 0; bl < s.nbl; ++bl) {
      const int tb = t / s.tf[bl] * s.tf[bl], te = std::min<int>(tb + s.tf[bl], nt);
      const std::vector<size_t> g = groups(s.nch, s.nc[bl]);
      for (int k = 0; k < 3; ++k) { double u = 0; for (int q = tb; q < te; ++q) u += in[q].u[bl * 3 + k]; sym_close(b.GetUvw()(bl, k) * (te - tb), u, "uvw of the cell"); }
      for (size_t c = 0; c < s.nc[bl]; ++c) for (size_t ch = g[c]; ch < g[c + 1]; ++ch) for (size_t k = 0; k < s.ncr; ++k) {
        const Mean m = mean(s, in, bl, tb, te, g[c], g[c + 1], k, true);
        const size_t cells = (te - tb) * (g[c + 1] - g[c]);
        const double w = b.GetWeights()(bl, ch, k) * cells;
        sym_close(w, m.w, "the weight is shared equally");
        sym_assert(!b.GetFlags()(bl, ch, k), "not flagged");
        const C d = b.GetData()(bl, ch, k);
        if (m.w == 0) closec(d, Z(0), "no data"); else closec(C(d.real() * m.w, d.imag() * m.w), m.sum, "the value of the cell");
      }
    }
  }
  sym_reach("expanded");
}
// rows of a baseline-dependent buffer in any split over buffers, with any flags
static void rows() {
  const int split = sym_param(1);
  Setup s;
  s.nbl = 2; s.nch = 2; s.ncr = 1;
  setup(s, 40, 40, 0, 1);  // factors 4 and 1, channels 1 and 2
  BdaAverager avg(s.p, "a.", true);
  avg.updateInfo(s.info);
  auto exp = std::make_shared<BdaExpander>("e.");
  auto next = std::make_shared<Capture>();
  exp->setNextStep(next);
  exp->setInfo(avg.getInfoOut());
  Fields f(Fields::Single::kData); f |= Fields(Fields::Single::kFlags); f |= Fields(Fields::Single::kWeights);
  struct R { int bl, t, n; std::vector<C> d; std::vector<float> w; std::vector<char> f; double u[3]; double e; };
  std::vector<R> rs;
  for (int t = 0; t < 4; ++t) rs.push_back({1, t, 1});
  rs.insert(rs.begin() + sym_param(2), R{0, 0, 4});  // the long row may come at several places
  std::unique_ptr<BdaBuffer> b;
  size_t done = 0;
  for (size_t i = 0; i < rs.size(); ++i) {
    if (!b) b = std::make_unique<BdaBuffer>(20, f);
    R& r = rs[i];
    bool fl[2];
    const size_t n = r.bl == 0 ? 1 : 2;
    for (size_t c = 0; c < n; ++c) { r.d.push_back(symc("data")); r.w.push_back(sym_f32("weight")); const bool x = symflag("flag"); r.f.push_back(x); fl[c] = x; }
    for (double& u : r.u) u = sym_f64("uvw");
    r.e = sym_f64("exposure");
    b->AddRow(s.t0 + (r.t + 0.5 * (r.n - 1)) * s.iv, r.n * s.iv, r.e, r.bl, n, 1, i, r.d.data(), fl, r.w.data(), r.u);
    if ((split >> i) & 1 || i + 1 == rs.size()) {
      exp->process(std::move(b));
      // All time slots for which every baseline has arrived are passed on.
      bool have0 = false; int have1 = 0;
      for (size_t j = 0; j <= i; ++j) { if (rs[j].bl == 0) have0 = true; else ++have1; }
      sym_assert(next->out.size() == size_t(have0 ? have1 : 0), "complete time slots are passed on at once");
    }
  }
  exp->finish();
  sym_assert(next->out.size() == 4, "all time slots");
  for (int t = 0; t < 4 && t < int(next->out.size()); ++t) {
    const DPBuffer& o = *next->out[t];
    sym_close(o.GetTime(), s.t0 + t * s.iv, "time");
    for (const R& r : rs) {
      if (t < r.t || t >= r.t + r.n) continue;
      for (int ch = 0; ch < 2; ++ch) {
        const size_t c = r.bl == 0 ? 0 : ch;
        closec(o.GetData()(r.bl, ch, 0), Z(r.d[c].real(), r.d[c].imag()), "data of the row");
        sym_close(o.GetWeights()(r.bl, ch, 0) * (r.bl == 0 ? 8 : 1), r.w[c], "weight of the row");
        sym_assert(o.GetFlags()(r.bl, ch, 0) == bool(r.f[c]), "flag of the row");
      }
      for (int k = 0; k < 3; ++k) sym_close(o.GetUvw()(r.bl, k), r.u[k], "uvw of the row");
    }
  }
  sym_reach("rows");
}
// an averaging scheme taken over from existing data
static void scheme() {
  Setup s;
  s.nbl = sym_param(1); s.nch = sym_param(2); s.ncr = 1;
  setup(s, sym_param(3), sym_param(4), 0, 1);
  BdaAverager a(s.p, "a.", true);
  a.updateInfo(s.info);
  ParameterSet none;
  auto b = std::make_shared<BdaAverager>(none, "b.", true);
  bool threw = false;
  DPInfo empty(1, s.nch);
  try { b->SetAveragingParameters(empty); } catch (std::invalid_argument&) { threw = true; }
  sym_assert(threw, "a description without averaging scheme is refused");
  b->SetAveragingParameters(a.getInfoOut());
  const int bad = sym_param(5);
  DPInfo in = s.info;
  if (bad == 1) setChans(in, s.nch, 101, s.fw);
  if (bad == 2) setChans(in, s.nch, 100, 3);
  if (bad == 3) setAnts(in, 2, {0}, {1});
  threw = false;
  try { b->updateInfo(in); } catch (std::exception&) { threw = true; }
  sym_assert(threw == (bad != 0), "a scheme that does not fit is refused");
  if (!threw) { checkInfo(s, b->getInfoOut(), s.info); sym_reach("scheme"); } else sym_reach("badscheme");
}
static void sizes() {  // requested buffer sizes
  Setup s;
  s.nbl = 2; s.nch = 2; s.ncr = 1;
  setup(s, 40, 0, 0, 1);
  auto avg = std::make_shared<BdaAverager>(s.p, "a.", true);
  auto next = std::make_shared<Capture>();
  avg->setNextStep(next);
  avg->setInfo(s.info);
  const int r1 = 2 * sym_param(1), r2 = 2 * sym_param(2);
  avg->PushBufferSizeRequest(r1);
  avg->PushBufferSizeRequest(r2);
  for (int t = 0; t < 4; ++t) { Buf b = newbuf(s); fill(s, *b, t, 0, false); avg->process(std::move(b)); }
  avg->finish();
  size_t total = 0;
  for (const auto& b : next->bda) total += b->GetNumberOfElements();
  sym_assert(total == 10, "all rows");
  sym_assert(int(next->bda[0]->GetNumberOfElements()) == std::min(r1, 10), "a buffer of the requested size");
  if (r1 < 10) sym_assert(next->bda.size() > 1 && int(next->bda[1]->GetNumberOfElements()) == std::min(r2, 10 - r1), "the next buffer of the next requested size");
  sym_reach("sizes");
}
static void refuse() {
  Setup s;
  s.nbl = 2; s.nch = 2; s.ncr = 1;
  setup(s, 40, 0, 0, 1);
  const int what = sym_param(1);
  bool threw = false;
  if (what < 4) {
    auto avg = std::make_shared<BdaAverager>(s.p, "a.", what != 3);
    avg->setNextStep(std::make_shared<Capture>());
    avg->setInfo(s.info);
    Buf b = makeBuf(what == 0 ? 3 : 2, what == 1 ? 1 : 2, what == 2 ? 2 : 1, 0, 0);
    if (what == 3) { b->GetFlags().resize({1, 1, 1}); b->GetWeights().resize({1, 1, 1}); }  // not used, so not needed
    b->GetData().fill(C(0)); b->GetFlags().fill(false); b->GetWeights().fill(1); b->GetUvw().fill(0);
    try { avg->process(std::move(b)); } catch (std::runtime_error&) { threw = true; }
    sym_assert(threw == (what != 3), "data of another shape are refused");
  } else if (what == 4) {  // channels that are not regular
    std::vector<double> f{100, 102, 5000}, w{2, 2, 2};
    s.info.setChannels(std::move(f), std::move(w));
    BdaAverager a(s.p, "a.", true);
    try { a.updateInfo(s.info); } catch (std::invalid_argument&) { threw = true; }
    sym_assert(threw, "irregular channels are refused");
  } else {
    BdaAverager a(s.p, "a.", true);
    a.updateInfo(s.info);
    DPInfo in = a.getInfoOut();
    in.setIsBDAIntervalFactorInteger(false);
    BdaExpander e("e.");
    try { e.updateInfo(in); } catch (std::invalid_argument&) { threw = true; }
    sym_assert(threw, "intervals that are not whole factors are refused");
  }
  sym_reach("refuse");
}
extern "C" void harness() {
  switch (sym_param(0)) {
    case 0: averager(); break;
    case 1: expand(); break;
    case 2: rows(); break;
    case 3: scheme(); break;
    case 4: sizes(); break;
    case 5: refuse(); break;
  }
}
