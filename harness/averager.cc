// C30: averaging in time and frequency.
#include "steps.h"
#include "steps/Averager.h"
using dp3::steps::Averager;
typedef std::complex<double> Z;
static void average(int how) {
  const size_t nbl = sym_param(1), nch = sym_param(2), ncr = sym_param(3);
  const int nt = sym_param(4);
  unsigned ca = sym_param(5), ta = sym_param(6);
  const int minpts = sym_param(7), minperc = sym_param(8);
  const int flagmode = sym_param(9);  // 0: any flags and zero weights, 1: a fixed pattern of flags, 2: any flags
  const double iv = 2.0, t0 = sym_f64("time");
  DPInfo info(ncr, nch);
  std::vector<int> a1, a2;
  for (size_t b = 0; b < nbl; ++b) { a1.push_back(0); a2.push_back(b + 1); }
  setAnts(info, nbl + 1, a1, a2);
  sym_assume(sym_and(t0 > -1e9, t0 < 1e9));
  info.setTimes(t0, t0 + (nt - 1) * iv, iv);
  setChans(info, nch);
  std::shared_ptr<Averager> avg;
  if (how == 0) {
    ParameterSet p;
    p.add("a.freqstep", std::to_string(ca)); p.add("a.timestep", std::to_string(ta));
    p.add("a.minpoints", std::to_string(minpts)); p.add("a.minperc", std::to_string(minperc));
    avg = std::make_shared<Averager>(p, "a.");
  } else if (how == 1) avg = std::make_shared<Averager>("a", ca, ta);
  else avg = std::make_shared<Averager>("a", 2.0 * ca, iv * ta);
  if (ca == 0) ca = 1;
  if (ta == 0) ta = 1;
  auto next = std::make_shared<Capture>();
  avg->setNextStep(next);
  avg->setInfo(info);
  const bool noavg = ca == 1 && ta == 1;
  const unsigned eta = std::min<unsigned>(ta, nt), eca = std::min<unsigned>(ca, nch);
  const size_t nco = (nch + eca - 1) / eca, nto = (nt + eta - 1) / eta;
  const DPInfo& out = avg->getInfoOut();
  sym_assert(out.nchan() == nco && out.ntime() == nto && next->getInfoIn().nchan() == nco, "number of channels and times");
  sym_close(out.timeInterval(), iv * eta, "interval");
  struct In { std::vector<C> d; std::vector<float> w; std::vector<char> f; std::vector<double> u; double t, e; };
  std::vector<In> in;
  const size_t n = nbl * nch * ncr;
  for (int t = 0; t < nt; ++t) {
    In x;
    x.t = t0 + t * iv; x.e = iv;
    Buf b = makeBuf(nbl, nch, ncr, x.t, x.e);
    for (size_t i = 0; i < n; ++i) {
      x.d.push_back(symc("data"));
      const float w = sym_f32("weight");
      sym_assume(flagmode == 0 || i == 0 ? w >= 0 : w > 0);  // a zero weight anywhere when few, in one place otherwise
      x.w.push_back(w);
      x.f.push_back(flagmode != 1 ? symflag("flag") : (i * 5 + t * 3) % 7 < 3);
      b->GetData().data()[i] = x.d[i]; b->GetWeights().data()[i] = x.w[i]; b->GetFlags().data()[i] = x.f[i];
    }
    for (size_t i = 0; i < nbl * 3; ++i) { x.u.push_back(sym_f64("uvw")); b->GetUvw().data()[i] = x.u[i]; }
    in.push_back(x);
    const size_t before = next->out.size();
    avg->process(std::move(b));
    sym_assert(next->out.size() == before + ((t + 1) % eta == 0), "an average is passed on when its last time arrived");
  }
  avg->finish();
  sym_assert(next->finished == 1, "the next step is finished");
  sym_assert(next->out.size() == nto, "number of averages");
  for (size_t o = 0; o < nto && o < next->out.size(); ++o) {
    const DPBuffer& b = *next->out[o];
    const int tb = o * eta, te = std::min<int>(tb + eta, nt);
    sym_close(b.GetTime(), in[tb].t + 0.5 * iv * (eta - 1.0), "centre of the interval");
    sym_close(b.GetExposure(), iv * eta, "exposure");
    sym_assert(b.GetData().shape(0) == nbl && b.GetData().shape(1) == nco && b.GetData().shape(2) == ncr, "shape");
    sym_assert(b.GetFlags().size() == nbl * nco * ncr && b.GetWeights().size() == nbl * nco * ncr, "shape of flags and weights");
    for (size_t i = 0; i < nbl * 3; ++i) {
      double u = 0;
      for (int t = tb; t < te; ++t) u += in[t].u[i];
      sym_close(b.GetUvw().data()[i] * (te - tb), u, "mean uvw");
    }
    for (size_t bl = 0; bl < nbl; ++bl) for (size_t c = 0; c < nco; ++c) for (size_t k = 0; k < ncr; ++k) {
      Z sum = 0, all = 0;
      double w = 0, wall = 0;
      unsigned pts = 0, total = 0;
      for (int t = tb; t < te; ++t) for (size_t ch = c * eca; ch < std::min<size_t>((c + 1) * eca, nch); ++ch) {
        const size_t i = (bl * nch + ch) * ncr + k;
        const Z d(in[t].d[i].real(), in[t].d[i].imag());
        const double wt = in[t].w[i];
        ++total; all += d * wt; wall += wt;
        if (!in[t].f[i]) { ++pts; sum += d * wt; w += wt; }
      }
      const size_t i = (bl * nco + c) * ncr + k;
      const C d = b.GetData().data()[i];
      const double ow = b.GetWeights().data()[i];
      const bool f = b.GetFlags().data()[i];
      if (noavg) {
        const In& x = in[tb];
        closec(d, Z(x.d[i].real(), x.d[i].imag()), "data are unchanged"); sym_close(ow, x.w[i], "weights are unchanged"); sym_assert(f == bool(x.f[i]), "flags are unchanged");
        sym_reach("unchanged");
        continue;
      }
      const bool few = pts < unsigned(minpts) || pts * 100 < total * unsigned(minperc);
      sym_assert(f == sym_or(few, w == 0), "flagged when too little unflagged data");
      if (f) {
        sym_close(ow, wall, "weight of a flagged average");
        if (wall == 0) closec(d, Z(0), "no data"); else { closec(C(d.real() * ow, d.imag() * ow), all, "mean of all data when flagged"); }
        sym_reach(few ? "toofew" : "flagged");
      } else {
        sym_close(ow, w, "sum of the weights");
        closec(C(d.real() * ow, d.imag() * ow), sum, "weighted mean of the unflagged data");
        sym_reach("mean");
      }
    }
    sym_reach(te - tb < int(eta) ? "partial" : "whole");
  }
}
static void resolution() {
  // averaging steps from resolutions
  const double w = 2.0, iv = 4.0;
  const int nch = 12, nt = 10;
  DPInfo info(1, nch);
  setAnts(info, 2, {0}, {1});
  info.setTimes(0, (nt - 1) * iv, iv);
  setChans(info, nch, 100, w);
  const bool freq = sym_param(1);
  const double fr = freq ? sym_f64("resolution") : 4.5, tr = freq ? 9.0 : sym_f64("resolution");
  sym_assume(sym_and(fr >= -5, fr <= 30)); sym_assume(sym_and(tr >= -5, tr <= 50));
  Averager avg("a", fr, tr);
  unsigned fac = 2;  // the factor that fits, by choice
  if (freq) { fac = sym_concretize(sym_choose(sym_param(2), sym_param(2) + 1, "factor")); sym_assume(sym_and(fr >= (fac == 1 ? -9 : (fac - 0.5) * w), fac == 12 ? true : fr < (fac + 0.5) * w)); }
  bool threw = false;
  try { avg.updateInfo(info); } catch (std::runtime_error&) { threw = true; }
  sym_assert(threw == (nch % fac != 0), "channels must divide into equal groups");
  if (threw) return;
  const double in = info.timeInterval(), out = avg.getInfoOut().timeInterval();
  const unsigned no = avg.getInfoOut().nchan();
  sym_assert(fac > 0 && no == (nch + fac - 1) / fac, "channels to average: the resolution in channel widths, rounded");
  double tfac = out / in;
  for (unsigned k = 1; k <= 10; ++k) {
    const bool here = sym_and(tr >= (k == 1 ? -9 : (k - 0.5) * iv), k == 10 ? true : tr < (k + 0.5) * iv);
    sym_assert(sym_or(!here, tfac == k), "times to average: the resolution in intervals, rounded, at most all");
  }
  sym_reach("resolution");
}
static void mismatch() {
  DPInfo info(1, 2);
  setAnts(info, 3, {0, 0}, {1, 2});
  info.setTimes(0, 6, 2);
  setChans(info, 2);
  Averager avg("a", 1u, 2u);
  auto next = std::make_shared<Capture>();
  avg.setNextStep(next);
  avg.setInfo(info);
  Buf a = makeBuf(2, 2, 1, 0, 2), b = makeBuf(sym_param(1), sym_param(2), sym_param(3), 2, 2);
  for (Buf* x : {&a, &b}) { (*x)->GetData().fill(C(1)); (*x)->GetWeights().fill(1); (*x)->GetFlags().fill(false); (*x)->GetUvw().fill(0); }
  avg.process(std::move(a));
  bool threw = false;
  try { avg.process(std::move(b)); } catch (std::runtime_error&) { threw = true; }
  sym_assert(threw, "time slots of different shape are refused");
  sym_reach("mismatch");
}
extern "C" void harness() {
  switch (sym_param(0)) {
    case 0: case 1: case 2: average(sym_param(0)); break;
    case 3: resolution(); break;
    case 4: mismatch(); break;
  }
}
