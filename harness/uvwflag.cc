// C33: flagging on the coordinates of the baselines.
#include <sstream>
#include "steps.h"
#include "base/FlagCounter.h"
#include "base/UVWCalculator.h"
#include "steps/UVWFlagger.h"
using dp3::steps::Step;
using dp3::steps::UVWFlagger;
static double ku[3], askedRa, askedDec, askedType;
namespace dp3::base {
UVWCalculator::UVWCalculator(const casacore::MDirection& d, const casacore::MPosition&, const std::vector<casacore::MPosition>& p) { askedRa = d.getValue().get()[0]; askedDec = d.getValue().get()[1]; sym_assert(p.size() == 3, "stations"); }
std::array<double, 3> UVWCalculator::getUVW(unsigned a, unsigned b, double t) { return {ku[0] * (b - a) + t, ku[1] * b - t, ku[2] + a * 3.0}; }
}
bool casacore::MVAngle::read(Quantity& r, const std::string& s, bool) { char* e; const double v = strtod(s.c_str(), &e); if (*e) return false; r = Quantity(v, "rad"); return true; }
// the ranges that can be asked for
static const char* kinds[8] = {"uvm", "um", "vm", "wm", "uvlambda", "ulambda", "vlambda", "wlambda"};
struct Rng { double lo, hi; };
static std::vector<Rng> rng[8];
static void ask(ParameterSet& p, int kind, int how) {
  const std::string k = std::string("f.") + kinds[kind];
  const bool uv = kind % 4 == 0;
  if (how == 1) { p.add(k + "range", "[20..30.5,40+-5]"); rng[kind] = {{20, 30.5}, {35, 45}}; }
  if (how == 2) { p.add(k + "range", uv ? "[10+-20]" : "[-30..-10,0+-2]"); if (uv) rng[kind] = {{-10, 30}}; else rng[kind] = {{-30, -10}, {-2, 2}}; }
  if (how == 3) { p.add(k + "min", "12.5"); rng[kind] = {{-1e15, 12.5}}; }
  if (how == 4) { p.add(k + "max", "60"); rng[kind] = {{60, 1e15}}; }
  if (how == 5) { p.add(k + "min", "15"); p.add(k + "max", "25"); p.add(k + "range", "[17..18]"); rng[kind] = {{17, 18}, {-1e15, 15}, {25, 1e15}}; }
}
static bool in(int kind, double v, double m) { bool r = false; for (auto& x : rng[kind]) r = sym_or(r, sym_and(v > x.lo + m, v < x.hi - m)); return r; }
static bool inDist(int kind, double u, double v, double scale, double m) {  // sqrt(u^2+v^2)*scale in a range, without the root
  const double s = (u * u + v * v) * scale * scale;
  bool r = false;
  for (auto& x : rng[kind]) r = sym_or(r, sym_and(x.lo < 0 ? true : s > (x.lo + m) * (x.lo + m), s < (x.hi - m) * (x.hi - m)));
  return r;
}
static bool expect(double u, double v, double w, double rec, double m) {  // ranges in wavelengths are narrowed by a margin for rounding
  bool f = sym_or(sym_or(inDist(0, u, v, 1, 0), in(1, u, 0)), sym_or(in(2, v, 0), in(3, w, 0)));
  if (!rng[4].empty()) f = sym_or(f, inDist(4, u, v, rec, m));
  return sym_or(sym_or(f, in(5, u * rec, m)), sym_or(in(6, v * rec, m), in(7, w * rec, m)));
}
static void run(bool bda) {
  const int k1 = sym_param(1), h1 = sym_param(2), k2 = sym_param(3), h2 = sym_param(4);
  const bool center = sym_param(5);
  const int nt = 1 + sym_param(6);
  const size_t nbl = sym_param(7), nch = 2, ncr = sym_param(8);
  ParameterSet p;
  ask(p, k1, h1);
  if (k2 != k1) ask(p, k2, h2);
  if (center) { p.add("f.phasecenter", "[0.5,0.25]"); for (double& k : ku) { k = sym_f64("uvwscale"); sym_assume(sym_and(k > -200, k < 200)); } }
  bool any = false;
  for (auto& r : rng) any = any || !r.empty();
  DPInfo info(ncr, nch);
  std::vector<int> a1{0, 1}, a2{1, 2};
  a1.resize(nbl); a2.resize(nbl);
  setAnts(info, 3, a1, a2);
  info.setTimes(0, (nt - 1) * 10.0, 10);
  std::vector<std::vector<double>> freqs;
  if (bda) {
    std::vector<std::vector<double>> w;
    freqs = {{casacore::C::c * 0.5, casacore::C::c}, {casacore::C::c * 0.75}};
    freqs.resize(nbl);
    w = {{casacore::C::c * 0.5, casacore::C::c * 0.5}, {casacore::C::c}};
    w.resize(nbl);
    auto f2 = freqs;
    info.setChannels(std::move(f2), std::move(w));
  } else {
    freqs.assign(nbl, {casacore::C::c * 0.5, casacore::C::c * 2});
    auto f2 = freqs[0];
    info.setChannels(std::move(f2), std::vector<double>(2, 1e6));
  }
  auto fl = std::make_shared<UVWFlagger>(p, "f.", bda ? Step::MsType::kBda : Step::MsType::kRegular);
  auto next = std::make_shared<Capture>();
  fl->setNextStep(next);
  fl->setInfo(info);
  sym_assert(fl->isDegenerate() == !any, "nothing asked, nothing done");
  sym_assert(fl->getRequiredFields().Flags() == any && fl->getProvidedFields().Flags() == any && fl->getRequiredFields().Uvw() == (any && !center), "fields");
  if (center) sym_assert(askedRa == 0.5 && askedDec == 0.25, "the asked direction");
  long newly = 0, total = 0;
  for (int t = 0; t < nt; ++t) {
    std::vector<double> u;
    for (size_t i = 0; i < nbl * 3; ++i) { u.push_back(sym_f64("uvw")); sym_assume(sym_and(u[i] > -300, u[i] < 300)); }
    std::vector<char> f;
    std::vector<C> d;
    const double time = sym_f64("time");
    sym_assume(sym_and(time > -300, time < 300));
    size_t n = 0;
    for (auto& x : freqs) n += x.size() * ncr;
    for (size_t i = 0; i < n; ++i) { f.push_back(symflag("flag")); d.push_back(symc("data")); }
    const bool* got;
    const C* gotD;
    const double* gotU[2];
    if (bda) {
      auto b = std::make_unique<BdaBuffer>(n, dp3::common::Fields(dp3::common::Fields::Single::kData) | dp3::common::Fields(dp3::common::Fields::Single::kFlags) | dp3::common::Fields(dp3::common::Fields::Single::kWeights));
      size_t o = 0;
      std::vector<float> w(n, 1.0f);
      for (size_t bl = 0; bl < nbl; ++bl) { b->AddRow(time, 2, 2, bl, freqs[bl].size(), ncr, bl, d.data() + o, (const bool*)f.data() + o, w.data(), u.data() + 3 * bl); o += freqs[bl].size() * ncr; }
      fl->process(std::move(b));
      sym_assert(int(next->bda.size()) == t + 1, "passed on");
      const BdaBuffer& x = *next->bda.back();
      got = x.GetFlags(); gotD = x.GetData();
      for (size_t bl = 0; bl < nbl; ++bl) gotU[bl] = x.GetRows()[bl].uvw;
    } else {
      Buf b = makeBuf(nbl, nch, ncr, time, 2);
      for (size_t i = 0; i < n; ++i) { b->GetFlags().data()[i] = f[i]; b->GetData().data()[i] = d[i]; }
      for (size_t i = 0; i < nbl * 3; ++i) b->GetUvw().data()[i] = u[i];
      fl->process(std::move(b));
      sym_assert(int(next->out.size()) == t + 1, "passed on");
      const DPBuffer& x = *next->out.back();
      got = x.GetFlags().data(); gotD = x.GetData().data();
      for (size_t bl = 0; bl < nbl; ++bl) gotU[bl] = x.GetUvw().data() + 3 * bl;
    }
    size_t i = 0;
    for (size_t bl = 0; bl < nbl; ++bl) {
      double x = u[3 * bl], y = u[3 * bl + 1], z = u[3 * bl + 2];
      for (int c = 0; c < 3; ++c) sym_close(gotU[bl][c], u[3 * bl + c], "the coordinates are unchanged");
      if (center) { x = ku[0] * (a2[bl] - a1[bl]) + time; y = ku[1] * a2[bl] - time; z = ku[2] + a1[bl] * 3.0; }
      for (double fr : freqs[bl]) {
        const double rec = fr * (1.0 / casacore::C::c), m = 1e-6;
        const bool surely = expect(x, y, z, rec, m), maybe = expect(x, y, z, rec, -m);
        for (size_t k = 0; k < ncr; ++k, ++i) {
          sym_assert(sym_or(!sym_or(bool(f[i]), surely), bool(got[i])), "flagged before, or in one of the ranges");
          sym_assert(sym_or(sym_or(bool(f[i]), maybe), !bool(got[i])), "not flagged otherwise");
          closec(gotD[i], std::complex<double>(d[i].real(), d[i].imag()), "the data are unchanged");
        }
        ++total;
        if (bool(got[i - ncr]) && !f[i - ncr]) ++newly;
      }
    }
  }
  fl->finish();
  sym_assert(next->finished == 1, "the next step is finished");
  if (sym_param(9)) {
    std::ostringstream os;
    fl->showCounts(os);
    const std::string s = os.str();
    if (!any) sym_assert(s.empty(), "no counts");
    else {
      const size_t at = s.find("% "), open = s.find("(" , s.find("Total flagged"));
      sym_assert(open != std::string::npos && s.compare(open, s.find(" vis", open) - open, "(" + std::to_string(newly) + " out of " + std::to_string(total)) == 0, "count of newly flagged visibilities");
      sym_reach("counts");
    }
  }
  sym_reach(any ? (bda ? "bda" : "regular") : "nothing");
}
static void bad() {
  const int what = sym_param(1);
  DPInfo info(1, 1);
  setAnts(info, 3, {0}, {1});
  info.setTimes(0, 0, 10);
  setChans(info, 1);
  ParameterSet p;
  if (what == 0) p.add("f.umrange", "[20-30]");
  if (what == 1) p.add("f.umrange", "[20..3x]");
  if (what == 2) { p.add("f.ummin", "1"); p.add("f.phasecenter", "[0.5,0.25,J2000,J2000]"); }
  if (what == 3) { p.add("f.ummin", "1"); p.add("f.phasecenter", "[x,0.25]"); }
  if (what == 4) { p.add("f.ummin", "1"); p.add("f.phasecenter", "[0.5,y]"); }
  bool threw = false;
  try { UVWFlagger f(p, "f.", Step::MsType::kRegular); f.updateInfo(info); } catch (std::exception&) { threw = true; }
  sym_assert(threw, "refused");
  sym_reach("refused");
}
extern "C" void harness() {
  switch (sym_param(0)) {
    case 0: run(false); break;
    case 1: run(true); break;
    case 2: bad(); break;
  }
}
