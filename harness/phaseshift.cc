// C35: shifting the phase centre.
#include "steps.h"
#include "steps/PhaseShift.h"
using dp3::steps::PhaseShift;
typedef std::complex<double> Z;
static double newRa, newDec;
static int reads;
bool casacore::MVAngle::read(Quantity& r, const std::string& s, bool) { ++reads; if (s == "RA") r = Quantity(newRa, "rad"); else if (s == "DEC") r = Quantity(newDec, "rad"); else return false; return true; }
casacore::MDirection casacore::MDirection::makeMDirection(const std::string& n) { sym_assert(n == "CygA", "the named source"); return MDirection(MVDirection(newRa, newDec)); }
struct V3 { double x, y, z; };
static double dot(const V3& a, const double* b) { return a.x * b[0] + a.y * b[1] + a.z * b[2]; }
struct Axes { V3 u, v, w; };
static Axes axes(double ra, double dec) {  // towards the east, the north and the direction
  const double sr = sin(ra), cr = cos(ra), sd = sin(dec), cd = cos(dec);
  return {{-sr, cr, 0}, {-cr * sd, -sr * sd, cd}, {cr * cd, sr * cd, sd}};
}
static void near(double a, double b, bool fixed, const char* m) { if (fixed) sym_assert(sym_and(a - b < 1e-5, b - a < 1e-5), m); else sym_close(a, b, m); }
static std::vector<double> freqs(int n) { std::vector<double> f; for (int i = 0; i < n; ++i) { f.push_back(sym_f64("frequency")); sym_assume(sym_and(f[i] > 1e6, f[i] < 1e9)); } return f; }
static void run(bool generic, bool fixed = false) {
  const int how = sym_param(1);  // 0: right ascension and declination, 1: a name, 2: nothing given: the original centre
  const size_t nbl = sym_param(2), nch = sym_param(3), ncr = sym_param(4);
  const int nt = sym_param(5), again = sym_param(6);
  const double oldRa = generic ? sym_f64("ra") : 0.5, oldDec = generic ? sym_f64("dec") : 0.25;
  newRa = generic ? sym_f64("newra") : 0.75; newDec = generic ? sym_f64("newdec") : -0.5;
  if (generic) for (double a : {oldRa, oldDec, newRa, newDec}) sym_assume(sym_and(a > -1.5, a < 1.5));
  using casacore::MDirection; using casacore::MVDirection;
  const MDirection oldDir(MVDirection(oldRa, oldDec)), newDir(MVDirection(newRa, newDec));
  ParameterSet p;
  p.add("p.phasecenter", how == 0 ? "[RA,DEC]" : how == 1 ? "[CygA]" : "[]");
  auto ps = std::make_shared<PhaseShift>(p, "p.");
  auto next = std::make_shared<Capture>();
  ps->setNextStep(next);
  std::vector<double> f;
  for (int k = 0; k <= again; ++k) {  // the description may be given more than once
    DPInfo info(ncr, nch + again - k);
    std::vector<int> a1(nbl, 0), a2;
    for (size_t b = 0; b < nbl; ++b) a2.push_back(b + 1);
    setAnts(info, nbl + 1, a1, a2);
    info.setTimes(0, (nt - 1) * 10.0, 10);
    if (fixed) { f.clear(); for (size_t i = 0; i < nch + again - k; ++i) f.push_back(1e8 + 1e7 * i - 3e6 * k); } else f = freqs(nch + again - k);
    auto f2 = f;
    info.setChannels(std::move(f2), std::vector<double>(f.size(), 1e5));
    info.setArrayInformation(casacore::MPosition(), how == 2 ? newDir : oldDir, oldDir, oldDir);
    if (how == 2) info.setPhaseCenter(oldDir);
    ps->setInfo(info);
  }
  const auto pc = ps->getInfoOut().phaseCenter().getValue().get();
  sym_assert(sym_and(pc[0] == newRa, pc[1] == newDec), "the phase centre of the output");
  sym_assert(ps->getRequiredFields().Data() && ps->getRequiredFields().Uvw() && ps->getProvidedFields().Data() && ps->getProvidedFields().Uvw(), "fields");
  const Axes o = axes(oldRa, oldDec), n = axes(newRa, newDec);
  for (int t = 0; t < nt; ++t) {
    Buf b = makeBuf(nbl, nch, ncr, t, 10);
    std::vector<C> d;
    std::vector<double> u;
    for (size_t i = 0; i < nbl * nch * ncr; ++i) { d.push_back(symc("data")); if (fixed) for (double a : {d[i].real(), d[i].imag()}) sym_assume(sym_and(a > -1, a < 1)); b->GetData().data()[i] = d[i]; b->GetFlags().data()[i] = i % 3 == 0; b->GetWeights().data()[i] = i + 1; }
    for (size_t i = 0; i < nbl * 3; ++i) { u.push_back(fixed ? 3.0 * i - 7.5 * t - 2.25 : sym_f64("uvw")); b->GetUvw().data()[i] = u[i]; }
    ps->process(std::move(b));
    sym_assert(int(next->out.size()) == t + 1, "passed on");
    const DPBuffer& x = *next->out.back();
    size_t i = 0;
    for (size_t bl = 0; bl < nbl; ++bl) {
      // the baseline itself, in coordinates that do not depend on the direction
      const double* q = &u[3 * bl];
      const double xyz[3] = {q[0] * o.u.x + q[1] * o.v.x + q[2] * o.w.x, q[0] * o.u.y + q[1] * o.v.y + q[2] * o.w.y, q[0] * o.u.z + q[1] * o.v.z + q[2] * o.w.z};
      const double want[3] = {dot(n.u, xyz), dot(n.v, xyz), dot(n.w, xyz)};
      for (int c = 0; c < 3; ++c) near(x.GetUvw()(bl, c), want[c], fixed, "the baseline seen from the new direction");
      const double shift = dot(o.w, xyz) - want[2];  // the change of the geometric path
      for (size_t ch = 0; ch < nch; ++ch) {
        const double phase = shift * (2.0 * M_PI * f[ch] / casacore::C::c);
        const Z ph(cos(phase), sin(phase));
        near(ps->getPhasors()(bl, ch).real(), ph.real(), fixed, "the phasors"); near(ps->getPhasors()(bl, ch).imag(), ph.imag(), fixed, "the phasors");
        for (size_t k = 0; k < ncr; ++k, ++i) {
          const Z want = Z(d[i].real(), d[i].imag()) * ph; near(x.GetData().data()[i].real(), want.real(), fixed, "the data are turned by the change of the path"); near(x.GetData().data()[i].imag(), want.imag(), fixed, "the data are turned by the change of the path");
          sym_assert(bool(x.GetFlags().data()[i]) == (i % 3 == 0) && x.GetWeights().data()[i] == i + 1, "flags and weights are unchanged");
        }
      }
    }
  }
  ps->finish();
  sym_assert(next->finished == 1, "the next step is finished");
  sym_reach(generic ? "anywhere" : "shift");
}
static void bad() {
  const int what = sym_param(1);
  ParameterSet p;
  const char* v[] = {"[RA,DEC,J2000]", "[x,DEC]", "[RA,y]"};
  p.add("p.phasecenter", v[what]);
  DPInfo info(1, 1);
  setAnts(info, 2, {0}, {1});
  setChans(info, 1);
  bool threw = false;
  try { PhaseShift ps(p, "p."); ps.updateInfo(info); } catch (std::runtime_error&) { threw = true; }
  sym_assert(threw, "refused");
  sym_reach("refused");
}
extern "C" void harness() {
  switch (sym_param(0)) {
    case 0: run(true); break;
    case 1: run(false); break;
    case 2: bad(); break;
    case 3: run(false, true); break;
  }
}
