// C32: upsampling in time.
#include "steps.h"
#include "base/UVWCalculator.h"
#include "steps/Upsample.h"
using dp3::steps::Upsample;
// The coordinates of the baselines: any function of the two stations and the time.
static double ku[3];
namespace dp3::base {
UVWCalculator::UVWCalculator(const casacore::MDirection&, const casacore::MPosition&, const std::vector<casacore::MPosition>&) {}
std::array<double, 3> UVWCalculator::getUVW(unsigned a, unsigned b, double t) { return {ku[0] * a + t, ku[1] * b - t, ku[2] + a * 3.0 + b}; }
}
static void run() {
  const int nt = sym_param(1);
  const unsigned n = sym_param(2);
  const bool uvw = sym_param(3), viaParset = sym_param(4);
  const size_t nbl = 2, nch = sym_param(5), ncr = 1, N = nbl * nch * ncr;
  // gaps between the input times, in output intervals; the exact times are up to a fifth of that off
  std::vector<int> gap;
  for (int t = 0; t + 1 < nt; ++t) gap.push_back(sym_param(6 + t));
  DPInfo info(ncr, nch);
  setAnts(info, 3, {0, 1}, {1, 2});
  const double sub = 5.0, iv = sub * n;
  info.setTimes(0, (nt - 1) * iv, iv);
  setChans(info, nch);
  for (double& k : ku) k = sym_f64("uvwscale");
  ParameterSet p;
  p.add("u.timestep", std::to_string(n));
  if (uvw) p.add("u.updateuvw", "true");
  auto up = viaParset ? std::make_shared<Upsample>(p, "u.") : std::make_shared<Upsample>("u", n, uvw);
  auto next = std::make_shared<Capture>();
  up->setNextStep(next);
  up->setInfo(info);
  sym_close(up->getInfoOut().timeInterval(), sub, "interval of the output");
  sym_assert(up->getInfoOut().ntime() == nt * n && next->getInfoIn().ntime() == nt * n, "number of times");
  sym_assert((up->getRequiredFields().Uvw() && up->getProvidedFields().Uvw()) == uvw, "fields");
  struct In { std::vector<C> d; std::vector<char> f; std::vector<float> w; std::vector<double> u; double t, e; bool all; };
  std::vector<In> in;
  double base = 1000.0;
  for (int t = 0; t < nt; ++t) {
    In x;
    const double j = sym_f64("jitter");
    sym_assume(sym_and(j >= -0.5, j <= 0.5));
    if (t) base += gap[t - 1] * sub;
    x.t = base + (sym_param(5) > 1 && t && gap[t - 1] == 0 ? 0 : j);
    if (t && gap[t - 1] == 0) sym_assume(x.t >= in.back().t);
    x.e = sym_f64("exposure");
    x.all = true;
    Buf b = makeBuf(nbl, nch, ncr, x.t, x.e);
    for (size_t i = 0; i < N; ++i) {
      x.d.push_back(symc("data")); x.w.push_back(sym_f32("weight")); x.f.push_back(symflag("flag"));
      x.all = x.all && x.f[i];
      b->GetData().data()[i] = x.d[i]; b->GetWeights().data()[i] = x.w[i]; b->GetFlags().data()[i] = x.f[i];
    }
    for (size_t i = 0; i < nbl * 3; ++i) { x.u.push_back(sym_f64("uvw")); b->GetUvw().data()[i] = x.u[i]; }
    in.push_back(x);
    up->process(std::move(b));
  }
  up->finish();
  sym_assert(next->finished == 1, "the next step is finished");
  // what must come out: every part of every input, where of two parts at the same time the later one is left out when its input is flagged completely, else the earlier one
  std::vector<std::pair<int, int>> want;
  int pos = 0;
  bool over = false;
  for (int t = 0; t < nt; ++t) {
    for (int i = 0; i < int(n); ++i) {
      const bool later = t + 1 < nt && i - gap[t] >= 0 && i - gap[t] < int(n), earlier = t > 0 && i + gap[t - 1] < int(n);
      over = over || later || earlier;
      if (later && !in[t + 1].all) continue;
      if (earlier && in[t].all) continue;
      want.push_back({t, i});
    }
  }
  sym_assert(next->out.size() == want.size(), "each time once");
  for (size_t k = 0; k < want.size() && k < next->out.size(); ++k) {
    const DPBuffer& b = *next->out[k];
    const In& x = in[want[k].first];
    const double t = x.t + sub * (want[k].second - 0.5 * (n - 1.0));
    sym_close(b.GetTime(), t, "centre of the part of the interval");
    sym_close(b.GetExposure() * n, x.e, "equal share of the exposure");
    sym_assert(b.GetData().size() == N && b.GetFlags().size() == N && b.GetWeights().size() == N && b.GetUvw().size() == nbl * 3, "shapes");
    for (size_t i = 0; i < N; ++i) {
      closec(b.GetData().data()[i], x.d[i], "data are those of the input");
      sym_assert(b.GetFlags().data()[i] == bool(x.f[i]), "flags are those of the input");
      sym_close(b.GetWeights().data()[i], x.w[i], "weights are those of the input");
    }
    for (size_t bl = 0; bl < nbl; ++bl) {
      const double want3[3] = {ku[0] * bl + t, ku[1] * (bl + 1) - t, ku[2] + bl * 3.0 + (bl + 1)};
      for (int c = 0; c < 3; ++c) sym_close(b.GetUvw()(bl, c), uvw ? want3[c] : x.u[bl * 3 + c], "uvw");
    }
    pos += want[k].second;
  }
  sym_reach(over ? "overlap" : "disjoint");
}
static void refuse() {
  bool threw = false;
  const unsigned n = sym_concretize(sym_choose(0, 4, "n"));
  try { Upsample u("u", n, false); } catch (std::invalid_argument&) { threw = true; }
  sym_assert(threw == (n <= 1), "a step below two is refused");
  sym_reach("refuse");
}
static void none() {  // no data at all
  DPInfo info(1, 1);
  setAnts(info, 2, {0}, {1});
  info.setTimes(0, 0, 10);
  setChans(info, 1);
  auto up = std::make_shared<Upsample>("u", unsigned(sym_param(1)), false);
  auto next = std::make_shared<Capture>();
  up->setNextStep(next);
  up->setInfo(info);
  up->finish();
  sym_assert(next->out.empty() && next->finished == 1, "nothing in, nothing out");
  sym_reach("none");
}
extern "C" void harness() {
  switch (sym_param(0)) {
    case 0: run(); break;
    case 1: refuse(); break;
    case 2: none(); break;
  }
}
