// C41: stations added up to a superstation.
#include <cstring>
#include "steps.h"
#include "steps/StationAdder.h"
#include "base/UVWCalculator.h"
using dp3::steps::StationAdder;
// Coordinates of a new baseline that cannot be averaged: a function of antennas, positions and time.
static int nCalc;
static double calcX;
namespace dp3 { namespace base {
UVWCalculator::UVWCalculator(const casacore::MDirection& d, const casacore::MPosition& p, const std::vector<casacore::MPosition>& a) { sym_assert(d.getValue().get()[0] == 0.25 && p.getValue().getValue()[0] == 7, "the direction and the place of calculated coordinates"); nCalc = a.size(); calcX = a.back().getValue().getValue()[0]; }
std::array<double, 3> UVWCalculator::getUVW(unsigned a, unsigned b, double t) { return {100.0 * a + b, t, -1.0 * a}; }
} }
static const char* const kNames[] = {"cs.1", "cs.2", "cs01", "rs.1", "rs12"};
struct Super { const char* name; std::vector<int> parts; };
struct Menu { const char* text; std::vector<Super> supers; };
static const std::vector<Menu>& menu() {
  static const std::vector<Menu> m = {
      {"{S:['cs.1','cs.2']}", {{"S", {0, 1}}}},
      {"{S:'cs*'}", {{"S", {0, 1, 2}}}},
      {"{S:['*','!cs*']}", {{"S", {3, 4}}}},
      {"{S:['cs.?','rs.1'],T:['rs12']}", {{"S", {0, 1, 3}}, {"T", {4}}}},
      {"{B:['cs.1','rs.1'],A:['cs.2','cs01']}", {{"A", {1, 2}}, {"B", {0, 3}}}},
      {"{S:['xs*'],T:['rs.1','cs01']}", {{"T", {2, 3}}}},
      {"{S:[cs.1..2],T:['^cs.1','r?12','cs01','^r*','rs.1']}", {{"S", {0, 1}}, {"T", {2, 3}}}},
      {"{S:['none']}", {}}};
  return m;
}
struct Row { int a1, a2; std::vector<C> d; std::vector<char> f; std::vector<double> w; std::array<double, 3> u; };
static void world(DPInfo& info, int nant, int nch, const std::vector<int>& a1, const std::vector<int>& a2, const std::vector<std::array<double, 3>>& place, const std::vector<double>& diam) {
  std::vector<std::string> n;
  std::vector<casacore::MPosition> pos;
  for (int i = 0; i < nant; ++i) { n.push_back(kNames[i]); pos.push_back(casacore::MPosition(casacore::MVPosition(place[i][0], place[i][1], place[i][2]), casacore::MPosition::ITRF)); }
  info.setAntennas(n, diam, pos, a1, a2);
  setChans(info, nch);
  info.setArrayInformation(casacore::MPosition(casacore::MVPosition(7, 8, 9), casacore::MPosition::ITRF), casacore::MDirection(casacore::MVDirection(0.25, 0.125)), casacore::MDirection(), casacore::MDirection());
}
static const std::vector<std::array<double, 3>> kPlace = {{0, 0, 0}, {6, 8, 0}, {0, 0, 24}, {-30, 40, 0}, {12, -16, 48}};
static const std::vector<double> kDiam = {30, 40, 35, 28, 31};
static const std::vector<std::pair<int, int>> kLists[] = {
    {{0, 1}, {0, 2}, {1, 2}},
    {{0, 2}, {2, 1}, {1, 1}, {0, 0}, {0, 1}, {1, 0}},
    {{3, 0}, {1, 3}, {2, 4}, {4, 0}},
    {{0, 1}, {0, 2}, {3, 1}, {2, 3}, {3, 4}, {3, 3}},
    {{2, 2}, {3, 2}, {4, 4}, {3, 4}}};
static void add() {
  const Menu& m = menu()[sym_param(1)];
  const auto& list = kLists[sym_param(2)];
  const int nch = sym_param(3), ncr = sym_param(4), opt = sym_param(5), minp = sym_param(6), pattern = sym_param(7);
  const bool autocorr = opt & 1, sumauto = !(opt & 2), average = !(opt & 4), useweights = !(opt & 8);
  DPInfo info(ncr, nch);
  std::vector<int> a1, a2;
  for (auto& b : list) { a1.push_back(b.first); a2.push_back(b.second); }
  world(info, 5, nch, a1, a2, kPlace, kDiam);
  ParameterSet p;
  p.add("p.stations", m.text);
  if (minp >= 0) p.add("p.minpoints", std::to_string(minp));
  if (autocorr) p.add("p.autocorr", "true");
  if (!sumauto) p.add("p.sumauto", "false");
  if (!average) p.add("p.average", "false");
  if (!useweights) p.add("p.useweights", "false");
  const size_t least = minp < 0 ? 1 : minp;
  auto step = std::make_shared<StationAdder>(p, "p.");
  auto next = std::make_shared<Capture>();
  step->setNextStep(next);
  step->setInfo(info);
  const Fields need = step->getRequiredFields(), give = step->getProvidedFields();
  sym_assert(need.Data() && need.Flags() && need.Weights() && need.Uvw() && give.Data() && give.Flags() && give.Weights() && give.Uvw(), "the fields used");
  // what is expected: stations and baselines
  const DPInfo& out = step->getInfoOut();
  const size_t nsup = m.supers.size(), n = nch * ncr;
  sym_assert(out.antennaNames().size() == 5 + nsup && out.antennaPos().size() == 5 + nsup && out.antennaDiam().size() == 5 + nsup, "the number of stations");
  for (int i = 0; i < 5; ++i) sym_assert(out.antennaNames()[i] == kNames[i] && out.antennaDiam()[i] == kDiam[i] && out.antennaPos()[i].getValue().getValue()[0] == kPlace[i][0], "the old stations");
  sym_assert(out.metaChanged(), "the description changed");
  std::vector<int> where(nsup, -1);
  for (size_t s = 0; s < nsup; ++s) {
    for (size_t i = 5; i < 5 + nsup; ++i) if (out.antennaNames()[i] == m.supers[s].name) where[s] = i;
    sym_assert(where[s] >= 0, "the new stations are there");
    const auto& q = m.supers[s].parts;
    for (int k = 0; k < 3; ++k) { double sum = 0; for (int i : q) sum += kPlace[i][k]; sym_close(out.antennaPos()[where[s]].getValue().getValue()[k] * q.size(), sum, "a new station is in the middle of its parts"); }
    sym_assert(where[s] == int(5 + s), "new stations in the order of their names");
  }
  std::vector<Row> rows;
  float x = 1;
  for (size_t i = 0; i < list.size(); ++i) {
    Row r{list[i].first, list[i].second, {}, {}, {}, {}};
    for (size_t k = 0; k < n; ++k) {
      r.d.push_back(symc("data"));
      sym_assume(sym_and(sym_and(r.d[k].real() > -1000, r.d[k].real() < 1000), sym_and(r.d[k].imag() > -1000, r.d[k].imag() < 1000)));
      const bool f = pattern == 9 ? (x += 1, int(x) % 3 == 0) : pattern ? (i + k / ncr + pattern) % 2 : k % ncr ? bool(r.f[k - k % ncr]) : symflag("flag");
      r.f.push_back(f);
      const float w = sym_f32("weight");
      sym_assume(sym_and(w > 0.001f, w < 1000));
      r.w.push_back(w);
    }
    for (double& u : r.u) { u = sym_f64("uvw"); sym_assume(sym_and(u > -1000, u < 1000)); }
    rows.push_back(r);
  }
  // the buffers
  const size_t nbl = list.size();
  Buf b = makeBuf(nbl, nch, ncr, 5000, 4);
  for (size_t i = 0; i < nbl; ++i) {
    for (size_t k = 0; k < n; ++k) { b->GetData().data()[i * n + k] = rows[i].d[k]; b->GetFlags().data()[i * n + k] = rows[i].f[k]; b->GetWeights().data()[i * n + k] = float(rows[i].w[k]); }
    for (int k = 0; k < 3; ++k) b->GetUvw().data()[3 * i + k] = rows[i].u[k];
  }
  step->process(std::move(b));
  sym_assert(next->out.size() == 1, "one buffer for one buffer");
  DPBuffer& o = *next->out[0];
  sym_assert(o.GetTime() == 5000 && o.GetExposure() == 4, "time and exposure");
  const size_t total = out.nbaselines();
  sym_assert(o.GetData().shape()[0] == total && o.GetFlags().shape()[0] == total && o.GetWeights().shape()[0] == total && o.GetUvw().shape()[0] == total && o.GetData().shape()[1] == size_t(nch) && o.GetData().shape()[2] == size_t(ncr), "the shapes of the result");
  sym_assert(out.getAnt1().size() == total && out.getAnt2().size() == total && total >= nbl, "the baselines");
  bool kept = true;
  for (size_t i = 0; i < nbl; ++i) {
    sym_assert(out.getAnt1()[i] == a1[i] && out.getAnt2()[i] == a2[i], "the old baselines come first");
    for (size_t k = 0; k < n; ++k) kept = sym_and(kept, sym_and(sym_and(o.GetData().data()[i * n + k].real() == rows[i].d[k].real(), o.GetData().data()[i * n + k].imag() == rows[i].d[k].imag()), sym_and(o.GetFlags().data()[i * n + k] == bool(rows[i].f[k]), double(o.GetWeights().data()[i * n + k]) == rows[i].w[k])));
    for (int k = 0; k < 3; ++k) kept = sym_and(kept, o.GetUvw().data()[3 * i + k] == rows[i].u[k]);
  }
  sym_assert(kept, "the old baselines are as they were");
  // the new baselines: added up by hand, from what the output holds for the baselines they are made of
  std::vector<char> seen(total);
  size_t expected = nbl;
  for (size_t s = 0; s < nsup; ++s) {
    const auto& q = m.supers[s].parts;
    auto member = [&](int a) { for (int i : q) if (i == a) return true; return false; };
    const size_t upto = expected;
    for (int other = 0; other <= where[s]; ++other) {  // the other end of a baseline
      std::vector<std::pair<int, bool>> use;
      for (size_t i = 0; i < upto; ++i) {
        const int x = out.getAnt1()[i], y = out.getAnt2()[i];
        if (other == where[s]) { if (autocorr && member(x) && member(y) && (x == y) == sumauto) use.push_back({i, false}); }
        else if (x == other && member(y) && !member(x)) use.push_back({i, false});
        else if (y == other && member(x) && !member(y)) use.push_back({i, true});
      }
      if (use.empty()) continue;
      ++expected;
      sym_assert(expected <= total, "all new baselines are there");
      int at = -1;
      for (size_t i = nbl; i < total; ++i) if (out.getAnt1()[i] == other && out.getAnt2()[i] == where[s]) { sym_assert(!seen[i] && at < 0, "a new baseline is formed once"); at = i; }
      sym_assert(at >= int(upto), "a new baseline is formed");
      seen[at] = 1;
      double uw = 0, us[3] = {0, 0, 0};
      bool right = true;
      for (size_t k = 0; k < n; ++k) {
        C sum(0, 0), sumF(0, 0);
        float w = 0, wF = 0;
        size_t points = 0;
        for (auto& e : use) {
          const C d = o.GetData().data()[e.first * n + k];
          const float g = useweights ? o.GetWeights().data()[e.first * n + k] : 1.0f;
          const C v = C(d.real() * g, e.second ? -d.imag() * g : d.imag() * g);
          if (o.GetFlags().data()[e.first * n + k]) { sumF += v; wF += g; }
          else { ++points; sum += v; w += g; uw += g; for (int u = 0; u < 3; ++u) us[u] += (e.second ? -1.0 : 1.0) * g * o.GetUvw().data()[3 * e.first + u]; }
        }
        const bool flag = points == 0 || points < least;
        if (flag) { sum += sumF; w += wF; sym_reach("few"); } else sym_reach("enough");
        const C got = o.GetData().data()[at * n + k];
        sym_assert(o.GetFlags().data()[at * n + k] == flag, "flagged if too few points are not");
        right = sym_and(right, o.GetWeights().data()[at * n + k] == w);
        if (average) right = sym_and(right, sym_and(got.real() * w == sum.real(), got.imag() * w == sum.imag()));
        else right = sym_and(right, sym_and(got.real() == sum.real(), got.imag() == sum.imag()));
      }
      sym_assert(right, "a new baseline is the (weighted) sum of its parts");
      const double* u = o.GetUvw().data() + 3 * at;
      if (average && uw != 0) { sym_assert(sym_and(sym_and(u[0] * uw == us[0], u[1] * uw == us[1]), u[2] * uw == us[2]), "coordinates are averaged"); sym_reach("uvw"); }
      else { sym_assert(u[0] == 100.0 * other + where[s] && u[1] == 5000 && u[2] == -1.0 * other, "coordinates are calculated"); sym_assert(nCalc == int(5 + nsup) && calcX == out.antennaPos().back().getValue().getValue()[0], "for all stations"); sym_reach("calc"); }
    }
  }
  sym_assert(expected == total, "no other baselines are formed");
  if (nsup == 0) sym_reach("nothing");
  step->finish();
  sym_assert(next->finished == 1, "the end is passed on");
}
// Where a superstation is and how large, for any places of its parts.
static void place() {
  const int n = sym_param(1);
  std::vector<std::array<double, 3>> at(n);
  std::vector<double> diam(n);
  for (int i = 0; i < n; ++i) { for (int k = 0; k < 3; ++k) { at[i][k] = sym_f64("place"); sym_assume(sym_and(at[i][k] > -1000, at[i][k] < 1000)); } diam[i] = sym_f64("diameter"); sym_assume(sym_and(diam[i] > 0, diam[i] < 100)); }
  DPInfo info(1, 1);
  world(info, n, 1, {0}, {n - 1}, at, diam);
  ParameterSet p;
  p.add("p.stations", "{S:'?s*'}");
  StationAdder step(p, "p.");
  step.setInfo(info);
  const DPInfo& o = step.getInfoOut();
  sym_assert(int(o.antennaNames().size()) == n + 1, "a station is added");
  const casacore::Vector<double> c = o.antennaPos()[n].getValue().getValue();
  for (int k = 0; k < 3; ++k) { double s = 0; for (int i = 0; i < n; ++i) s += at[i][k]; sym_assert(c[k] * n == s, "a new station is in the middle of its parts"); }
  bool reached = false;
  for (int i = 0; i < n; ++i) {
    double d2 = 0;
    for (int k = 0; k < 3; ++k) d2 += (at[i][k] - c[k]) * (at[i][k] - c[k]);
    const double room = 0.5 * o.antennaDiam()[n] - 0.5 * diam[i];
    sym_assert(sym_and(room >= 0, room * room >= d2), "a new station covers its parts");
    reached = sym_or(reached, room * room == d2);
  }
  sym_assert(reached, "a new station is no larger than needed");
  sym_reach("place");
}
// Patterns of names, any characters in the names.
static bool glob(const char* p, const char* s) {
  if (!*p) return !*s;
  if (*p == '*') { for (const char* q = s;; ++q) { if (glob(p + 1, q)) return true; if (!*q) return false; } }
  return *s && (*p == '?' || *p == *s) && glob(p + 1, s + 1);
}
static void match() {
  static const std::vector<std::vector<std::string>> sets = {{"a.b"}, {"a*"}, {"*b"}, {"?b"}, {"a?", "!ab"}, {"*", "^?.*"}, {"!a*", "*a"}, {"a*b", "!a.*", "a.b"}, {"*.*"}, {}};
  const auto& q = sets[sym_param(1)];
  const int n = sym_param(2), len = sym_param(3);
  std::vector<std::string> names;
  for (int i = 0; i < n; ++i) { std::string s; for (int k = 0; k < len; ++k) s += "ab."[sym_concretize(sym_choose(0, 2, "char"))]; names.push_back(s); }
  const std::vector<int> got = StationAdder::GetMatchingStations(names, q);
  std::vector<int> want;
  for (int i = 0; i < n; ++i) { bool in = false; for (auto& e : q) { const bool no = e.size() > 1 && (e[0] == '!' || e[0] == '^'); if (glob(e.c_str() + no, names[i].c_str())) in = !no; } if (in) want.push_back(i); }
  sym_assert(got == want, "the stations that match");
  sym_reach("match");
}
// What is refused.
static void refuse() {
  static const char* const text[] = {"{'cs.1':['cs.2']}", "{S:['cs.1','cs.2'],T:['cs.2','rs.1']}", "{S:['cs*'],T:['*']}"};
  DPInfo info(1, 1);
  world(info, 5, 1, {0, 1}, {1, 2}, kPlace, kDiam);
  ParameterSet p;
  p.add("p.stations", text[sym_param(1)]);
  bool thrown = false;
  try { StationAdder step(p, "p."); step.setInfo(info); } catch (const std::runtime_error&) { thrown = true; }
  sym_assert(thrown, "a station used twice or a name in use is refused");
  sym_reach("refused");
}
// The tables of the measurement set written.
static void tables() {
  const int lofar = sym_param(2), fields = sym_param(3);
  const Menu& m = menu()[sym_param(1)];
  const int nsup = m.supers.size();
  DPInfo info(1, 1);
  world(info, 5, 1, {0, 1}, {1, 2}, kPlace, kDiam);
  ParameterSet p;
  p.add("p.stations", m.text);
  auto step = std::make_shared<StationAdder>(p, "p.");
  step->setInfo(info);
  auto table = [](const char* n, int rows) { auto t = std::make_shared<casacore::TableData>(); t->rows = rows; casacore::writtenTables()[n] = t; return t; };
  table("out.ms", 0);
  auto a = table("out.ms/ANTENNA", 5), f = table("out.ms/FEED", 5);
  int clocks[5], ids[5];
  for (int i = 0; i < 5; ++i) {
    a->text["NAME"][i] = kNames[i]; a->text["TYPE"][i] = "GROUND"; a->text["MOUNT"][i] = i ? "other" : "X-Y"; a->number["DISH_DIAMETER"][i] = kDiam[i]; a->number["FLAG_ROW"][i] = 0;
    for (const char* c : {"POSITION", "LOFAR_PHASE_REFERENCE"}) if (lofar || *c == 'P') { casacore::Array<casacore::MPosition> x(casacore::IPosition(1, 1)); a->array[c][i] = std::make_shared<casacore::Array<casacore::MPosition>>(x); }
    a->array["OFFSET"][i] = std::make_shared<casacore::Array<double>>(casacore::IPosition(1, 3));
    if (lofar) { a->text["STATION"][i] = "LOFAR"; ids[i] = 4 - i; a->number["LOFAR_STATION_ID"][i] = ids[i]; }
    f->number["ANTENNA_ID"][i] = i; f->number["SPECTRAL_WINDOW_ID"][i] = 10 + i; f->text["POLARIZATION_TYPE"][i] = i ? "R" : "X";
  }
  std::shared_ptr<casacore::TableData> af, st;
  std::vector<int> owner;
  if (lofar) {
    af = table("out.ms/LOFAR_ANTENNA_FIELD", fields), st = table("out.ms/LOFAR_STATION", 5);
    for (int i = 0; i < fields; ++i) { owner.push_back(sym_concretize(sym_choose(0, 4, "field of antenna"))); af->number["ANTENNA_ID"][i] = owner[i]; af->text["NAME"][i] = std::string("f") + char('0' + i); }
    if (!fields) { af->number["ANTENNA_ID"]; }
    for (int i = 0; i < 5; ++i) { clocks[i] = sym_concretize(sym_choose(0, i < 2 ? 2 : 1, "clock")); st->number["CLOCK_ID"][i] = clocks[i]; st->text["NAME"][i] = kNames[4 - i]; st->number["FLAG_ROW"][i] = 0; }
  }
  step->addToMS("out.ms");
  sym_assert(int(a->rows) == 5 + nsup && int(f->rows) == 5 + nsup, "a row for each new station");
  for (int i = 0; i < 5; ++i) sym_assert(a->text["NAME"][i] == kNames[i] && a->number["DISH_DIAMETER"][i] == kDiam[i] && a->text["MOUNT"][i] == (i ? "other" : "X-Y") && f->number["ANTENNA_ID"][i] == i, "the rows of the old stations");
  for (int s = 0; s < nsup; ++s) {
    const int r = 5 + s;
    sym_assert(a->text["NAME"][r] == m.supers[s].name && a->text["TYPE"][r] == "GROUND" && a->text["MOUNT"][r] == "X-Y" && a->number["FLAG_ROW"][r] == 0, "the row of a new station");
    sym_assert(a->number["DISH_DIAMETER"][r] == step->getInfoOut().antennaDiam()[r], "its diameter");
    for (const char* c : {"POSITION", "LOFAR_PHASE_REFERENCE"}) if (lofar || *c == 'P') { auto& x = *static_cast<casacore::Array<casacore::MPosition>*>(a->array[c][r].get()); for (int k = 0; k < 3; ++k) sym_assert(x.data()->getValue().getValue()[k] == step->getInfoOut().antennaPos()[r].getValue().getValue()[k], "its position"); }
    auto& off = *static_cast<casacore::Array<double>*>(a->array["OFFSET"][r].get());
    sym_assert(off.size() == 3 && off.data()[0] == 0 && off.data()[1] == 0 && off.data()[2] == 0, "its offset");
    sym_assert(f->number["ANTENNA_ID"][r] == r && f->number["SPECTRAL_WINDOW_ID"][r] == 10 && f->text["POLARIZATION_TYPE"][r] == "X", "its feed");
    if (lofar) sym_assert(a->text["STATION"][r] == "LOFAR", "its station");
  }
  if (!lofar) { sym_reach("tables"); return; }
  // the fields of the parts
  std::vector<std::pair<int, std::string>> want;
  for (int i = 0; i < fields; ++i) for (int s = 0; s < nsup; ++s) for (int q : m.supers[s].parts) if (q == owner[i]) want.push_back({5 + s, std::string("f") + char('0' + i)});
  sym_assert(af->rows == fields + want.size(), "a field for each field of the parts");
  for (size_t i = 0; i < want.size(); ++i) sym_assert(af->number["ANTENNA_ID"][fields + i] == want[i].first && af->text["NAME"][fields + i] == want[i].second, "the field of a new station");
  for (int i = 0; i < fields; ++i) sym_assert(af->number["ANTENNA_ID"][i] == owner[i], "the old fields");
  // the stations: the clock of the parts if it is one
  sym_assert(int(st->rows) == 5 + nsup, "a LOFAR station for each new station");
  std::vector<int> used(clocks, clocks + 5);
  for (int s = 0; s < nsup; ++s) {
    bool one = true;
    const auto& q = m.supers[s].parts;
    for (int i : q) one = one && clocks[ids[i]] == clocks[ids[q[0]]];
    const int c = st->number["CLOCK_ID"][5 + s];
    if (one) sym_assert(c == clocks[ids[q[0]]], "a common clock is kept");
    else { for (int e : used) sym_assert(c != e, "a new clock if the parts differ"); used.push_back(c); sym_reach("new clock"); }
    sym_assert(st->text["NAME"][5 + s] == m.supers[s].name && st->number["FLAG_ROW"][5 + s] == 0 && a->number["LOFAR_STATION_ID"][5 + s] == 5 + s, "the LOFAR station");
  }
  sym_reach("lofar");
}
extern "C" void harness() {
  switch (sym_param(0)) {
    case 0: add(); break;
    case 1: place(); break;
    case 2: match(); break;
    case 3: refuse(); break;
    case 4: tables(); break;
  }
}
