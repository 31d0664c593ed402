// C39: selection of baselines and channels.
#include "steps.h"
#include "steps/Filter.h"
#include "base/BaselineSelection.h"
#include <EveryBeam/msreadutils.h>
using dp3::steps::Filter;
// ---- what only other parts of the reader need
bool casacore::MVTime::read(Quantity&, const std::string&, bool) { return false; }
bool casacore::MeasTable::Observatory(MPosition&, const String&) { return false; }
casacore::MDirection everybeam::ReadTileBeamDirection(const casacore::MeasurementSet&) { return casacore::MDirection(); }
casacore::TableExprNode casacore::MSSelection::toTableExprNode(const MeasurementSet*) const { return TableExprNode(); }
// Casacore's own expression for antennas selects any of the rows.
static std::vector<char> parsed;
casacore::TableExprNode casacore::msAntennaGramParseCommand(const Table& ants, const TableExprNode& c1, const TableExprNode&, const String& cmd, Vector<int>& s1, Vector<int>& s2, Matrix<int>&) {
  sym_assert(cmd == "ant0&&*;!ant1", "the expression is given to casacore as it is");
  sym_assert(c1.table->rows == parsed.size(), "the baselines are given to casacore");
  s1.resize(1); s2.resize(1); s1[0] = s2[0] = -3;  // as for a negated antenna
  TableExprNode n;
  n.table = c1.table;
  n.rowList = true;
  for (size_t i = 0; i < parsed.size(); ++i) if (parsed[i]) n.rows.push_back(i);
  return n;
}
enum { kNone, kAnt, kPair, kPattern, kAuto, kCross, kRange, kExpr, kExprAuto, kPairCross, kNothing, kList, kAll, kRangeAuto, kBad };
static bool ask(ParameterSet& p, int k) {
  static const char* text[] = {nullptr, "[ant1]", "[[ant0,ant2]]", "[ant[02]]", nullptr, nullptr, nullptr, "ant0&&*;!ant1", "ant0&&*;!ant1", "[[*,ant1]]", "[ant7]", "[[ant0,ant1],[ant2]]", "[*]", nullptr};
  if (text[k]) p.add("f.baseline", text[k]);
  if (k == kAuto || k == kExprAuto || k == kRangeAuto) p.add("f.corrtype", "auto");
  if (k == kCross || k == kPairCross) p.add("f.corrtype", "Cross");
  if (k == kRange) p.add("f.blrange", "[5,25,100,200]");
  if (k == kRangeAuto) p.add("f.blrange", "[0,25]");
  return k != kNone;
}
static bool keeps(int k, int a, int b, double x, size_t i, const std::vector<int>& a1, const std::vector<int>& a2) {
  auto expr = [&] { for (size_t j = 0; j < a1.size(); ++j) if (parsed[j] && ((a1[j] == a && a2[j] == b) || (a1[j] == b && a2[j] == a))) return true; return false; };
  const double l = x < 0 ? -x : x;
  switch (k) {
    case kNone: case kAll: return true;
    case kAnt: return a == 1 || b == 1;
    case kPair: return (a == 0 && b == 2) || (a == 2 && b == 0);
    case kPattern: return a == 0 || a == 2 || b == 0 || b == 2;
    case kAuto: return a == b;
    case kCross: return a != b;
    case kRange: return (l >= 5 && l <= 25) || (l >= 100 && l <= 200);
    case kRangeAuto: return a == b && l <= 25;
    case kExpr: return expr();
    case kExprAuto: return a == b && expr();
    case kPairCross: return a != b && (a == 1 || b == 1);
    case kList: return (a == 0 && b == 1) || (a == 1 && b == 0) || a == 2 || b == 2;
  }
  return false;
}
struct ChanExpr { const char *start, *n; };
static const ChanExpr chanExprs[] = {{nullptr, nullptr}, {"1", nullptr}, {nullptr, "2"}, {"nchan-1", "1"}, {"nchan/2", "nchan/2"}, {"1", "100"}, {"(nchan-2)*1", "1"}, {"nchan", nullptr}, {nullptr, "nchan"}};
static const int kPairs[][2] = {{1, 0}, {0, 2}, {1, 1}, {2, 1}, {0, 0}, {0, 1}, {2, 2}};
static bool chans(int e, int nch, int& start, int& n) {
  static const int first[] = {0, 1, 0, -1, -2, 1, -3, -4, 0}, count[] = {0, 0, 2, 1, -1, 100, 1, 0, 0};
  start = first[e] >= 0 ? first[e] : first[e] == -1 ? nch - 1 : first[e] == -2 ? nch / 2 : first[e] == -3 ? nch - 2 : nch;
  if (start >= nch) return false;
  n = count[e] == -1 ? nch / 2 : count[e];
  if (n == 0 || n > nch - start) n = nch - start;
  return true;
}
static void select() {
  const int kind = sym_param(1), nbl = sym_param(2), nch = sym_param(3), ncr = sym_param(4), ce = sym_param(5), remove = sym_param(6), rows = sym_param(7), again = sym_param(8), nant = sym_param(9), anyPairs = sym_param(10);
  ParameterSet p;
  bool asked = ask(p, kind);
  if (chanExprs[ce].start) { p.add("f.startchan", chanExprs[ce].start); asked = true; }
  if (chanExprs[ce].n) { p.add("f.nchan", chanExprs[ce].n); asked = true; }
  if (remove) { p.add("f.remove", "true"); asked = true; }
  auto step = std::make_shared<Filter>(p, "f.");
  auto next = std::make_shared<Capture>();
  step->setNextStep(next);
  const Fields req = step->getRequiredFields(), prov = step->getProvidedFields();
  sym_assert(req == prov && req.Data() == asked && req.Flags() == asked && req.Weights() == asked, "the fields of a selection");
  if (kind != kNone) sym_assert(req.Uvw(), "the coordinates of a selection of baselines");
  for (int round = 0; round < 1 + again; ++round) {
    const int h = nch - round;  // the second description has other baselines and fewer channels
    std::vector<int> a1, a2;
    for (int i = 0; i < nbl; ++i) {
      if (anyPairs) { a1.push_back(sym_concretize(sym_choose(0, nant - 1, "ant"))); a2.push_back(sym_concretize(sym_choose(0, nant - 1, "ant"))); }
      else { const int j = round ? (i * 2 + 1) % 5 : i; a1.push_back(kPairs[j][0]); a2.push_back(kPairs[j][1]); }
    }
    std::vector<double> x;
    for (int i = 0; i < nant; ++i) {
      x.push_back(kind == kRange || kind == kRangeAuto ? sym_f64("x") : 10.0 * i * i);
      sym_assume(sym_and(x[i] > -1000, x[i] < 1000));
    }
    parsed.assign(nbl, 0);
    if (kind == kExpr || kind == kExprAuto) for (char& c : parsed) c = symflag("selected");
    DPInfo info(ncr, h);
    setAnts(info, nant, a1, a2, x);
    setChans(info, h, 100e6, 2e6);
    info.setTimes(1000, 1020, 10);
    std::vector<int> kept;
    for (int i = 0; i < nbl; ++i) if (keeps(kind, a1[i], a2[i], x[a1[i]] - x[a2[i]], i, a1, a2)) kept.push_back(i);
    int c0 = 0, nc = h;
    const bool good = chans(ce, h, c0, nc) && !kept.empty();
    bool thrown = false;
    try { step->setInfo(info); } catch (const std::exception&) { thrown = true; }
    sym_assert(thrown == !good, "a selection of nothing, and only that, is refused");
    if (thrown) { sym_reach("refused"); return; }
    // the description
    const DPInfo& o = step->getInfoOut();
    sym_assert(int(o.nbaselines()) == int(kept.size()) && int(o.nchan()) == nc && int(o.ncorr()) == ncr && int(o.startchan()) == c0, "the sizes");
    std::vector<char> used(nant);
    for (int i : kept) used[a1[i]] = used[a2[i]] = 1;
    int n = 0;
    std::vector<int> id(nant, -1);
    for (int a = 0; a < nant; ++a) if (used[a] || !remove) id[a] = n++;
    sym_assert(int(o.nantenna()) == n && int(o.antennaNames().size()) == n && int(o.antennaPos().size()) == n && int(o.antennaDiam().size()) == n, "number of antennas");
    for (int a = 0; a < nant; ++a) if (id[a] >= 0) {
      sym_assert(o.antennaNames()[id[a]] == std::string("ant") + char('0' + a), "the name of an antenna");
      sym_assert(o.antennaPos()[id[a]].getValue().getValue()[0] == x[a], "the position of an antenna");
    }
    for (size_t i = 0; i < kept.size(); ++i) sym_assert(o.getAnt1()[i] == id[a1[kept[i]]] && o.getAnt2()[i] == id[a2[kept[i]]], "the antennas of a baseline");
    const std::vector<double>& len = o.getBaselineLengths();
    for (size_t i = 0; i < kept.size(); ++i) { const double d = x[a1[kept[i]]] - x[a2[kept[i]]]; sym_assert(sym_and(len[i] * len[i] == d * d, len[i] >= 0), "the length of a baseline"); }
    for (int i = 0; i < nc; ++i) sym_assert(o.chanFreqs()[i] == 100e6 + 2e6 * (c0 + i) && o.chanWidths()[i] == 2e6, "the channels");
    sym_assert(o.totalBW() == 2e6 * nc, "the bandwidth");
    // the data
    Buf b = makeBuf(nbl, h, ncr, 1000 + 10 * round, 9.5);
    const size_t m = size_t(nbl) * h * ncr;
    std::vector<C> d(m);
    std::vector<char> fl(m);
    std::vector<float> wt(m);
    std::vector<double> uvw(nbl * 3);
    const int odd = sym_concretize(sym_choose(0, 2, "flags"));
    for (size_t i = 0; i < m; ++i) { d[i] = symc("data"); wt[i] = sym_f32("weight"); fl[i] = odd == 0 ? i % 2 : odd == 1 ? i / 3 % 2 : i / 2 % 2; }
    for (double& v : uvw) v = sym_f64("uvw");
    for (size_t i = 0; i < m; ++i) { b->GetData().data()[i] = d[i]; b->GetFlags().data()[i] = fl[i]; b->GetWeights().data()[i] = wt[i]; }
    for (int i = 0; i < nbl * 3; ++i) b->GetUvw().data()[i] = uvw[i];
    if (rows) { casacore::Vector<dp3::common::rownr_t> r(nbl); for (int i = 0; i < nbl; ++i) r[i] = 7 + 3 * i; b->SetRowNumbers(r); }
    step->process(std::move(b));
    sym_assert(int(next->out.size()) == round + 1, "passed on");
    const DPBuffer& q = *next->out.back();
    sym_assert(q.GetTime() == 1000 + 10 * round && q.GetExposure() == 9.5, "time and exposure");
    const std::array<size_t, 3> shape{kept.size(), size_t(nc), size_t(ncr)};
    sym_assert(q.GetData().shape() == shape && q.GetFlags().shape() == shape && q.GetWeights().shape() == shape && q.GetUvw().shape(0) == kept.size(), "the shapes");
    bool same = true;
    for (size_t i = 0; i < kept.size(); ++i) {
      for (int ch = 0; ch < nc; ++ch) for (int cr = 0; cr < ncr; ++cr) {
        const size_t from = (size_t(kept[i]) * h + c0 + ch) * ncr + cr, to = (i * nc + ch) * ncr + cr;
        same = sym_and(same, sym_and(sym_and(q.GetData().data()[to].real() == d[from].real(), q.GetData().data()[to].imag() == d[from].imag()), sym_and(q.GetFlags().data()[to] == bool(fl[from]), q.GetWeights().data()[to] == wt[from])));
      }
      for (int k = 0; k < 3; ++k) same = sym_and(same, q.GetUvw().data()[3 * i + k] == uvw[3 * kept[i] + k]);
      if (rows) sym_assert(q.GetRowNumbers().size() == kept.size() && q.GetRowNumbers()[i] == dp3::common::rownr_t(7 + 3 * kept[i]), "the row numbers");
    }
    if (!rows) sym_assert(q.GetRowNumbers().empty(), "no row numbers");
    sym_assert(same, "what is kept is unchanged");
  }
  step->finish();
  sym_assert(next->finished == 1, "the next step is finished");
  sym_reach("select");
}
// ---- the written measurement set loses the antennas without baselines
struct Chain : Capture { std::string ms; void addToMS(const std::string& n) override { ms = n; } };
struct Rows { const char *table, *col, *col2; std::vector<int> id, id2; };
static void subtables() {
  const int nant = sym_param(1), nbl = sym_param(2), remove = sym_param(3), present = sym_param(4), nrow = sym_param(5);
  std::vector<int> a1, a2;
  for (int i = 0; i < nbl; ++i) { a1.push_back(sym_concretize(sym_choose(0, nant - 1, "ant"))); a2.push_back(sym_concretize(sym_choose(0, nant - 1, "ant"))); }
  ParameterSet p;
  if (remove) p.add("f.remove", "true");
  auto step = std::make_shared<Filter>(p, "f.");
  auto next = std::make_shared<Capture>();
  auto before = std::make_shared<Chain>();
  before->setNextStep(step);
  step->setNextStep(next);
  DPInfo info(1, 1);
  setAnts(info, nant, a1, a2);
  setChans(info, 1);
  info.setTimes(1000, 1020, 10);
  step->setInfo(info);
  std::vector<char> used(nant);
  for (int i = 0; i < nbl; ++i) used[a1[i]] = used[a2[i]] = 1;
  auto& all = casacore::writtenTables();
  all.clear();
  auto table = [&](const std::string& n, int rows) { auto t = std::make_shared<casacore::TableData>(); t->rows = rows; for (int i = 0; i < rows; ++i) t->number["TAG"][i] = 100 + i; all[n] = t; return t; };
  table("out.ms", 0);
  // The MS can have an antenna that a step before has dropped already.
  const int extra = sym_param(6);  // its number, or -1
  const int nms = nant + (extra >= 0);
  std::vector<char> keep(nms);
  std::vector<int> id(nms, -1);
  auto ants = table("out.ms/ANTENNA", nms);
  for (int i = 0, k = 0, n = 0; i < nms; ++i) {
    if (i == extra) { ants->text["NAME"][i] = "gone"; continue; }
    ants->text["NAME"][i] = std::string("ant") + char('0' + k);
    keep[i] = used[k++];
    if (keep[i]) id[i] = n++;
  }
  if (!remove) for (int i = 0; i < nms; ++i) { keep[i] = 1; id[i] = i; }
  std::vector<Rows> sub;
  const char* names[][3] = {{"FEED", "ANTENNA_ID", nullptr}, {"POINTING", "ANTENNA_ID", nullptr}, {"SYSCAL", "ANTENNA_ID", nullptr}, {"QUALITY_BASELINE_STATISTIC", "ANTENNA1", "ANTENNA2"}, {"LOFAR_ANTENNA_FIELD", "ANTENNA_ID", nullptr}};
  for (int t = 0; t < 5; ++t) if (present >> t & 1) {
    Rows r{names[t][0], names[t][1], names[t][2], {}, {}};
    auto d = table(std::string("out.ms/") + r.table, nrow);
    for (int i = 0; i < nrow; ++i) {
      r.id.push_back(sym_concretize(sym_choose(0, nms - 1, "id")));
      d->number[r.col][i] = r.id[i];
      r.id2.push_back(r.col2 ? sym_concretize(sym_choose(0, nms - 1, "id")) : r.id[i]);
      if (r.col2) d->number[r.col2][i] = r.id2[i];
    }
    sub.push_back(r);
  }
  std::vector<int> field;
  if (present >> 5 & 1) {
    auto d = table("out.ms/LOFAR_ELEMENT_FAILURE", 3);
    for (int i = 0; i < 3; ++i) { field.push_back(sym_concretize(sym_choose(0, nrow - 1, "field"))); d->number["ANTENNA_FIELD_ID"][i] = field[i]; }
  }
  step->addToMS("out.ms");
  sym_assert(before->ms == "out.ms", "the step before is asked too");
  int n = 0;
  for (int i = 0; i < nms; ++i) if (keep[i]) { sym_assert(ants->number["TAG"][n] == 100 + i, "the antennas with baselines are kept"); ++n; }
  sym_assert(int(ants->rows) == n, "the antennas without baselines are removed");
  std::vector<int> fieldId(nrow, -1);
  for (const Rows& r : sub) {
    auto d = all[std::string("out.ms/") + r.table];
    int at = 0;
    for (int i = 0; i < nrow; ++i) if (keep[r.id[i]] && keep[r.id2[i]]) {
      sym_assert(at < int(d->rows) && d->number["TAG"][at] == 100 + i, "the rows of the antennas that are kept");
      sym_assert(d->number[r.col][at] == id[r.id[i]], "their new numbers");
      if (r.col2) sym_assert(d->number[r.col2][at] == id[r.id2[i]], "their second new numbers");
      if (std::string(r.table) == "LOFAR_ANTENNA_FIELD") fieldId[i] = at;
      ++at;
    }
    sym_assert(int(d->rows) == at, "the rows of other antennas are removed");
  }
  if (!field.empty()) {
    auto d = all["out.ms/LOFAR_ELEMENT_FAILURE"];
    int at = 0;
    for (int i = 0; i < 3; ++i) if (fieldId[field[i]] >= 0) { sym_assert(at < int(d->rows) && d->number["TAG"][at] == 100 + i && d->number["ANTENNA_FIELD_ID"][at] == fieldId[field[i]], "the failures of the fields that are kept"); ++at; }
    sym_assert(int(d->rows) == at, "the failures of other fields are removed");
  }
  sym_reach("subtables");
}
// ---- selections that are not well formed; lengths from a limit on; the selection as a vector
static void limits() {
  const int k = sym_param(1);
  ParameterSet p;
  bool bad = true;
  switch (k) {
    case 0: p.add("b.blrange", "[1,2,3]"); break;
    case 1: p.add("b.baseline", "[ant1"); break;
    case 2: p.add("b.baseline", "[[ant1,ant2,ant0]]"); break;
    case 3: p.add("b.corrtype", "autos"); break;
    default: bad = false;
  }
  if (k >= 4 && k != 5) p.add("b.blmin", "20");
  if (k >= 5) p.add("b.blmax", "40");
  if (k == 7) p.add("b.corrtype", "cross");
  DPInfo info(1, 1);
  std::vector<double> x;
  for (int i = 0; i < 3; ++i) { x.push_back(sym_f64("x")); sym_assume(sym_and(x[i] > -1000, x[i] < 1000)); }
  const std::vector<int> a1{0, 0, 1, 2}, a2{1, 2, 2, 2};
  setAnts(info, 3, a1, a2, x);
  bool thrown = false;
  casacore::Vector<bool> v;
  dp3::base::BaselineSelection sel;
  sym_assert(!sel.hasSelection(), "nothing is selected");
  try { sel = dp3::base::BaselineSelection(p, "b.", true); v.reference(sel.applyVec(info)); } catch (const std::exception&) { thrown = true; }
  sym_assert(thrown == bad, "malformed selections are refused");
  if (thrown) { sym_reach("malformed"); return; }
  sym_assert(sel.hasSelection() && v.size() == 4, "something is selected");
  for (int i = 0; i < 4; ++i) {
    const double d = x[a1[i]] - x[a2[i]];
    const bool low = d * d <= 400, high = d * d >= 1600, in = k == 4 ? low : k == 5 ? high : sym_or(low, high);
    sym_assert(v[i] == (k == 7 && a1[i] == a2[i] ? false : in), "the baselines within the limits");
  }
  sym_reach("limits");
}
extern "C" void harness() {
  switch (sym_param(0)) {
    case 0: return select();
    case 1: return subtables();
    case 2: return limits();
  }
}
