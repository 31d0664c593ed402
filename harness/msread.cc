// C40: reading the time slots of a measurement set (kept in memory).
#include <cstring>
#include "steps.h"
#include "steps/MsReader.h"
#include "base/UVWCalculator.h"
#include <EveryBeam/msreadutils.h>
#include <casacore/ms/MeasurementSets/MeasurementSet.h>
using dp3::steps::MsReader;
typedef casacore::Array<C> Vis;
bool casacore::MVTime::read(Quantity& r, const std::string& s, bool) { char* e; const double v = strtod(s.c_str(), &e); if (s.empty() || *e) return false; r = Quantity(v, "s"); return true; }
bool casacore::MeasTable::Observatory(MPosition& p, const String& n) { if (n != "LOFAR") return false; p = MPosition(MVPosition(1, 2, 3), MPosition::ITRF); return true; }
casacore::MDirection everybeam::ReadTileBeamDirection(const casacore::MeasurementSet&) { throw std::runtime_error("no tile beam"); }
casacore::TableExprNode casacore::msAntennaGramParseCommand(const Table&, const TableExprNode&, const TableExprNode&, const String&, Vector<int>&, Vector<int>&, Matrix<int>&) { return TableExprNode(); }
static std::vector<char> wanted;  // baselines selected by an expression
static int kBl;
extern const int kA1[6], kA2[6];
casacore::TableExprNode casacore::MSSelection::toTableExprNode(const MeasurementSet* ms) const {
  sym_assert(expr == "ant0&*", "the selection of baselines");
  TableExprNode n;
  n.rowList = true;
  for (rownr_t i = 0; i < ms->data_->rows; ++i) for (int b = 0; b < kBl; ++b) if (wanted[b] && ms->data_->number["ANTENNA1"][i] == kA1[b] && ms->data_->number["ANTENNA2"][i] == kA2[b]) n.rows.push_back(i);
  return n;
}
// The base of the readers, without the search for measurement sets on disk.
namespace dp3 { namespace steps {
InputStep::~InputStep() = default;
std::string InputStep::msName() const { return std::string(); }
const casacore::Table& InputStep::table() const { throw std::runtime_error("InputStep::table"); }
bool InputStep::HasBda(const casacore::MeasurementSet& ms) { return ms.keywordSet().isDefined("BDA_FACTORS"); }
} }
// Coordinates of a missing slot: a function of antennas and time.
namespace dp3 { namespace base {
UVWCalculator::UVWCalculator(const casacore::MDirection& d, const casacore::MPosition& p, const std::vector<casacore::MPosition>& a) { sym_assert(p.getValue().getValue()[0] == 1 && a.size() == 3 && a[2].getValue().getValue()[0] == 40, "where coordinates are calculated"); sym_assert(d.getValue().get()[0] == 0.25, "the direction of coordinates"); }
std::array<double, 3> UVWCalculator::getUVW(unsigned a, unsigned b, double t) { return {100.0 * a + b, t, -1.0 * a}; }
} }
static bool same(float a, float b) { uint32_t x, y; std::memcpy(&x, &a, 4); std::memcpy(&y, &b, 4); return x == y; }
static bool same(C a, C b) { return sym_and(same(a.real(), b.real()), same(a.imag(), b.imag())); }
const int kA1[6] = {0, 0, 1, 2, 1, 0}, kA2[6] = {1, 2, 2, 2, 1, 0};
struct Ms {
  std::shared_ptr<casacore::TableData> d = std::make_shared<casacore::TableData>();
  int nbl, nch;
  Ms(int b, int h) : nbl(b), nch(h) {
    auto sub = [&](const char* n, int rows) { auto t = std::make_shared<casacore::TableData>(); t->rows = rows; d->subtables[n] = t; return t; };
    auto a = sub("ANTENNA", 3);
    for (int i = 0; i < 3; ++i) {
      a->text["NAME"][i] = std::string("ant") + char('0' + i);
      a->number["DISH_DIAMETER"][i] = 30 + i;
      casacore::Array<casacore::MPosition> p(casacore::IPosition(1, 1));
      *p.data() = casacore::MPosition(casacore::MVPosition(10.0 * i * i, 0, 0), casacore::MPosition::ITRF);
      a->array["POSITION"][i] = std::make_shared<casacore::Array<casacore::MPosition>>(p);
    }
    auto f = sub("FIELD", 1);
    f->text["NAME"][0] = "3C196";
    for (int k = 0; k < 2; ++k) {
      casacore::Array<casacore::MDirection> p(casacore::IPosition(1, 1));
      *p.data() = casacore::MDirection(casacore::MVDirection(k ? 0.5 : 0.25, k ? 0.6 : 0.125));
      f->array[k ? "DELAY_DIR" : "PHASE_DIR"][0] = std::make_shared<casacore::Array<casacore::MDirection>>(p);
    }
    auto o = sub("OBSERVATION", 1);
    o->text["TELESCOPE_NAME"][0] = "LOFAR";
    o->text["OBSERVER"][0] = "me";
    o->text["LOFAR_ANTENNA_SET"][0] = "HBA";
    auto s = sub("SPECTRAL_WINDOW", 2);
    const char* cols[] = {"CHAN_FREQ", "CHAN_WIDTH", "RESOLUTION", "EFFECTIVE_BW"};
    for (int w = 0; w < 2; ++w) {
      for (int k = 0; k < 4; ++k) {
        casacore::Array<double> v(casacore::IPosition(1, nch));
        for (int c = 0; c < nch; ++c) *v.at(c) = k ? 2e6 + k : 100e6 + 50e6 * w + 2e6 * c;
        s->array[cols[k]][w] = std::make_shared<casacore::Array<double>>(v);
      }
      s->number["REF_FREQUENCY"][w] = 101e6 + w;
    }
    auto dd = sub("DATA_DESCRIPTION", 2);
    dd->number["POLARIZATION_ID"][0] = 0; dd->number["POLARIZATION_ID"][1] = 0;
    corr({9, 10, 11, 12});
    for (const char* n : {"TIME", "INTERVAL", "EXPOSURE", "ANTENNA1", "ANTENNA2", "FLAG_ROW", "DATA_DESC_ID"}) d->number[n];
  }
  void corr(const std::vector<int>& v) {
    auto p = std::make_shared<casacore::TableData>();
    p->rows = 1;
    casacore::Array<int> a(casacore::IPosition(1, v.size()));
    for (size_t i = 0; i < v.size(); ++i) *a.at(i) = v[i];
    p->array["CORR_TYPE"][0] = std::make_shared<casacore::Array<int>>(a);
    d->subtables["POLARIZATION"] = p;
  }
  int row(double time, int bl) {
    const int r = d->rows++;
    d->number["TIME"][r] = time; d->number["INTERVAL"][r] = 10; d->number["EXPOSURE"][r] = 9.5;
    d->number["ANTENNA1"][r] = kA1[bl]; d->number["ANTENNA2"][r] = kA2[bl]; d->number["FLAG_ROW"][r] = 0; d->number["DATA_DESC_ID"][r] = 0;
    return r;
  }
  template <class T> casacore::Array<T>& cell(const char* c, int r) { auto& p = d->array[c][r]; if (!p) p = std::make_shared<casacore::Array<T>>(std::strcmp(c, "UVW") == 0 ? casacore::IPosition(1, 3) : std::strcmp(c, "WEIGHT") == 0 ? casacore::IPosition(1, 4) : casacore::IPosition(2, 4, nch)); return *static_cast<casacore::Array<T>*>(p.get()); }
  casacore::MeasurementSet ms() { return casacore::MeasurementSet(d, "in.ms"); }
};
static float finite(const char* n, bool any) { const float v = sym_f32(n); if (!any) sym_assume(sym_and(v > -1e6f, v < 1e6f)); return v; }
static const char* chanStart[] = {"0", "1", "nchan-1", "0", "nchan/2"};
static const char* chanNr[] = {"0", "1", "0", "nchan", "9"};
static void read() {
  const int nbl = sym_param(1), nch = sym_param(2), nslot = sym_param(3), missing = sym_param(4), sel = sym_param(5), weights = sym_param(6), chan = sym_param(7), fields = sym_param(8), any = sym_param(9), opt = sym_param(10);
  const bool useFlag = !(opt & 1), extra = opt & 2, sorted = opt & 4, band = opt & 8, noData = opt & 16, select = opt & 32, otherNames = opt & 64;
  const char *dataCol = otherNames ? "MY_DATA" : "DATA", *flagCol = otherNames ? "MY_FLAG" : "FLAG";
  Ms m(nbl, nch);
  kBl = nbl;
  wanted.assign(nbl, 1);
  int nwant = nbl;
  if (select) { nwant = 0; for (char& w : wanted) { w = symflag("wanted"); nwant += w; } }
  // the rows, in order of time and antennas or not
  struct Row { int slot, bl, at; };
  std::vector<Row> rows;
  for (int s = 0; s < nslot; ++s) if (!(missing >> s & 1)) for (int b = 0; b < nbl; ++b) rows.push_back({s, b, 0});
  if (sorted) for (size_t i = 0, j = rows.size() - 1; i < j; i += 2, --j) std::swap(rows[i], rows[j]);
  if (band) for (int b = 0; b < nbl; ++b) { const int r = m.row(999, b); m.d->number["DATA_DESC_ID"][r] = 0; m.cell<C>("DATA", r); }
  const int pattern = any ? 0 : sym_concretize(sym_choose(0, 2, "pattern"));
  std::map<int, std::vector<C>> data, more;
  std::map<int, std::vector<char>> flags;
  std::map<int, std::vector<float>> wt;
  std::map<int, std::vector<double>> uvw;
  std::map<int, int> at;
  std::map<int, char> flagRow;
  for (Row& x : rows) {
    const int r = x.at = m.row(1000 + 10 * x.slot, x.bl), key = x.slot * nbl + x.bl;
    at[key] = r;
    if (band) m.d->number["DATA_DESC_ID"][r] = 1;
    flagRow[key] = any ? symflag("flagrow") : (r + pattern) % 4 == 3;
    m.d->number["FLAG_ROW"][r] = flagRow[key];
    m.cell<C>("DATA", r);
    for (int i = 0; i < nch * 4; ++i) {
      const float re = finite("re", any && i % 4 < 2), im = finite("im", any && i % 4 == 2);
      data[key].push_back(C(re, im)); more[key].push_back(symc("more")); flags[key].push_back(any && i % 4 == 1 ? char(sym_choose(0, 1, "flag")) : char(pattern == 0 ? 0 : pattern == 1 ? i % 5 == 2 : i % 7 == 6)); wt[key].push_back(sym_f32("weight"));
      if (!noData) *m.cell<C>(dataCol, r).at(i) = data[key][i];
      *m.cell<bool>(flagCol, r).at(i) = flags[key][i];
      if (extra) *m.cell<C>("MODEL", r).at(i) = more[key][i];
      if (weights == 0 || weights == 2) *m.cell<float>("WEIGHT_SPECTRUM", r).at(i) = wt[key][i];
      if (weights == 3) *m.cell<float>("IMG", r).at(i) = wt[key][i];
    }
    if (weights == 4) m.d->array["WEIGHT_SPECTRUM"];
    if (weights == 1 || weights == 2 || weights == 4) for (int c = 0; c < 4; ++c) {
      float w = c == 1 ? 0.0f : sym_f32("weight");
      if (c != 1) sym_assume(w > 0.125f);
      *m.cell<float>("WEIGHT", r).at(c) = w;
      for (int h = 0; h < nch; ++h) wt[key][h * 4 + c] = c == 1 ? 1.0f : w;
    }
    for (int k = 0; k < 3; ++k) { uvw[key].push_back(sym_f64("uvw")); sym_assume(sym_and(uvw[key][k] > -1e6, uvw[key][k] < 1e6)); *m.cell<double>("UVW", r).at(k) = uvw[key][k]; }
  }
  // the settings, and the slots they ask for
  ParameterSet p;
  int last = nslot - 1, first = 0, second = 1;
  while (missing >> last & 1) --last;
  while (missing >> second & 1) ++second;
  bool bad = false, none = false;
  const char* t[5] = {nullptr, nullptr, nullptr, nullptr, nullptr};  // starttime, endtime, ntimes, starttimeslot
  switch (sel) {
    case 1: t[3] = "1"; first = second; break;
    case 2: t[3] = "-2"; first = -2; break;
    case 3: t[2] = "2"; last = 1; break;
    case 4: t[0] = "980"; first = -2; break;
    case 5: t[0] = "1010"; t[1] = "1027"; first = 1; last = 2; break;
    case 6: t[1] = "1045"; last = 4; break;
    case 7: t[0] = "1004"; first = 1; break;
    case 8: t[0] = "985"; first = -1; break;
    case 9: t[0] = "1000"; t[3] = "1"; bad = true; break;
    case 10: t[1] = "1010"; t[2] = "2"; bad = true; break;
    case 11: t[0] = "2000"; bad = true; break;
    case 12: t[1] = "900"; bad = true; break;
    case 13: t[3] = "9"; none = true; break;
    case 14: t[0] = "soon"; bad = true; break;
    case 15: t[2] = "9"; last = 8; break;
    case 16: t[0] = "1010"; t[2] = "1"; first = last = 1; break;
    case 17: t[0] = "1010"; t[1] = "1003"; bad = true; break;
    case 18: t[1] = "later"; bad = true; break;
  }
  const char* keys[] = {"starttime", "endtime", "ntimes", "starttimeslot"};
  for (int i = 0; i < 4; ++i) if (t[i]) p.add(std::string("msin.") + keys[i], t[i]);
  if (!useFlag) p.add("msin.useflag", "false");
  if (extra) p.add("msin.extradatacolumns", "[MODEL]");
  if (sorted) p.add("msin.sort", "true");
  if (band) p.add("msin.band", "1");
  if (select) p.add("msin.baseline", "ant0&*");
  if (otherNames) { p.add("msin.datacolumn", dataCol); p.add("msin.flagcolumn", flagCol); }
  if (noData) p.add("msin.datacolumn", "NO_DATA");
  if (weights == 2) p.add("msin.weightcolumn", "WEIGHT");
  if (weights == 3) p.add("msin.weightcolumn", "IMG");
  if (chan != 0) { p.add("msin.startchan", chanStart[chan]); p.add("msin.nchan", chanNr[chan]); }
  const int c0s[] = {0, 1, nch - 1, 0, nch / 2}, ncs[] = {nch, 1, 1, nch, nch - nch / 2}, c0 = c0s[chan], nc = ncs[chan];
  std::shared_ptr<MsReader> reader;
  bool thrown = false;
  try { reader = std::make_shared<MsReader>(m.ms(), p, "msin.", noData); } catch (const std::exception&) { thrown = true; }
  sym_assert(thrown == (bad || nwant == 0), "impossible settings, and only those, are refused");
  if (thrown) { sym_reach("settings"); return; }
  auto next = std::make_shared<Capture>();
  reader->setNextStep(next);
  Fields f;
  if (fields & 1) f |= dp3::steps::Step::kDataField;
  if (fields & 2) f |= dp3::steps::Step::kFlagsField;
  if (fields & 4) f |= dp3::steps::Step::kWeightsField;
  if (fields & 8) f |= dp3::steps::Step::kUvwField;
  reader->setFieldsToRead(f);
  std::vector<int> bls;
  for (int b = 0; b < nbl; ++b) if (wanted[b]) bls.push_back(b);
  if (sorted) std::sort(bls.begin(), bls.end(), [](int a, int b) { return kA1[a] != kA1[b] ? kA1[a] < kA1[b] : kA2[a] < kA2[b]; });
  // the description
  const DPInfo& o = reader->getInfoOut();
  sym_assert(int(o.nbaselines()) == nwant && int(o.nchan()) == nc && o.ncorr() == 4 && int(o.startchan()) == c0 && o.spectralWindow() == (band ? 1 : 0), "the sizes");
  for (int i = 0; i < nwant; ++i) sym_assert(o.getAnt1()[i] == kA1[bls[i]] && o.getAnt2()[i] == kA2[bls[i]], "the baselines");
  for (int c = 0; c < nc; ++c) sym_assert(o.chanFreqs()[c] == 100e6 + (band ? 50e6 : 0) + 2e6 * (c0 + c) && o.chanWidths()[c] == 2e6 + 1 && o.resolutions()[c] == 2e6 + 2 && o.effectiveBW()[c] == 2e6 + 3, "the channels");
  sym_assert(o.refFreq() == 101e6 + band, "the reference frequency");
  for (int a = 0; a < 3; ++a) sym_assert(o.antennaNames()[a] == std::string("ant") + char('0' + a) && o.antennaDiam()[a] == 30 + a && o.antennaPos()[a].getValue().getValue()[0] == 10.0 * a * a, "the antennas");
  sym_assert(o.antennaSet() == "HBA" && o.phaseCenter().getValue().get()[0] == 0.25 && o.delayCenter().getValue().get()[0] == 0.5 && o.tileBeamDir().getValue().get()[0] == 0.5 && o.arrayPos().getValue().getValue()[1] == 2, "the observation");
  sym_assert(o.dataColumnName() == (noData ? "NO_DATA" : dataCol) && o.flagColumnName() == flagCol && o.msName() == "in.ms", "the names of the columns");
  if (extra) sym_assert(o.GetDirections().count("MODEL") && o.GetDirections().at("MODEL").ra == 0.25 && o.GetDirections().at("MODEL").dec == 0.125, "the direction of extra data");
  if (none) { sym_assert(!reader->process(std::make_unique<DPBuffer>()) && next->out.empty(), "nothing is read after the end"); sym_reach("none"); return; }
  sym_assert(o.timeInterval() == 10 && o.firstTime() == 1000 + 10 * first && o.lastTime() == 1000 + 10 * last && int(o.ntime()) == last - first + 1, "the times of the description");
  // the slots
  for (int s = first; s <= last; ++s) {
    sym_assert(reader->process(std::make_unique<DPBuffer>()) && int(next->out.size()) == s - first + 1, "every slot is passed on");
    const DPBuffer& q = *next->out.back();
    const bool there = s >= 0 && s < nslot && !(missing >> s & 1);
    sym_assert(q.GetTime() == 1000 + 10 * s && q.GetExposure() == (there && !noData ? 9.5 : 10.0), "time and exposure");
    sym_assert(q.GetRowNumbers().size() == (there ? size_t(nwant) : 0), "number of rows");
    const std::array<size_t, 3> shape{size_t(nwant), size_t(nc), 4};
    if (f.Data()) sym_assert(q.GetData().shape() == shape && (!extra || q.GetData("MODEL").shape() == shape), "the shape of the data");
    if (f.Flags()) sym_assert(q.GetFlags().shape() == shape, "the shape of the flags");
    if (f.Weights()) sym_assert(q.GetWeights().shape() == shape, "the shape of the weights");
    if (f.Uvw()) sym_assert(q.GetUvw().shape(0) == size_t(nwant), "the shape of the coordinates");
    bool dataOk = true, moreOk = true, flagOk = true, wtOk = true, uvwOk = true;
    for (int i = 0; i < nwant; ++i) {
      const int key = s * nbl + bls[i];
      if (there) sym_assert(int(q.GetRowNumbers()[i]) == at[key], "the row numbers");
      for (int c = 0; c < nc; ++c) {
        const size_t to = (size_t(i) * nc + c) * 4, from = (c0 + c) * 4;
        bool flagged = !there || noData;
        if (!flagged && useFlag) { flagged = flagRow[key]; for (int k = 0; k < 4; ++k) flagged = sym_or(flagged, bool(flags[key][from + k])); }
        if (!flagged && f.Data()) {}
        if (there && !noData && f.Data()) for (int k = 0; k < 4; ++k) { const C v = data[key][from + k]; flagged = sym_or(flagged, !sym_and(std::abs(v.real()) <= 3.4028235e38f, std::abs(v.imag()) <= 3.4028235e38f)); }
        for (int k = 0; k < 4; ++k) {
          if (f.Data()) dataOk = sym_and(dataOk, there && !noData ? same(q.GetData().data()[to + k], data[key][from + k]) : same(q.GetData().data()[to + k], C(0, 0)));
          if (f.Data() && extra) moreOk = sym_and(moreOk, there ? same(q.GetData("MODEL").data()[to + k], more[key][from + k]) : same(q.GetData("MODEL").data()[to + k], C(0, 0)));
          if (f.Flags() && (f.Data() || !there || noData)) flagOk = sym_and(flagOk, q.GetFlags().data()[to + k] == flagged);
          if (f.Weights()) wtOk = sym_and(wtOk, same(q.GetWeights().data()[to + k], there ? wt[key][from + k] : 0.0f));
        }
      }
      if (f.Uvw()) for (int k = 0; k < 3; ++k) {
        const int a = kA1[bls[i]], b = kA2[bls[i]];
        const double e = there ? uvw[key][k] : k == 0 ? 100.0 * a + b : k == 1 ? 1000.0 + 10 * s : -1.0 * a;
        uvwOk = sym_and(uvwOk, q.GetUvw().data()[3 * i + k] == e);
      }
    }
    sym_assert(dataOk, "the data as stored, or zero");
    sym_assert(moreOk, "the extra data as stored, or zero");
    sym_assert(flagOk, "flagged when any correlation is flagged or not finite, the row is, or the slot is missing");
    sym_assert(wtOk, "the weights as stored, or zero");
    sym_assert(uvwOk, "the coordinates as stored, or calculated");
  }
  sym_assert(!reader->process(std::make_unique<DPBuffer>()) && int(next->out.size()) == last - first + 1, "nothing after the last slot");
  reader->finish();
  sym_assert(next->finished == 1, "the next step is finished");
  sym_reach("read");
}
// ---- weights from the autocorrelations
static void autoweight() {
  const int fields = sym_param(1), raw = sym_param(2), nbl = sym_param(3);
  Ms m(nbl, 1);
  std::vector<std::vector<C>> d(nbl);
  std::vector<std::vector<float>> w(nbl);
  for (int b = 0; b < nbl; ++b) {
    const int r = m.row(1000, b);
    for (int c = 0; c < 4; ++c) {
      d[b].push_back(kA1[b] == kA2[b] && (c == 0 || c == 3) ? C(sym_f32("auto"), 0) : symc("data"));
      w[b].push_back(sym_f32("weight"));
      *m.cell<C>("DATA", r).at(c) = d[b][c];
      *m.cell<bool>("FLAG", r).at(c) = false;
      *m.cell<float>("WEIGHT_SPECTRUM", r).at(c) = w[b][c];
    }
    for (int k = 0; k < 3; ++k) *m.cell<double>("UVW", r).at(k) = 0;
  }
  if (raw == 1) { casacore::Record s; s.define("TYPE", "LofarStMan"); m.d->dataManager.define("0", s); }
  ParameterSet p;
  p.add("autoweight", "true");
  if (raw == 2) p.add("forceautoweight", "true");
  std::shared_ptr<MsReader> reader;
  bool thrown = false;
  try { reader = std::make_shared<MsReader>(m.ms(), p, ""); } catch (const std::exception&) { thrown = true; }
  sym_assert(thrown == (raw == 0), "refused for data that have been processed, unless forced");
  if (thrown) { sym_reach("settings"); return; }
  auto next = std::make_shared<Capture>();
  reader->setNextStep(next);
  Fields f;
  if (fields & 1) f |= dp3::steps::Step::kDataField;
  if (fields & 2) f |= dp3::steps::Step::kFlagsField;
  f |= dp3::steps::Step::kWeightsField;
  reader->setFieldsToRead(f);
  sym_assert(reader->process(std::make_unique<DPBuffer>()) && next->out.size() == 1, "passed on");
  const DPBuffer& q = *next->out[0];
  auto find = [&](int a) { for (int b = 0; b < nbl; ++b) if (kA1[b] == a && kA2[b] == a) return b; return -1; };
  for (int b = 0; b < nbl; ++b) {
    const int x = find(kA1[b]), y = find(kA2[b]);
    bool first = false, all = false;
    if (x >= 0 && y >= 0) { first = sym_and(d[x][0].real() != 0, d[y][0].real() != 0); all = sym_and(first, sym_and(d[x][3].real() != 0, d[y][3].real() != 0)); }
    for (int c = 0; c < 4; ++c) {
      const float got = q.GetWeights().data()[b * 4 + c];
      if (x < 0 || y < 0) { sym_assert(got == w[b][c], "no weight without autocorrelations"); continue; }
      const double prod = double(d[x][c < 2 ? 0 : 3].real()) * d[y][c % 2 ? 3 : 0].real();
      const bool on = c == 0 ? first : all;
      sym_assert(sym_or(!on, double(got) * prod == double(w[b][c]) * (2e6 + 1) * 10), "the weight divided by the autocorrelations");
      sym_assert(sym_or(on, got == w[b][c]), "no weight from empty autocorrelations");
    }
  }
  sym_reach("autoweight");
}
// ---- times that are not on a regular grid
static void jitter() {
  const int n = sym_param(1), kind = sym_param(2);
  Ms m(1, 1);
  std::vector<double> t;
  for (int i = 0; i < n; ++i) {
    const double j = sym_f64("jitter");
    double x;
    if (i == 0) x = 1000;
    else if (kind == 2) { sym_assume(sym_and(j >= 0.5, j <= 9.5)); x = i == 2 ? 1000 + j : i == 1 ? 1010 : 1000 + 10 * (i - 1); }  // the third goes back in time
    else if (kind == 0) { sym_assume(sym_and(j >= -0.009, j <= 0.009)); x = 1000 + 10 * i + j; }  // within the tolerance
    else { sym_assume(sym_and(j >= 0.5, j <= 9.9)); x = t[i - 1] + j; }                             // early: closer than the interval
    t.push_back(x);
    const int r = m.row(x, 0);
    for (int c = 0; c < 4; ++c) { *m.cell<C>("DATA", r).at(c) = C(i, c); *m.cell<bool>("FLAG", r).at(c) = false; *m.cell<float>("WEIGHT_SPECTRUM", r).at(c) = 1; }
  }
  MsReader reader(m.ms(), ParameterSet(), "");
  auto next = std::make_shared<Capture>();
  reader.setNextStep(next);
  Fields f = dp3::steps::Step::kDataField;
  f |= dp3::steps::Step::kFlagsField;
  reader.setFieldsToRead(f);
  int count = 0;
  for (int i = 0; i < n; ++i) {
    if (kind == 2 && i == 2) continue;
    sym_assert(reader.process(std::make_unique<DPBuffer>()) && int(next->out.size()) == ++count, "every slot is passed on");
    const DPBuffer& q = *next->out.back();
    sym_assert(q.GetData().data()[0].real() == i && q.GetRowNumbers().size() == 1, "no slot is missed or inserted");
    sym_assert(!q.GetFlags().data()[0], "a slot that is there is not flagged");
    sym_assert(sym_and(q.GetTime() - t[i] <= 0.01, t[i] - q.GetTime() <= 0.01), "the time of the slot");
  }
  sym_assert(!reader.process(std::make_unique<DPBuffer>()) && int(next->out.size()) == count, "nothing after the last slot");
  sym_reach("jitter");
}
// ---- what cannot be read
static void refused() {
  const int k = sym_param(1);
  Ms m(2, 1);
  for (int s = 0; s < 2; ++s) for (int b = 0; b < 2; ++b) {
    if (k == 4 && s == 1 && b == 1) continue;
    const int r = m.row(1000 + 10 * s, k == 1 ? 0 : b);
    for (int c = 0; c < 4; ++c) { *m.cell<C>("DATA", r).at(c) = C(1, 0); *m.cell<bool>("FLAG", r).at(c) = false; *m.cell<float>("WEIGHT_SPECTRUM", r).at(c) = 1; }
  }
  ParameterSet p;
  if (k == 0) p.add("datacolumn", "NO_DATA");
  if (k == 2) p.add("extradatacolumns", "[MODEL]");
  if (k == 3) p.add("band", "3");
  if (k == 5) m.corr({9, 9, 12, 12});
  if (k == 6) m.d->subtables["FIELD"]->rows = 2;
  if (k == 7) p.add("startchan", "1");
  if (k == 8) p.add("extradatacolumns", "[DATA]");
  bool thrown = false;
  try {
    MsReader reader(m.ms(), p, "", k == 8);
    auto next = std::make_shared<Capture>();
    reader.setNextStep(next);
    Fields f = dp3::steps::Step::kDataField;
    if (k == 4 && sym_param(2)) f = dp3::steps::Step::kFlagsField;
    reader.setFieldsToRead(f);
    while (reader.process(std::make_unique<DPBuffer>())) {}
  } catch (const std::exception&) { thrown = true; }
  sym_assert(thrown == (k < 9), "what cannot be read is refused");
  sym_reach("refused");
}
extern "C" void harness() {
  switch (sym_param(0)) {
    case 0: return read();
    case 1: return autoweight();
    case 2: return jitter();
    case 3: return refused();
  }
}
