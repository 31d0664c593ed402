// C38: (un)flagging of selected data.
#include <cmath>
#include <sstream>
#include "steps.h"
#include "steps/PreFlagger.h"
using dp3::steps::PreFlagger;
// Day 59000 begins at kDay. A time is written as a number of seconds, a date and time as @ and the seconds since the begin of day 59000.
static const double kDay = 59000 * 86400.0;
static bool number(const std::string& s, double& v) { char* e; if (s.empty()) return false; v = strtod(s.c_str(), &e); return !*e; }
bool casacore::MVAngle::read(Quantity& r, const std::string& s, bool) { double v; if (!number(s, v)) return false; r = Quantity(v, "s"); return true; }
bool casacore::MVTime::read(Quantity& r, const std::string& s, bool) { double v; if (s.empty() || s[0] != '@' || !number(s.substr(1), v)) return false; r = Quantity(kDay + v, "s"); return true; }
static double lstSec;        // local sidereal time, in seconds
static double azel[4][2];    // azimuth and elevation seen from each antenna, in seconds of time
static bool toAzEl(casacore::MVDirection& d, int) {
  const double x = casacore::framePosition().getValue().getValue()[0];
  int a = 0;
  while (a < 3 && x != 10.0 * a * a) ++a;
  d = casacore::MVDirection(azel[a][0] * casacore::C::pi / 43200, azel[a][1] * casacore::C::pi / 43200);
  return true;
}
static bool toLst(casacore::MVEpoch& e, int) { e = casacore::MVEpoch(1234 + lstSec / 86400); return true; }
// ---- what can be selected
enum { kAnt, kPair, kPattern, kAuto, kCross, kBlMin, kBlMax, kBlRange, kUvMin, kUvMax, kUvBoth, kChan, kFreq, kChanFreq, kChanNone, kFreqNone, kAmplMin, kAmplMax, kPhase, kReal, kImag, kSlot, kAbs, kRel, kDay1, kDay2, kLst, kAz, kEl, kCount };
static const int kAnt1[3] = {1, 0, 1}, kAnt2[3] = {0, 2, 1};  // lengths 10, 40 and 0
struct Point { int bl, ch, slot; double time, start; const double* uvw; const C* data; size_t ncr; };
static void ask(ParameterSet& p, const std::string& pre, int kind) {
  auto add = [&](const char* k, const char* v) { p.add(pre + k, v); };
  switch (kind) {
    case kAnt: add("baseline", "[ant2]"); break;
    case kPair: add("baseline", "[[ant1,ant0]]"); break;
    case kPattern: add("baseline", "[[*,ant[12]],[ant2,ant2]]"); break;
    case kAuto: add("corrtype", "auto"); break;
    case kCross: add("corrtype", "CROSS"); break;
    case kBlMin: add("blmin", "20"); break;
    case kBlMax: add("blmax", "25"); break;
    case kBlRange: add("blrange", "[5,15,39,41]"); break;
    case kUvMin: add("uvmmin", "20"); break;
    case kUvMax: add("uvmmax", "30"); break;
    case kUvBoth: add("uvmmin", "20"); add("uvmmax", "30"); break;
    case kChan: add("chan", "[0,nchan-2..nchan+3]"); break;
    case kFreq: add("freqrange", "[101000..103000 kHz,106MHz+-1500kHz]"); break;
    case kChanFreq: add("chan", "[1..2,9]"); add("freqrange", "[101.5..200]"); break;
    case kChanNone: add("chan", "[nchan..nchan+2]"); break;
    case kFreqNone: add("freqrange", "[10..20]"); break;
    case kAmplMin: add("amplmin", "[3,,2]"); break;
    case kAmplMax: add("amplmax", "5"); break;
    case kPhase: add("phasemin", "-0.5"); add("phasemax", "[0.75,1]"); break;
    case kReal: add("realmin", "-2"); add("realmax", "[,4]"); break;
    case kImag: add("imagmin", "[-1]"); add("imagmax", "3"); break;
    case kSlot: add("timeslot", "[0,2..3,7]"); break;
    case kAbs: add("abstime", "[@86385..@86395,@86403+-5]"); break;
    case kRel: add("reltime", "[0..12,30+-6]"); break;
    case kDay1: add("timeofday", "[86395..5,100..200]"); break;
    case kDay2: add("timeofday", "[2+-12]"); break;
    case kLst: add("lst", "[86000+-1000,5000..6000]"); break;
    case kAz: add("azimuth", "[80000..1000,3000..4000]"); break;
    case kEl: add("elevation", "[0..3600]"); break;
  }
}
static bool inside(double v, double lo, double hi) { return sym_and(v > lo, v < hi); }
static bool match(int kind, const Point& x) {
  const int a = kAnt1[x.bl], b = kAnt2[x.bl];
  const double len = std::abs(10.0 * b * b - 10.0 * a * a), freq = 100 + 2 * x.ch, uv2 = x.uvw[0] * x.uvw[0] + x.uvw[1] * x.uvw[1];
  auto any = [&](auto f) { bool r = false; for (size_t c = 0; c < x.ncr; ++c) r = sym_or(r, f(x.data[c], c)); return r; };
  auto ampl2 = [](C d) { return double(d.real()) * d.real() + double(d.imag()) * d.imag(); };
  const double day = std::fmod(x.time - kDay, 86400.0);
  switch (kind) {
    case kAnt: return a == 2 || b == 2;
    case kPair: return (a == 0 && b == 1) || (a == 1 && b == 0);
    case kPattern: return true;  // any antenna with 1 or 2
    case kAuto: return a == b;
    case kCross: return a != b;
    case kBlMin: return len < 20;
    case kBlMax: return len > 25;
    case kBlRange: return (len >= 5 && len <= 15) || (len >= 39 && len <= 41);
    case kUvMin: return uv2 < 400;
    case kUvMax: return uv2 > 900;
    case kUvBoth: return sym_or(uv2 < 400, uv2 > 900);
    case kChan: return x.ch == 0 || x.ch >= 2;
    case kFreq: return x.ch == 1 || x.ch == 3;
    case kChanFreq: return x.ch == 1 || x.ch == 2;
    case kChanNone: case kFreqNone: return false;
    case kAmplMin: return any([&](C d, size_t c) { return c == 0 ? ampl2(d) < 9 : c == 2 ? ampl2(d) < 4 : false; });
    case kAmplMax: return any([&](C d, size_t) { return ampl2(d) > 25; });
    case kPhase: return any([&](C d, size_t c) { const float ph = std::arg(d); return sym_or(ph < -0.5f, c < 2 ? ph > (c ? 1.0f : 0.75f) : false); });
    case kReal: return any([&](C d, size_t c) { return sym_or(d.real() < -2, c == 1 ? d.real() > 4 : false); });
    case kImag: return any([&](C d, size_t c) { return sym_or(c == 0 ? d.imag() < -1 : false, d.imag() > 3); });
    case kSlot: return x.slot == 0 || x.slot == 2 || x.slot == 3;
    case kAbs: return inside(x.time - kDay, 86385, 86395) || inside(x.time - kDay, 86398, 86408);
    case kRel: return inside(x.time - x.start, 0, 12) || inside(x.time - x.start, 24, 36);
    case kDay1: return day > 86395 || day < 5 || inside(day, 100, 200);
    case kDay2: return day > 86390 || day < 14;
    case kLst: return lstSec > 85000 || lstSec < 600 || inside(lstSec, 5000, 6000);
    case kAz: case kEl: {
      for (int ant : {a, b}) {
        const double az = azel[ant][0], el = azel[ant][1];
        if (kind == kEl ? !inside(el, 0, 3600) : !(inside(az, 3000, 4000) || inside(az, -6400, 1000))) return false;
      }
      return true;
    }
  }
  return false;
}
// ---- the description and the data
struct World {
  DPInfo info;
  size_t nbl, nch, ncr;
  World(size_t b, size_t h, size_t r) : info(r, h), nbl(b), nch(h), ncr(r) {
    setAnts(info, 3, std::vector<int>(kAnt1, kAnt1 + b), std::vector<int>(kAnt2, kAnt2 + b));
    setChans(info, h, 100e6, 2e6);
    info.setTimes(kDay + 86383, kDay + 86383 + 30, 10);
    info.setArrayInformation(info.antennaPos()[0], casacore::MDirection(casacore::MVDirection(0.1, 0.2)), casacore::MDirection(), casacore::MDirection());
  }
};
static void sky(int t) {
  lstSec = 85990.0 + 200 * t + (t > 1 ? -84000 : 0) + (t == 3 ? 3000 : 0);
  const double az[4][4] = {{10, 20, 30, 0}, {3500, -2000, 500, 0}, {3500, 5000, 3600, 0}, {900, -7000, 20, 0}}, el[4][4] = {{100, 200, 300, 0}, {100, -50, 5000, 0}, {10, 20, -30, 0}, {4000, 3000, 3500, 0}};
  for (int a = 0; a < 4; ++a) { azel[a][0] = az[t][a]; azel[a][1] = el[t][a]; }
}
static void select() {
  const size_t nbl = sym_param(3), nch = sym_param(4), ncr = sym_param(5);
  const int k1 = sym_param(1), k2 = sym_param(2), mode = sym_param(6), nt = sym_param(7), again = sym_param(8);
  casacore::frameHooks().direction = toAzEl;
  casacore::frameHooks().epoch = toLst;
  World w(nbl, nch, ncr);
  ParameterSet p;
  static const char* modes[] = {"set", "clear", "setcomplement", "clearother"};
  if (mode) p.add("p.mode", modes[mode]);
  ask(p, "p.", k1);
  if (k2 >= 0 && k2 != k1) ask(p, "p.", k2);
  auto pf = std::make_shared<PreFlagger>(p, "p.");
  auto next = std::make_shared<Capture>();
  pf->setNextStep(next);
  pf->setInfo(w.info);
  if (again) pf->setInfo(w.info);
  auto isData = [](int k) { return k >= kAmplMin && k <= kImag; };
  auto isUv = [](int k) { return k >= kUvMin && k <= kUvBoth; };
  const Fields f = pf->getRequiredFields();
  sym_assert(f.Flags() && pf->getProvidedFields().Flags(), "the flags are used");
  if (isData(k1) || isData(k2) || mode == 1 || mode == 3) sym_assert(f.Data(), "the data are asked for");
  if (isUv(k1) || isUv(k2)) sym_assert(f.Uvw(), "the coordinates are asked for");
  if (mode == 1 || mode == 3) sym_assert(f.Weights(), "the weights are asked for");
  const bool few = nbl * nch * nt <= 4;  // all combinations of flags, else a few patterns
  const int pattern = few ? 0 : sym_concretize(sym_choose(0, 3, "flags"));
  for (int t = 0; t < nt; ++t) {
    sky(t);
    Buf b = makeBuf(nbl, nch, ncr, w.info.firstTime() + 10 * t, 10);
    const size_t n = nbl * nch * ncr;
    std::vector<C> d(n, C(1, 1));
    std::vector<char> fl(n);
    std::vector<float> wt(n, 1.0f);
    std::vector<double> uvw(nbl * 3, 1.0);
    const bool data = isData(k1) || isData(k2), uv = isUv(k1) || isUv(k2);
    for (size_t i = 0; i < n; ++i) {
      if (data) { d[i] = symc("data"); sym_assume(sym_and(sym_and(d[i].real() > -1000, d[i].real() < 1000), sym_and(d[i].imag() > -1000, d[i].imag() < 1000))); }
      fl[i] = i % ncr ? fl[i - i % ncr] : char(few ? symflag("flag") : pattern < 2 ? pattern : (i / ncr + i / (ncr * nch) + t + pattern) % 2);
      if (mode == 1 || mode == 3) wt[i] = i % 3 == 1 ? 0.0f : 1.0f;
    }
    if (uv) for (double& x : uvw) { x = sym_f64("uvw"); sym_assume(sym_and(x > -100, x < 100)); }
    for (size_t i = 0; i < n; ++i) { b->GetData().data()[i] = d[i]; b->GetFlags().data()[i] = fl[i]; b->GetWeights().data()[i] = wt[i]; }
    for (size_t i = 0; i < nbl * 3; ++i) b->GetUvw().data()[i] = uvw[i];
    pf->process(std::move(b));
    sym_assert(int(next->out.size()) == t + 1, "passed on");
    const DPBuffer& o = *next->out.back();
    sym_assert(o.GetTime() == w.info.firstTime() + 10 * t, "time");
    bool same = true, right = true;
    for (size_t bl = 0; bl < nbl; ++bl) for (size_t ch = 0; ch < nch; ++ch) {
      const size_t at = (bl * nch + ch) * ncr;
      const Point x{int(bl), int(ch), t, w.info.firstTime() + 10 * t, w.info.startTime(), &uvw[3 * bl], &d[at], ncr};
      bool m = match(k1, x);
      if (k2 >= 0 && k2 != k1) m = sym_and(m, match(k2, x));
      if (mode >= 2) m = !m;
      bool valid = true;
      for (size_t c = 0; c < ncr; ++c) valid = valid && wt[at + c] != 0;
      for (size_t c = 0; c < ncr; ++c) {
        const bool got = o.GetFlags().data()[at + c], was = fl[at];
        if (mode == 0 || mode == 2) right = sym_and(right, got == sym_or(was, m));
        else if (valid) right = sym_and(right, got == sym_and(was, !m));
        else if (was) right = sym_and(right, got);
        else right = sym_and(right, sym_or(m, !got));
        same = sym_and(same, sym_and(o.GetData().data()[at + c].real() == d[at + c].real(), sym_and(o.GetData().data()[at + c].imag() == d[at + c].imag(), o.GetWeights().data()[at + c] == wt[at + c])));
      }
    }
    sym_assert(right, "the flags of what matches, and of nothing else");
    sym_assert(same, "nothing else changes");
  }
  pf->finish();
  sym_assert(next->finished == 1, "the next step is finished");
  sym_reach("select");
}
// ---- expressions of sets: a to d, each selects the channels with its bit in the channel's number
static const char* tokens[] = {"a", "b", "(", ")", "!", "&", "|", "c", " and ", " or ", " NOT ", "&&", "||", ",", "AND", "OR"};
struct Parse {  // recursive descent: or < and < not
  const std::vector<int>& t;
  size_t at = 0;
  bool bad = false;
  unsigned truth(unsigned set) { unsigned r = 0; for (unsigned ch = 0; ch < 8; ++ch) if (ch >> set & 1) r |= 1u << ch; return r; }
  bool is(std::initializer_list<int> s) { if (at < t.size()) for (int k : s) if (t[at] == k) { ++at; return true; } return false; }
  unsigned prim() {
    if (bad || at >= t.size()) { bad = true; return 0; }
    if (is({4, 10})) return ~prim() & 255;
    if (is({2})) { const unsigned r = expr(); if (!is({3})) bad = true; return r; }
    if (is({0})) return truth(0);
    if (is({1})) return truth(1);
    if (is({7})) return truth(2);
    bad = true;
    return 0;
  }
  unsigned term() { unsigned r = prim(); while (!bad && is({5, 8, 11, 14})) r &= prim(); return r; }
  unsigned expr() { unsigned r = term(); while (!bad && is({6, 9, 12, 13, 15})) r |= term(); return r; }
};
static void expression() {
  const int n = sym_param(1), lo = sym_param(2), hi = sym_param(3), first = sym_param(4);
  std::vector<int> tok;
  std::string text;
  for (int i = 0; i < n; ++i) {
    tok.push_back(i == 0 && first >= 0 ? first : int(sym_concretize(sym_choose(lo, hi, "token"))));
    auto word = [](int k) { return k == 0 || k == 1 || k == 7 || k >= 14; };
    auto joins = [](int k) { return k == 5 || k == 11 ? 1 : k == 6 || k == 12 ? 2 : 0; };
    if (i && ((word(tok[i]) && word(tok[i - 1])) || (joins(tok[i]) && joins(tok[i]) == joins(tok[i - 1])) || (tok[i] == 3 && tok[i - 1] >= 14))) text += ' ';
    text += tokens[tok[i]];
  }
  Parse want{tok};
  unsigned truth = want.expr();
  if (want.at != tok.size()) want.bad = true;
  World w(1, 8, 1);
  ParameterSet p;
  p.add("p.expr", text);
  for (int k = 0; k < 3; ++k) { static const char* const ch[] = {"[1,3,5,7]", "[2,3,6..7]", "[4..7]"}; p.add(std::string("p.") + char('a' + k) + ".chan", ch[k]); }
  std::shared_ptr<PreFlagger> pf;
  bool threw = false;
  try { pf = std::make_shared<PreFlagger>(p, "p."); } catch (const std::exception&) { threw = true; }
  sym_assert(threw == want.bad, "refused when malformed, and only then");
  if (threw) { sym_reach("malformed"); return; }
  auto next = std::make_shared<Capture>();
  pf->setNextStep(next);
  pf->setInfo(w.info);
  Buf b = makeBuf(1, 8, 1, w.info.firstTime(), 10);
  for (int i = 0; i < 8; ++i) { b->GetFlags().data()[i] = false; b->GetData().data()[i] = 1; b->GetWeights().data()[i] = 1; }
  pf->process(std::move(b));
  unsigned got = 0;
  for (int i = 0; i < 8; ++i) got |= unsigned(next->out[0]->GetFlags().data()[i]) << i;
  sym_assert(got == truth, "what the expression selects");
  sym_reach("expression");
}
// ---- sets of selections of every kind
static void sets() {
  const int which = sym_param(1), nt = 3;
  const size_t nbl = 3, nch = 4, ncr = 2;
  casacore::frameHooks().direction = toAzEl;
  casacore::frameHooks().epoch = toLst;
  World w(nbl, nch, ncr);
  struct Set { const char* name; std::vector<int> kinds; };
  static const std::vector<Set> cases[] = {
    {{"s1", {kAnt, kSlot}}, {"s2", {kUvMin, kChan}}, {"s3", {kAuto}}},
    {{"s1", {kUvMax}}, {"s2", {kRel}}, {"s3", {kEl, kFreq}}},
    {{"s1", {kChanNone}}, {"s2", {kPair, kChanNone}}, {"s3", {kSlot, kFreqNone}}},
    {{"s1", {kAz}}, {"s2", {kLst, kCross}}, {"s3", {kBlMin, kUvMin}}}};
  static const char* const exprs[] = {"s1 or s2 and not s3", "not (s1 || s2) & s3", "!s1 , s2|s3", "(s1 and !s2) or not s3"};
  const std::vector<Set>& c = cases[which];
  const int form = sym_param(2), parent = sym_param(3);
  ParameterSet p;
  p.add("p.expr", exprs[form]);
  if (parent >= 0) ask(p, "p.", parent);
  for (auto& s : c) for (int k : s.kinds) ask(p, std::string("p.") + s.name + ".", k);
  auto pf = std::make_shared<PreFlagger>(p, "p.");
  auto next = std::make_shared<Capture>();
  pf->setNextStep(next);
  pf->setInfo(w.info);
  bool uses = false;
  for (auto& s : c) for (int k : s.kinds) uses = uses || (k >= kUvMin && k <= kUvBoth);
  sym_assert(!uses || pf->getRequiredFields().Uvw(), "the coordinates are asked for");
  for (int t = 0; t < nt; ++t) {
    sky(t);
    std::vector<double> uvw(nbl * 3, 1.0);
    std::vector<C> d(ncr, C(1, 1));
    if (uses && t < 2) for (size_t i = 0; i < nbl; ++i) { double& x = uvw[3 * i + t]; x = sym_f64("uvw"); sym_assume(sym_and(x > -100, x < 100)); }
    Buf b = makeBuf(nbl, nch, ncr, w.info.firstTime() + 10 * t, 10);
    for (size_t i = 0; i < nbl * nch * ncr; ++i) { b->GetData().data()[i] = C(1, 1); b->GetFlags().data()[i] = false; b->GetWeights().data()[i] = 1; }
    for (size_t i = 0; i < nbl * 3; ++i) b->GetUvw().data()[i] = uvw[i];
    pf->process(std::move(b));
    bool right = true;
    for (size_t bl = 0; bl < nbl; ++bl) for (size_t ch = 0; ch < nch; ++ch) {
      const Point x{int(bl), int(ch), t, w.info.firstTime() + 10 * t, w.info.startTime(), &uvw[3 * bl], d.data(), ncr};
      bool m[3];
      for (int s = 0; s < 3; ++s) { m[s] = true; for (int k : c[s].kinds) m[s] = sym_and(m[s], match(k, x)); }
      bool e;
      switch (form) {
        case 0: e = sym_or(m[0], sym_and(m[1], !m[2])); break;
        case 1: e = sym_and(!sym_or(m[0], m[1]), m[2]); break;
        case 2: e = sym_or(sym_or(!m[0], m[1]), m[2]); break;
        default: e = sym_or(sym_and(m[0], !m[1]), !m[2]);
      }
      if (parent >= 0) e = sym_and(e, match(parent, x));
      for (size_t k = 0; k < ncr; ++k) right = sym_and(right, bool(next->out.back()->GetFlags()(bl, ch, k)) == e);
    }
    sym_assert(right, "what the combination of sets selects");
  }
  sym_reach("sets");
}
static void malformed() {
  static const char* const bad[][2] = {{"mode", "sets"}, {"baseline", "[[ant0,ant1,ant2]]"}, {"corrtype", "autos"}, {"blrange", "[1,2,3]"}, {"chan", "[3..2]"}, {"chan", "[..2]"}, {"chan", "[1..]"}, {"freqrange", "[100]"},
    {"timeofday", "[10]"}, {"timeofday", "[@10..@20]"}, {"abstime", "[10..20]"}, {"abstime", "[@20..@10]"}, {"abstime", "[@20+-@10]"}, {"reltime", "[5..5]"}, {"timeofday", "[5+-0]"}, {"timeofday", "[5+--1]"}, {"timeofday", "[-5..3]"}, {"expr", "s 1"}, {"expr", "s-1"}, {"amplmin", "x"}, {"uvmmax", "1"}};
  World w(3, 4, 2);
  ParameterSet p;
  p.add(std::string("p.") + bad[sym_param(1)][0], bad[sym_param(1)][1]);
  if (sym_param(1) == 20) p.add("p.uvmmin", "2");
  bool threw = false;
  try {
    auto pf = std::make_shared<PreFlagger>(p, "p.");
    pf->setNextStep(std::make_shared<Capture>());
    pf->setInfo(w.info);
  } catch (const std::exception&) { threw = true; }
  sym_assert(threw, "a malformed selection is refused");
  sym_reach("refused");
}
extern "C" void harness() {
  switch (sym_param(0)) {
    case 0: select(); break;
    case 1: expression(); break;
    case 2: sets(); break;
    case 3: malformed(); break;
  }
}
