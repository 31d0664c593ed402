// C34: steps that combine, copy, count or null data.
#include <sstream>
#include "steps.h"
#include "base/DP3.h"
#include "base/FlagCounter.h"
#include "steps/Combine.h"
#include "steps/Counter.h"
#include "steps/MultiResultStep.h"
#include "steps/NullStep.h"
#include "steps/NullStokes.h"
#include "steps/ResultStep.h"
#include "steps/Split.h"
using namespace dp3::steps;
typedef std::complex<double> Z;
static Z z(C c) { return Z(c.real(), c.imag()); }
struct In { std::vector<C> d; std::vector<char> f; std::vector<float> w; std::vector<double> u; double t, e; };
static In fill(DPBuffer& b, int each = 0) {  // each: every how many-th flag is tried both ways one by one
  In x;
  x.t = b.GetTime(); x.e = b.GetExposure();
  for (size_t i = 0; i < b.GetData().size(); ++i) {
    x.d.push_back(symc("data")); x.f.push_back(each ? i % each == 0 ? symflag("flag") : i % 3 == 0 : bool(sym_choose(0, 1, "flag"))); x.w.push_back(sym_f32("weight"));
    b.GetData().data()[i] = x.d[i]; b.GetFlags().data()[i] = x.f[i]; b.GetWeights().data()[i] = x.w[i];
  }
  for (size_t i = 0; i < b.GetUvw().size(); ++i) { x.u.push_back(sym_f64("uvw")); b.GetUvw().data()[i] = x.u[i]; }
  return x;
}
static void same(const DPBuffer& b, const In& x, bool data = true) {
  sym_assert(b.GetData().size() == x.d.size() && b.GetFlags().size() == x.d.size() && b.GetWeights().size() == x.d.size() && b.GetUvw().size() == x.u.size(), "shapes");
  sym_assert(sym_and(b.GetTime() == x.t, b.GetExposure() == x.e), "time and exposure are unchanged");
  for (size_t i = 0; i < x.d.size(); ++i) {
    if (data) closec(b.GetData().data()[i], z(x.d[i]), "data are unchanged");
    sym_assert(b.GetFlags().data()[i] == bool(x.f[i]), "flags are unchanged");
    sym_close(b.GetWeights().data()[i], x.w[i], "weights are unchanged");
  }
  for (size_t i = 0; i < x.u.size(); ++i) sym_close(b.GetUvw().data()[i], x.u[i], "uvw are unchanged");
}
static void stokes() {
  const int mask = sym_param(1);
  const size_t nbl = sym_param(2), nch = sym_param(3);
  ParameterSet p;
  const char* n[] = {"n.modify_i", "n.modify_q", "n.modify_u", "n.modify_v"};
  for (int k = 0; k < 4; ++k) if (mask & 1 << k) p.add(n[k], "true");
  auto s = std::make_shared<NullStokes>(p, "n.");
  auto next = std::make_shared<Capture>();
  s->setNextStep(next);
  DPInfo info(4, nch);
  s->setInfo(info);
  sym_assert(s->getRequiredFields().Data() && s->getProvidedFields().Data(), "fields");
  Buf b = makeBuf(nbl, nch, 4, 3, 4);
  const In x = fill(*b);
  s->process(std::move(b));
  s->finish();
  sym_assert(next->out.size() == 1 && next->finished == 1, "passed on");
  const DPBuffer& o = *next->out[0];
  same(o, x, false);
  for (size_t i = 0; i < x.d.size(); i += 4) {
    const Z a = z(x.d[i]), bb = z(x.d[i + 1]), c = z(x.d[i + 2]), d = z(x.d[i + 3]);
    const C* g = o.GetData().data() + i;
    closec(g[0] + g[3], mask & 1 ? Z(0) : a + d, "Stokes I");
    closec(g[0] - g[3], mask & 2 ? Z(0) : a - d, "Stokes Q");
    closec(g[1] + g[2], mask & 4 ? Z(0) : bb + c, "Stokes U");
    closec(g[1] - g[2], mask & 8 ? Z(0) : bb - c, "Stokes V");
  }
  sym_reach("stokes");
}
static void wrongcorr() {
  const unsigned ncr = sym_param(1);
  ParameterSet p;
  p.add("n.modify_q", "true");
  NullStokes s(p, "n.");
  bool threw = false;
  try { s.updateInfo(DPInfo(ncr, 3)); } catch (std::exception&) { threw = true; }
  sym_assert(threw == (ncr != 4), "Stokes parameters need four correlations");
  sym_reach("correlations");
}
static void combine() {
  const bool add = sym_param(1), bda = sym_param(2);
  const size_t nbl = 2, nch = 2, ncr = sym_param(3);
  ParameterSet p;
  p.add("c.buffername", "other");
  if (add) p.add("c.operation", "add");
  auto s = std::make_shared<Combine>(p, "c.", bda ? Step::MsType::kBda : Step::MsType::kRegular);
  auto next = std::make_shared<Capture>();
  s->setNextStep(next);
  s->setInfo(DPInfo(ncr, nch));
  sym_assert(s->accepts(Step::MsType::kBda) == bda && s->accepts(Step::MsType::kRegular) == !bda && s->outputs() == (bda ? Step::MsType::kBda : Step::MsType::kRegular), "kind of data");
  std::vector<C> a, o, got;
  if (bda) {
    const size_t n = (nch + 1) * ncr;
    for (size_t i = 0; i < n; ++i) { a.push_back(symc("data")); o.push_back(symc("other")); }
    auto b = std::make_unique<BdaBuffer>(n + ncr, Fields(Fields::Single::kData));
    b->AddRow(1, 2, 2, 0, nch, ncr, 0, a.data());
    b->AddRow(1, 2, 2, 1, 1, ncr, 1, a.data() + nch * ncr);
    b->AddData("other");
    for (size_t i = 0; i < n; ++i) b->GetData("other")[i] = o[i];
    s->process(std::move(b));
    sym_assert(next->bda.size() == 1, "passed on");
    sym_assert(!next->bda[0]->HasData("other") && next->bda[0]->HasData(), "the other data are gone");
    sym_assert(next->bda[0]->GetRows().size() == 2, "rows");
    got.assign(next->bda[0]->GetData(), next->bda[0]->GetData() + n);
  } else {
    Buf b = makeBuf(nbl, nch, ncr, 3, 4);
    const In x = fill(*b);
    a = x.d;
    b->AddData("other");
    for (size_t i = 0; i < a.size(); ++i) { o.push_back(symc("other")); b->GetData("other").data()[i] = o[i]; }
    s->process(std::move(b));
    sym_assert(next->out.size() == 1, "passed on");
    same(*next->out[0], x, false);
    sym_assert(!next->out[0]->HasData("other"), "the other data are gone");
    got.assign(next->out[0]->GetData().begin(), next->out[0]->GetData().end());
  }
  s->finish();
  sym_assert(next->finished == 1, "finished");
  for (size_t i = 0; i < a.size(); ++i) closec(got[i], add ? z(a[i]) + z(o[i]) : z(a[i]) - z(o[i]), "sum or difference");
  sym_reach(add ? "add" : "subtract");
}
static void badcombine() {
  ParameterSet p;
  p.add("c.buffername", "other");
  p.add("c.operation", sym_param(1) ? "Subtract" : "multiply");
  bool threw = false;
  try { Combine c(p, "c.", Step::MsType::kRegular); } catch (std::invalid_argument&) { threw = true; }
  sym_assert(threw, "an unknown operation is refused");
  sym_reach("badoperation");
}
static void keep() {
  const bool multi = sym_param(1), chained = sym_param(2);
  const int nt = 3;
  auto one = std::make_shared<ResultStep>();
  auto many = std::make_shared<MultiResultStep>(nt);
  std::shared_ptr<Step> s = multi ? std::shared_ptr<Step>(many) : one;
  auto next = std::make_shared<Capture>();
  if (chained) s->setNextStep(next);
  s->setInfo(DPInfo(2, 1));
  std::vector<In> in;
  for (int round = 0; round < (multi ? 2 : 1); ++round) {
    in.clear();
    for (int t = 0; t < nt; ++t) {
      Buf b = makeBuf(1, 1, 2, t, 1);
      in.push_back(fill(*b));
      s->process(std::move(b));
      if (!multi) { same(one->get(), in.back()); Buf taken = one->take(); same(*taken, in.back()); }
      else sym_assert(int(many->size()) == t + 1, "number of kept buffers");
    }
    if (multi) {
      for (int t = 0; t < nt; ++t) { same(*many->get()[t], in[t]); if (chained) same(*next->out[round * nt + t], in[t]); }
      if (chained) { many->get()[0]->GetData().fill(C(77)); same(*next->out[round * nt], in[0]); }
      many->clear();
      sym_assert(many->size() == 0, "cleared");
    }
  }
  s->finish();
  if (multi && chained) sym_assert(next->finished == 1, "finished");
  sym_reach("kept");
}
static void count() {
  const size_t nbl = 2, nch = 2, ncr = 2;
  const int nt = 2;
  auto s = std::make_shared<Counter>(ParameterSet(), "c.");
  auto next = std::make_shared<Capture>();
  s->setNextStep(next);
  DPInfo info(ncr, nch);
  setAnts(info, 3, {0, 1}, {1, 2});
  setChans(info, nch);
  s->setInfo(info);
  sym_assert(s->getRequiredFields().Flags() && !s->getProvidedFields().Flags(), "fields");
  int bl[2] = {0, 0}, ch[2] = {0, 0}, all = 0;
  for (int t = 0; t < nt; ++t) {
    Buf b = makeBuf(nbl, nch, ncr, t, 1);
    In x = fill(*b, ncr);
    s->process(std::move(b));
    same(*next->out.back(), x);
    for (size_t i = 0; i < x.f.size(); i += ncr) if (x.f[i]) { ++bl[i / (nch * ncr)]; ++ch[i / ncr % nch]; ++all; }
  }
  s->finish();
  std::ostringstream os;
  s->showCounts(os);
  const std::string o = os.str();
  auto perc = [](int n, int of) { return std::to_string(int(100.0 * n / of + 0.5)) + "%"; };
  // percentages: stations with each other, per station and per channel
  auto squeeze = [](const std::string& t) { std::string r; for (char c : t) if (c != ' ' || (!r.empty() && r.back() != ' ')) r += c; return r; };
  const std::string q = squeeze(o.substr(o.find(" ant")));
  const std::string b01 = perc(bl[0], 4), b12 = perc(bl[1], 4), mid = perc(bl[0] + bl[1], 8);
  const std::string want = "ant 0 1 2\n0 " + b01 + " \n1 " + b01 + " " + b12 + "\n2 " + b12 + " \nTOTAL " + b01 + " " + mid + " " + b12;
  std::string got = q;
  std::string g2, w2;
  for (char c : got) if (c != ' ' && c != '\n') g2 += c;
  for (char c : want) if (c != ' ' && c != '\n') w2 += c;
  sym_assert(g2.compare(0, w2.size(), w2) == 0, "percentages per baseline and station");
  std::string c2, e2 = "0-1:" + perc(ch[0], 4) + perc(ch[1], 4) + "Totalflagged:";
  const std::string part = o.substr(o.find("per channel:") + 12);
  for (char c : part.substr(part.find("0-"))) if (c != ' ' && c != '\n') c2 += c;
  sym_assert(c2.compare(0, e2.size(), e2) == 0, "percentages per channel");
  sym_assert(c2.find("(" + std::to_string(all) + "outof8visibilities)") != std::string::npos, "total");
  sym_reach("count");
}
// ---- split
static std::vector<std::shared_ptr<Capture>> subs;
static std::vector<std::string> seen;
static std::vector<Fields> provided;
namespace dp3::base {
std::shared_ptr<Step> MakeStepsFromParset(const common::ParameterSet& p, const std::string& prefix, const std::string& key, const std::string& ms, bool end, Step::MsType type) {
  sym_assert(prefix == "s." && key == "steps" && end && type == Step::MsType::kRegular, "the steps of the split");
  seen.push_back(p.getString("avg.timestep") + "/" + p.getString("out.name") + "/" + p.getString("same"));
  subs.push_back(std::make_shared<Capture>());
  return subs.back();
}
Fields GetChainRequiredFields(std::shared_ptr<Step> s) { for (size_t i = 0; i < subs.size(); ++i) if (subs[i] == s) return i ? Fields(Fields::Single::kUvw) : Fields(Fields::Single::kData); return Fields(); }
Fields SetChainProvidedFields(std::shared_ptr<Step> s, Fields f) { provided.push_back(f); return f; }
}
static void split() {
  const int n = sym_param(1);
  ParameterSet p;
  p.add("s.replaceparms", "[avg.timestep,out.name]");
  std::string a = "[", b = "[";
  for (int i = 0; i < n; ++i) { a += (i ? "," : "") + std::to_string(i + 2); b += std::string(i ? "," : "") + "ms" + std::to_string(i); }
  p.add("avg.timestep", a + "]"); p.add("out.name", b + "]"); p.add("same", "x");
  auto s = std::make_shared<Split>(p, "s.");
  sym_assert(int(subs.size()) == n, "a branch for each value");
  for (int i = 0; i < n; ++i) sym_assert(seen[i] == std::to_string(i + 2) + "/ms" + std::to_string(i) + "/x", "each branch has its own values");
  const Fields req = s->getRequiredFields();
  sym_assert(req.Data() == (n > 0) && req.Uvw() == (n > 1), "the fields of all branches");
  s->SetFieldsToWrite(Fields(Fields::Single::kFlags));
  sym_assert(int(provided.size()) == n, "told to each branch");
  for (auto& f : provided) sym_assert(f.Flags() && !f.Data(), "the fields to write");
  DPInfo info(2, 1);
  s->setInfo(info);
  for (auto& c : subs) sym_assert(c->getInfoIn().ncorr() == 2, "the description is given to each branch");
  std::vector<In> in;
  for (int t = 0; t < 2; ++t) {
    Buf buf = makeBuf(1, 1, 2, t, 1);
    in.push_back(fill(*buf));
    s->process(std::move(buf));
    if (t == 0 && n > 1) subs[0]->out[0]->GetData().fill(C(5));  // what one branch does
  }
  for (int i = 0; i < n; ++i) {
    sym_assert(subs[i]->out.size() == 2, "all data to each branch");
    for (int t = 0; t < 2; ++t) if (i || t || n == 1) same(*subs[i]->out[t], in[t]);
  }
  s->finish();
  for (auto& c : subs) sym_assert(c->finished == 1, "each branch is finished");
  bool threw = false;
  try { s->setNextStep(std::make_shared<Capture>()); } catch (std::runtime_error&) { threw = true; }
  sym_assert(threw, "a split ends the chain");
  sym_reach("split");
}
static void badsplit() {
  ParameterSet p;
  p.add("s.replaceparms", "[avg.timestep,out.name]");
  p.add("avg.timestep", "[1,2]"); p.add("out.name", sym_param(1) ? "[a]" : "[a,b,c]"); p.add("same", "x");
  bool threw = false;
  try { Split s(p, "s."); } catch (std::runtime_error&) { threw = true; }
  sym_assert(threw, "different numbers of values are refused");
  sym_reach("badsplit");
}
extern "C" void harness() {
  switch (sym_param(0)) {
    case 0: stokes(); break;
    case 1: wrongcorr(); break;
    case 2: combine(); break;
    case 3: badcombine(); break;
    case 4: keep(); break;
    case 5: count(); break;
    case 6: split(); break;
    case 7: badsplit(); break;
  }
}
