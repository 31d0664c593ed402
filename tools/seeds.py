SEEDS = []
def S(id, p, needs, breaks, edits, demo, src=(), fl="", libs="", stubs=()):
    SEEDS.append(dict(id=id, p=p, needs=needs, breaks=breaks, edits=edits, demo=demo, src=list(src), fl=fl, libs=libs, stubs=list(stubs)))
ST = ["common/StringTools.cc"]
PS = ["common/ParameterValue.cc", "common/ParameterRecord.cc", "common/ParameterSet.cc", "common/ParameterSetImpl.cc", "common/StringTools.cc"]
LOG = ["aocommon/logger.h"]

S("bl_wide", "C01", "more than 65535 stations, column-major order",
  "baseline numbers of stations beyond 65535 wrap to 32 bits and collide",
  [("common/baseline_indices.h", "size_t((col * (col + 1)) / 2) + row", "size_t((static_cast<unsigned>(col) * static_cast<unsigned>(col + 1)) / 2) + row")],
  r'''
#include "common/baseline_indices.h"
using namespace dp3::common;
int main() {
  const size_t n = 100000;
  return ComputeBaselineIndex(3, 99999, n, BaselineOrder::kColumnMajor) == 99999ul * 100000ul / 2 + 3 ? 0 : 1;
}
''')
S("brace_suffix", "C05", "a range in braces that is followed by a suffix of two or more characters",
  "only the first character of the suffix is kept",
  [("common/StringTools.cc", "suffix = suffix.substr(1, lsuf - 1);", "suffix = suffix.substr(1, 1);")],
  r'''
#include "common/StringTools.h"
int main() { return dp3::common::expandRangeString("[a{1..3}bc]") == "[a1bc,a2bc,a3bc]" ? 0 : 1; }
''', ST)
S("mult_quote", "C06", "a repeated parenthesised list holding a quoted semicolon",
  "the semicolon inside the quotes is replaced by a comma",
  [("common/StringTools.cc", '''              if (val[stv] == '"' || val[stv] == '\\'') {
                stv = skipQuoted(val, stv);
              } else {
                if (val[stv] == ';') {''', '''              if (val[stv] == '"') {
                stv = skipQuoted(val, stv);
              } else {
                if (val[stv] == ';') {''')],
  r'''
#include "common/StringTools.h"
int main() { return dp3::common::expandMultString("2*('a;b';c)") == "'a;b',c,'a;b',c" ? 0 : 1; }
''', ST)
S("apply_conj", "C11", "non-diagonal station gains with an imaginary part",
  "the off-diagonal gain of the second station is not conjugated",
  [("base/Apply.cc", "const std::complex<double> Jq_10(coeff[4], -coeff[5]);", "const std::complex<double> Jq_10(coeff[4], coeff[5]);")],
  r'''
#include "base/Apply.h"
#include <vector>
using namespace dp3::base;
int main() {
  std::vector<Baseline> b{Baseline(0, 1)};
  std::vector<double> g{1, 0, 0, 0, 0, 0, 1, 0, 1, 0, 0, 0, 0, 1, 1, 0};
  std::vector<std::complex<double>> d{2, 0, 0, 0};
  const size_t gs[2] = {1, 8}, ds[3] = {1, 4, 4};
  apply(1, 1, const_cursor<Baseline>(&b[0]), const_cursor<double>(&g[0], 2, gs), cursor<std::complex<double>>(&d[0], 3, ds));
  return std::abs(d[1] - std::complex<double>(0, -2)) < 1e-9 ? 0 : 1;
}
''', ["base/Apply.cc"])
S("sub_auto", "C12", "an autocorrelation followed by a cross-correlation, several channels",
  "the mixing weights of baselines after an autocorrelation are taken from the wrong position",
  [("base/SubtractMixed.cc", '''      weight.backward(1, nChannel);
      model.backward(1, nChannel);
      data.backward(1, nChannel);
    }

    // Move to the next baseline.
    weight.forward(2);
''', '''      weight.backward(1, nChannel);
      model.backward(1, nChannel);
      data.backward(1, nChannel);
      weight.forward(2);
    }

    // Move to the next baseline.
''')],
  r'''
#include "base/SubtractMixed.h"
#include <vector>
using namespace dp3::base;
int main() {
  std::vector<Baseline> b{Baseline(0, 0), Baseline(0, 1)};
  std::vector<std::complex<float>> d(8, 10.0f);
  std::vector<std::complex<double>> m(8, 1.0), w(8);
  for (int i = 0; i < 8; ++i) w[i] = i;
  const size_t s[3] = {1, 4, 4};
  float a, c;
  subtract(2, 1, const_cursor<Baseline>(&b[0]), cursor<std::complex<float>>(&d[0], 3, s), const_cursor<std::complex<double>>(&m[0], 3, s), const_cursor<std::complex<double>>(&w[0], 3, s), a, c);
  for (int i = 4; i < 8; ++i) if (d[i] != std::complex<float>(10 - i)) return 1;
  return 0;
}
''', ["base/SubtractMixed.cc"])
S("bits_span", "C13", "packing more flags than fit in the first byte at a start bit other than a multiple of eight",
  "the flags behind the first byte are read from the wrong bits",
  [("common/DataConvert.cc", '''    const unsigned char ch = bits[i];
    // Take care of correct number of bits in last byte.''', '''    const unsigned char ch = startbit == 5 ? bits[i] >> 1 : bits[i];
    // Take care of correct number of bits in last byte.''')],
  r'''
#include "common/DataConvert.h"
using namespace dp3::common;
int main() {
  for (unsigned st = 0; st < 9; ++st) {
    bool in[13], out[13]; unsigned char b[6] = {};
    for (int i = 0; i < 13; ++i) in[i] = i % 3 == 0;
    boolToBit(b, in, 13, st); bitToBool(out, b, 13, st);
    for (int i = 0; i < 13; ++i) if (in[i] != out[i]) return 1;
  }
  return 0;
}
''', ["common/DataConvert.cc"])
S("mount_depth", "C14", "a deep mount point that is listed before a shallower one",
  "only the depth of the last mount point is searched, so the deeper mount is missed",
  [("common/NodeDesc.cc", "    if (nr > nrp) {\n      nrp = nr;\n    }", "    if (nr > 0) {\n      nrp = nr;\n    }")],
  r'''
#include "common/NodeDesc.h"
int main() {
  dp3::common::NodeDesc n;
  n.addFileSys("deep", "/data/scratch"); n.addFileSys("top", "/data");
  return n.findFileSys("/data/scratch/x/y") == "deep" ? 0 : 1;
}
''', ["common/NodeDesc.cc"] + PS, stubs=LOG)
S("split_brace", "C15", "a list element that is a braced record with more than one field",
  "a comma inside a braced record splits the list",
  [("common/ParameterValue.cc", "        if (nrpar + nrbracket + nrbrace == 0) {", "        if (nrpar + nrbracket == 0) {")],
  r'''
#include "common/ParameterValue.h"
int main() { return dp3::common::ParameterValue("[{a:1,b:2},3]").getVector().size() == 2 ? 0 : 1; }
''', PS, stubs=LOG)
S("rec_quote", "C16", "a record field whose quoted name contains a colon",
  "the field name is cut at the colon inside the quotes",
  [("common/ParameterValue.cc", "if (str[0] == '\"' || str[0] == '\\'') {\n      st = skipQuoted", "if (str[0] == '\"') {\n      st = skipQuoted")],
  r'''
#include "common/ParameterValue.h"
#include "common/ParameterRecord.h"
int main() {
  try {
    auto r = dp3::common::ParameterValue("{'a:b':3}").getRecord();
    return r.isDefined("a:b") && r.getInt("a:b") == 3 ? 0 : 1;
  } catch (std::exception&) { return 1; }
}
''', PS, stubs=LOG)
S("time_hours", "C17", "a time with a capital unit letter",
  "H is not taken as hours",
  [("common/ParameterValue.cc", "    case 'h':\n    case 'H':", "    case 'h':")],
  r'''
#include "common/ParameterValue.h"
int main() { return dp3::common::ParameterValue("2H", false).getTime() == 7200 ? 0 : 1; }
''', PS, stubs=LOG)
S("line_cont", "C18", "a quoted value that is continued on the next line with a quoted part",
  "a blank is inserted between two quoted parts of a continued value",
  [("common/ParameterSetImpl.cc", "if (line[stval] != '\"' && line[stval] != '\\'') {", "if (line[stval] != '\"') {")],
  r'''
#include "common/ParameterSet.h"
int main() { dp3::common::ParameterSet p; p.adoptBuffer("a='x'\n'y'\nb=1\n"); return p.get("a").get() == "'x''y'" ? 0 : 1; }
''', PS, stubs=LOG)
S("subset_case", "C19", "a case-insensitive parameter set and a prefix with capital letters",
  "the names removed by prefix are compared with their case",
  [("common/ParameterSetImpl.cc", "? boost::to_lower_copy(iter->first).compare(0, length, prefix) == 0", "? iter->first.compare(0, length, prefix) == 0")],
  r'''
#include "common/ParameterSet.h"
int main() { dp3::common::ParameterSet p(true); p.add("Step.a", "1"); p.add("z", "2"); p.subtractSubset("STEP."); return p.size() == 1 ? 0 : 1; }
''', PS, stubs=LOG)
S("track_default", "C20", "asking for a vector that is present, with a default",
  "the setting is not marked as used and is reported as unused",
  [("common/ParameterSetImpl.cc", "const_iterator it = findKV(aKey, false);                                   \\\n    if (it == end()) return aValue;                                            \\\n    ParameterValue value(it->second);", "const_iterator it = find(aKey);                                   \\\n    if (it == end()) return aValue;                                            \\\n    ParameterValue value(it->second);")],
  r'''
#include "common/ParameterSet.h"
int main() { dp3::common::ParameterSet p; p.add("a", "[1,2]"); p.getIntVector("a", std::vector<int>()); return p.unusedKeys().empty() ? 0 : 1; }
''', PS, stubs=LOG)
S("mode_mask", "C10", "a receiver mode number beyond one byte, such as 259",
  "the number is taken modulo 256 and selects another mode instead of giving an error",
  [("base/RcuMode.h", "    if (mode_number >= Mode::Unused && mode_number <= Mode::HBA210_270) {\n      return {static_cast<Mode>(mode_number)};", "    const unsigned char code = mode_number;\n    if (code <= Mode::HBA210_270) {\n      return {static_cast<Mode>(code)};")],
  r'''
#include "base/RcuMode.h"
int main() { try { dp3::base::RcuMode::FromNumber(259); return 1; } catch (std::exception&) { return 0; } }
''')

S("hex_upper", "C02", "an unsigned setting written in hexadecimal with a capital X",
  "0X1F is rejected for unsigned settings",
  [("common/StringTools.cc", '''    val = strtoul(str + st, &endPtr, 0);''', '''    val = strtoul(str + st, &endPtr, str[st + 1] == 'x' ? 16 : 10);''')],
  r'''
#include "common/StringTools.h"
#include <stdexcept>
int main() { try { return dp3::common::strToUint("0X1F") == 31 ? 0 : 1; } catch (std::exception&) { return 1; } }
''', ST)
S("fields_short", "C07", "a step that provides exactly the fields needed after it and requires one of them",
  "the fields the step itself requires are lost",
  [("common/Fields.h", '''    value_ |= required.value_;
    value_ &= ~to_reset;''', '''    if (provided.value_ == value_ && value_.count() > 2) {
      value_.reset();
      return *this;
    }
    value_ |= required.value_;
    value_ &= ~to_reset;''')],
  r'''
#include "common/Fields.h"
using dp3::common::Fields;
int main() {
  const Fields all = Fields(Fields::Single::kData) | Fields(Fields::Single::kFlags) | Fields(Fields::Single::kWeights);
  Fields f = all;
  f.UpdateRequirements(all, all);
  return f == all ? 0 : 1;
}
''', ["common/Fields.cc"])
S("resample_wgt", "C08", "constraint results with more than one value per antenna and direction",
  "only the first weight of each direction is resampled",
  [("ddecal/SolutionResampler.cc", '''              std::copy_n(input_result.weights.begin() + in_index,
                          residual_dims,''', '''              std::copy_n(input_result.weights.begin() + in_index,
                          std::min<size_t>(residual_dims, 2),''')],
  r'''
#include "ddecal/SolutionResampler.h"
using namespace dp3::ddecal;
int main() {
  SolutionResampler r({1, 2}, 1, 2);
  std::vector<std::vector<std::vector<ConstraintResult>>> in(1);
  in[0].resize(1); in[0][0].resize(1);
  ConstraintResult& c = in[0][0][0];
  c.dims = {1, 3, 3}; c.axes = "ant,dir,freq"; c.name = "tec";
  for (int i = 0; i < 9; ++i) { c.vals.push_back(i); c.weights.push_back(100 + i); }
  auto out = r.Upsample(in);
  for (int t = 0; t < 2; ++t)
    for (int d = 0; d < 2; ++d)
      for (int f = 0; f < 3; ++f) if (out[t][0][0].weights[d * 3 + f] != 100 + (d ? 1 + t : 0) * 3 + f) return 1;
  return 0;
}
''', ["ddecal/SolutionResampler.cc"])

STEPS = ["steps/Step.cc", "base/DPInfo.cc", "base/DPBuffer.cc", "base/BdaBuffer.cc", "common/Fields.cc", "common/ParameterSet.cc", "common/ParameterSetImpl.cc", "common/ParameterValue.cc", "common/ParameterRecord.cc", "common/StringTools.cc", "base/FlagCounter.cc"]
STUBS = ["casacore", "xtensor", "aocommon", "EveryBeam", "schaapcommon"]
STEPDEMO = r'''
#include <cmath>
#include <memory>
#include "base/DPBuffer.h"
#include "base/DPInfo.h"
#include "common/ParameterSet.h"
#include "steps/Step.h"
using namespace dp3::base;
using dp3::common::Fields;
struct Last : dp3::steps::Step {
  std::vector<std::unique_ptr<DPBuffer>> out;
  bool process(std::unique_ptr<DPBuffer> b) override { out.push_back(std::move(b)); return true; }
  void finish() override {}
  void show(std::ostream&) const override {}
  Fields getRequiredFields() const override { return Fields(); }
  Fields getProvidedFields() const override { return Fields(); }
};
DPInfo info(int nbl, const int* a1, const int* a2, int nch, int ncr) {
  DPInfo i(ncr, nch);
  std::vector<casacore::MPosition> pos;
  for (int k = 0; k < 4; ++k) pos.push_back(casacore::MPosition(casacore::MVPosition(10.0 * k * k, 0, 0), casacore::MPosition::ITRF));
  i.setAntennas({"a", "b", "c", "d"}, {1, 1, 1, 1}, pos, {a1, a1 + nbl}, {a2, a2 + nbl});
  std::vector<double> f, w;
  for (int k = 0; k < nch; ++k) { f.push_back(100e6 + 1e6 * k); w.push_back(1e6); }
  i.setChannels(std::move(f), std::move(w));
  i.setTimes(105, 145, 10);
  return i;
}
std::unique_ptr<DPBuffer> buffer(size_t nbl, size_t nch, size_t ncr, double time) {
  auto b = std::make_unique<DPBuffer>(time, 10);
  b->GetData().resize({nbl, nch, ncr}); b->GetFlags().resize({nbl, nch, ncr}); b->GetWeights().resize({nbl, nch, ncr}); b->GetUvw().resize({nbl, 3});
  for (size_t k = 0; k < nbl * nch * ncr; ++k) { b->GetData().data()[k] = std::complex<float>(k + 1, 2 * k + 1); b->GetFlags().data()[k] = false; b->GetWeights().data()[k] = 1; }
  for (size_t k = 0; k < nbl * 3; ++k) b->GetUvw().data()[k] = k + 1;
  return b;
}
'''
S("super_uvw", "C41", "useweights=false and a member of the superstation that comes first in a baseline",
  "the coordinates of such a baseline are added instead of subtracted",
  [("steps/StationAdder.cc", "uvwPtr[ui] -= inUvwPtr[ui];", "uvwPtr[ui] += inUvwPtr[ui];")],
  STEPDEMO + r'''
#include "steps/StationAdder.h"
#include "base/UVWCalculator.h"
namespace dp3 { namespace base {
UVWCalculator::UVWCalculator(const casacore::MDirection&, const casacore::MPosition&, const std::vector<casacore::MPosition>&) {}
std::array<double, 3> UVWCalculator::getUVW(unsigned, unsigned, double) { return {0, 0, 0}; }
} }
int main() {
  const int a1[] = {0, 2}, a2[] = {2, 1};
  dp3::common::ParameterSet p;
  p.add("p.stations", "{S:[a,b]}");
  p.add("p.useweights", "false");
  auto s = std::make_shared<dp3::steps::StationAdder>(p, "p.");
  auto l = std::make_shared<Last>();
  s->setNextStep(l);
  s->setInfo(info(2, a1, a2, 1, 1));
  s->process(buffer(2, 1, 1, 105));
  return l->out[0]->GetUvw()(2, 0) == (4.0 - 1.0) / 2 ? 0 : 1;
}
''', ["steps/StationAdder.cc"] + STEPS, fl="", libs="-lpthread", stubs=STUBS)
S("avg_perc", "C30", "a minimum percentage and a number of times that is no multiple of the averaging factor",
  "the minimum percentage of the last, smaller group of times is taken of a full group",
  [("steps/Averager.cc", "const unsigned int n_averaged_all = n_averaged_chan * itsNTimes;", "const unsigned int n_averaged_all = n_averaged_chan * itsNTimeAvg;")],
  STEPDEMO + r'''
#include "steps/Averager.h"
int main() {
  const int a1[] = {0}, a2[] = {1};
  dp3::common::ParameterSet p;
  p.add("p.freqstep", "2");
  p.add("p.timestep", "2");
  p.add("p.minperc", "75");
  auto s = std::make_shared<dp3::steps::Averager>(p, "p.");
  auto l = std::make_shared<Last>();
  s->setNextStep(l);
  s->setInfo(info(1, a1, a2, 2, 1));
  for (int k = 0; k < 5; ++k) s->process(buffer(1, 2, 1, 105 + 10 * k));
  s->finish();
  return l->out.size() == 3 && !l->out[0]->GetFlags()(0, 0, 0) && !l->out[2]->GetFlags()(0, 0, 0) ? 0 : 1;
}
''', ["steps/Averager.cc"] + STEPS, libs="-lpthread", stubs=STUBS)
