// C10: calibration types and receiver modes.
#include "util.h"
#include "base/CalType.h"
#include "base/RcuMode.h"
using namespace dp3::base;
static const struct { const char* s; CalType t; int pol; } kNames[] = {
    {"diagonal", CalType::kDiagonal, 2}, {"complexgain", CalType::kDiagonal, 2}, {"diagonalphase", CalType::kDiagonalPhase, 2},
    {"phaseonly", CalType::kDiagonalPhase, 2}, {"diagonalamplitude", CalType::kDiagonalAmplitude, 2}, {"amplitudeonly", CalType::kDiagonalAmplitude, 2},
    {"scalar", CalType::kScalar, 1}, {"scalarcomplexgain", CalType::kScalar, 1}, {"scalarcomplex", CalType::kScalar, 1},
    {"scalaramplitude", CalType::kScalarAmplitude, 1}, {"scalarphase", CalType::kScalarPhase, 1}, {"tec", CalType::kTec, 1},
    {"tec+delay", CalType::kTecAndDelay, 1}, {"tec+phase", CalType::kTecAndPhase, 1}, {"tecandphase", CalType::kTecAndPhase, 1},
    {"tec+phase+delay", CalType::kTecPhaseAndDelay, 1}, {"tecscreen", CalType::kTecScreen, 1}, {"fulljones", CalType::kFullJones, 4},
    {"rotation+diagonal", CalType::kRotationAndDiagonal, 4}, {"rotation", CalType::kRotation, 4}, {"faradayrotation", CalType::kFaradayRotation, 4},
    {"leakage", CalType::kLeakage, 4}, {"leakageamplitude", CalType::kLeakageAmplitude, 4}};
extern "C" void harness() {
  sym_opaque_fmt(true);
  const int part = sym_param(0);
  if (part == 0) {  // every text: accepted exactly if it is a documented name
    const int base = sym_param(1);
    std::string s = base < 0 ? symstr("s", sym_param(2)) : std::string(kNames[base].s);
    if (base >= 0) {
      // a documented name in which any one position is replaced by any character, or extended by one
      const int pos = sym_choose(0, int(s.size()), "pos");
      if (pos == int(s.size())) s += symstr("c", 1);
      else s[pos] = symstr("c", 1)[0];
    }
    int want = -1;
    bool known = false;
    uint64_t w = 99;
    for (auto& k : kNames) {
      if (std::strlen(k.s) != s.size()) continue;
      bool eq = true;
      for (size_t i = 0; i < s.size(); ++i) eq = sym_and(eq, s[i] == k.s[i]);
      known = sym_or(known, eq);
      w = sym_ite_u64(eq, uint64_t(k.t), w);
    }
    (void)want;
    try {
      const CalType t = StringToCalType(s);
      sym_assert(known, "unknown calibration mode is rejected");
      sym_assert(uint64_t(t) == w, "calibration mode selected by its name");
      sym_reach("accepted");
    } catch (std::runtime_error&) {
      sym_assert(!known, "documented calibration mode is accepted");
      sym_reach("rejected");
    }
  } else if (part == 1) {  // round trip for every type
    const uint8_t v = sym<uint8_t>("type");
    sym_assume(v <= uint8_t(CalType::kLeakageAmplitude));
    const CalType t = CalType(v);
    std::string n;
    try { n = ToString(t); } catch (std::runtime_error&) { sym_fail("every calibration type has a name"); return; }
    try {
      sym_assert(StringToCalType(n) == t, "the printed name selects the same calibration type");
    } catch (std::runtime_error&) { sym_fail("the printed name of a calibration type is a valid setting"); }
    size_t np = 0;
    for (auto& k : kNames) np = sym_ite_u64(k.t == t, k.pol, np);
    sym_assert(GetNPolarizations(t) == np, "number of polarisations of a calibration type");
    sym_reach("roundtrip");
  } else {  // receiver modes
    int m = sym<int>("mode");
    RcuMode r;
    try {
      r = RcuMode::FromNumber(m);
    } catch (std::runtime_error&) {
      sym_assert(sym_or(m < 0, m > 7), "valid mode numbers are accepted");
      sym_reach("badmode");
      return;
    }
    sym_assert(sym_and(m >= 0, m <= 7), "invalid mode numbers are rejected");
    sym_assert(int(r.mode) == m, "mode number is kept");
    sym_opaque_fmt(false);
    sym_assert(r == RcuMode::Mode(m), "comparison");
    m = int(sym_concretize(uint32_t(m)));
    bool threw = false;
    double bw = 0, cf = 0, fo = 0;
    try { bw = r.Bandwidth(); } catch (std::runtime_error&) { threw = true; }
    sym_assert(threw == (m == 0), "bandwidth is defined for every used mode");
    threw = false;
    try { cf = r.CentralFrequency(); } catch (std::runtime_error&) { threw = true; }
    sym_assert(threw == (m == 0), "central frequency is defined for every used mode");
    threw = false;
    try { fo = r.FrequencyOffset(); } catch (std::runtime_error&) { threw = true; }
    sym_assert(threw == (m == 0), "frequency offset is defined for every used mode");
    const std::string ant = r.AntennaType(), txt = r.ToString();
    if (m == 0) {
      sym_assert(ant == "?" && txt == "unused", "unused mode");
      sym_reach("unused");
      return;
    }
    sym_assert(ant == (m <= 4 ? "LBA" : "HBA"), "antenna type");
    // 1024 sub-bands of half the sampling clock; the offset is the start of the Nyquist zone
    const double clock = m == 6 ? 160e6 : 200e6;
    sym_assert(bw == clock / 1024, "bandwidth follows the clock");
    sym_assert(fo == (m <= 4 ? 0 : m == 5 ? clock / 2 : clock), "frequency offset is the start of the Nyquist zone");
    // text: "<type> <low>-<high> MHz": the centre lies in the middle of the filter's range
    static const int lo[] = {0, 10, 30, 10, 30, 110, 170, 210}, hi[] = {0, 90, 90, 90, 90, 190, 230, 270};
    sym_assert(cf == (lo[m] + hi[m]) / 2., "central frequency is the centre of the analog filter");
    const std::string nm = std::string(m <= 2 ? "LBA_OUTER" : m <= 4 ? "LBA_INNER" : "HBA") + " " + std::to_string(lo[m]) + "-" + std::to_string(hi[m]) + " MHz";
    sym_assert(txt == nm, "printed mode");
    sym_reach("mode");
  }
}
