// Helpers to drive a processing step: a description of the data, buffers, and a next step that keeps what it gets.
#pragma once
#include <map>
#include <memory>
#include <ostream>
#include "util.h"
#include "base/BdaBuffer.h"
#include "base/DPBuffer.h"
#include "base/DPInfo.h"
#include "common/ParameterSet.h"
#include "steps/Step.h"
using dp3::base::BdaBuffer;
using dp3::base::DPBuffer;
using dp3::base::DPInfo;
using dp3::common::Fields;
using dp3::common::ParameterSet;
typedef std::complex<float> C;
typedef std::unique_ptr<DPBuffer> Buf;
struct Capture : dp3::steps::Step {
  std::vector<Buf> out;
  std::vector<std::unique_ptr<BdaBuffer>> bda;
  int finished = 0;
  bool process(Buf b) override { sym_assert(!finished, "no data after the end"); sym_assert(bool(b), "a buffer is passed on"); out.push_back(std::move(b)); return true; }
  bool process(std::unique_ptr<BdaBuffer> b) override { sym_assert(!finished, "no data after the end"); sym_assert(bool(b), "a buffer is passed on"); bda.push_back(std::move(b)); return true; }
  void finish() override { ++finished; }
  void show(std::ostream&) const override {}
  Fields getRequiredFields() const override { return Fields(); }
  Fields getProvidedFields() const override { return Fields(); }
  bool accepts(MsType) const override { return true; }
};
inline void setAnts(DPInfo& info, int n, const std::vector<int>& a1, const std::vector<int>& a2, const std::vector<double>& x = {}) {
  std::vector<std::string> names;
  std::vector<double> diam;
  std::vector<casacore::MPosition> pos;
  for (int i = 0; i < n; ++i) {
    names.push_back(std::string("ant") + char('0' + i));
    diam.push_back(30.0);
    pos.push_back(casacore::MPosition(casacore::MVPosition(i < int(x.size()) ? x[i] : 10.0 * i * i, 0.0, 0.0), casacore::MPosition::ITRF));
  }
  info.setAntennas(names, diam, pos, a1, a2);
}
inline void setChans(DPInfo& info, int n, double f0 = 100.0, double w = 2.0) {
  std::vector<double> f, v;
  for (int i = 0; i < n; ++i) { f.push_back(f0 + w * i); v.push_back(w); }
  info.setChannels(std::move(f), std::move(v));
}
inline Buf makeBuf(size_t nbl, size_t nch, size_t ncr, double time, double exposure) {
  Buf b = std::make_unique<DPBuffer>(time, exposure);
  const std::array<size_t, 3> s{nbl, nch, ncr};
  b->GetData().resize(s);
  b->GetFlags().resize(s);
  b->GetWeights().resize(s);
  b->GetUvw().resize({nbl, 3});
  return b;
}
inline C symc(const char* n) { const float re = sym_f32(n), im = sym_f32(n); return C(re, im); }
inline bool symflag(const char* n) { return sym_concretize(sym_choose(0, 1, n)); }
inline void closec(C a, std::complex<double> b, const char* m) { sym_close(a.real(), b.real(), m); sym_close(a.imag(), b.imag(), m); }
