// C29: time slot buffers and baseline-dependent buffers keep every row's values, whatever is added, named, moved, copied or cleared.
#include <cmath>
#include <map>
#include <limits>
#include "util.h"
#include "base/BdaBuffer.h"
#include "base/DPBuffer.h"
using dp3::base::BdaBuffer;
using dp3::base::DPBuffer;
using dp3::common::Fields;
typedef std::complex<float> C;
typedef std::vector<C> CV;
static const char* kNames[] = {"", "x", "y"};
static char symflag() { return sym<unsigned char>("flag") & 1; }
static void setflag(bool* p, char v) { *reinterpret_cast<char*>(p) = v; }
static Fields fields(int mask) {
  Fields f;
  if (mask & 1) f |= Fields(Fields::Single::kData);
  if (mask & 2) f |= Fields(Fields::Single::kFlags);
  if (mask & 4) f |= Fields(Fields::Single::kWeights);
  if (mask & 8) f |= Fields(Fields::Single::kUvw);
  return f;
}
static int pick(int lo, int hi, const char* n) { return sym_concretize(sym_choose(lo, hi, n)); }
static C symc(const char* n) { const float a = sym_f32(n), b = sym_f32(n); return C(a, b); }
static bool same(const float& a, const float& b) { uint32_t x, y; std::memcpy(&x, &a, 4); std::memcpy(&y, &b, 4); return x == y; }
static bool same(const double& a, const double& b) { uint64_t x, y; std::memcpy(&x, &a, 8); std::memcpy(&y, &b, 8); return x == y; }
template <class T> static bool same(const std::complex<T>& a, const std::complex<T>& b) { const T* x = reinterpret_cast<const T*>(&a); const T* y = reinterpret_cast<const T*>(&b); return sym_and(same(x[0], y[0]), same(x[1], y[1])); }
static void eqc(const C& a, const C& b, const char* m) { sym_assert(same(a, b), m); }

struct MRow { double t, i, e; size_t bl, nc, np; unsigned long nr; bool hasUvw; double uvw[3]; };
struct Model {
  size_t cap = 0, n = 0;
  bool flags = false, weights = false;
  std::map<std::string, CV> data;
  std::vector<char> f;
  std::vector<float> w;
  std::vector<MRow> rows;
};
static void check(BdaBuffer& b, const Model& m) {
  const BdaBuffer& cb = b;
  sym_assert(b.GetNumberOfElements() == m.n && b.GetRemainingCapacity() == m.cap - m.n, "size and capacity");
  sym_assert(b.GetRows().size() == m.rows.size(), "number of rows");
  std::vector<std::string> names = b.GetDataNames();
  sym_assert(names.size() == m.data.size(), "number of data buffers");
  size_t k = 0;
  for (const auto& d : m.data) { if (k < names.size()) sym_assert(names[k] == d.first, "names of data buffers, sorted"); ++k; }
  for (const char* nm : kNames) {
    const bool has = m.data.count(nm);
    sym_assert(b.HasData(nm) == has, "has a data buffer");
    if (!has || m.n == 0) sym_assert(cb.GetData(nm) == nullptr && b.GetData(nm) == nullptr, "no data for an absent buffer");
  }
  sym_assert((b.GetFlags() != nullptr) == (m.flags && m.n), "flags present");
  sym_assert((b.GetWeights() != nullptr) == (m.weights && m.n), "weights present");
  size_t off = 0;
  for (size_t r = 0; r < m.rows.size() && r < b.GetRows().size(); ++r) {
    const MRow& q = m.rows[r];
    const BdaBuffer::Row& p = b.GetRows()[r];
    sym_assert(p.n_channels == q.nc && p.n_correlations == q.np && p.baseline_nr == q.bl && p.row_nr == q.nr, "row description");
    sym_assert(p.GetDataSize() == q.nc * q.np, "row size");
    sym_assert(sym_and(same(p.time, q.t), sym_and(same(p.interval, q.i), same(p.exposure, q.e))), "row times");
    for (int u = 0; u < 3; ++u) sym_assert(q.hasUvw ? same(p.uvw[u], q.uvw[u]) : std::isnan(p.uvw[u]), "row uvw");
    for (const auto& d : m.data) {
      const C* v = cb.GetData(r, d.first);
      sym_assert(v != nullptr && v == b.GetData(r, d.first) && v == cb.GetData(d.first) + off, "place of a row");
      if (v) for (size_t i = 0; i < q.nc * q.np; ++i) eqc(v[i], d.second[off + i], "data of a row");
    }
    if (m.flags && b.GetFlags()) for (size_t i = 0; i < q.nc * q.np; ++i) sym_assert(reinterpret_cast<const char*>(cb.GetFlags(r))[i] == m.f[off + i], "flags of a row");
    if (m.weights && b.GetWeights()) for (size_t i = 0; i < q.nc * q.np; ++i) sym_assert(same(cb.GetWeights(r)[i], m.w[off + i]), "weights of a row");
    off += q.nc * q.np;
  }
}
static void fill(BdaBuffer& b, Model& m, const std::string& name) {  // give a buffer with unspecified contents known values
  CV v;
  if (m.n == 0) { m.data[name]; return; }
  C* p = b.GetData(name);
  sym_assert(p != nullptr, "a data buffer has room for all rows");
  for (size_t i = 0; i < m.n; ++i) { v.push_back(symc("fill")); if (p) p[i] = v.back(); }
  m.data[name] = v;
}
static bool addrow(BdaBuffer& b, Model& m, size_t nc, size_t np, int given) {
  const size_t k = nc * np;
  CV d; std::vector<float> w; bool f[8]; double uvw[3];
  for (size_t i = 0; i < k; ++i) { d.push_back(symc("data")); w.push_back(sym_f32("weight")); setflag(&f[i], symflag()); }
  for (int i = 0; i < 3; ++i) { uvw[i] = sym_f64("uvw"); }
  MRow q;
  q.t = 10.0 + m.rows.size(); q.i = 1.0; q.e = sym_f64("exposure");
  q.bl = sym<uint64_t>("baseline"); q.nr = sym<uint64_t>("row number"); q.nc = nc; q.np = np; q.hasUvw = given & 8;
  for (int i = 0; i < 3; ++i) q.uvw[i] = uvw[i];
  const bool ok = b.AddRow(q.t, q.i, q.e, q.bl, nc, np, q.nr, given & 1 ? d.data() : nullptr, given & 2 ? f : nullptr, given & 4 ? w.data() : nullptr, q.hasUvw ? uvw : nullptr);
  sym_assert(ok == (m.n + k <= m.cap), "a row is added exactly when it fits");
  if (m.n + k > m.cap) { sym_reach("full"); return false; }
  for (auto& e : m.data) for (size_t i = 0; i < k; ++i) e.second.push_back(e.first.empty() && (given & 1) ? d[i] : C(0));
  if (m.flags) for (size_t i = 0; i < k; ++i) m.f.push_back(given & 2 ? reinterpret_cast<char*>(f)[i] : 0);
  if (m.weights) for (size_t i = 0; i < k; ++i) m.w.push_back(given & 4 ? w[i] : 0.0f);
  m.rows.push_back(q);
  m.n += k;
  return true;
}
static void sequence(int mask, int cap, int steps) {
  BdaBuffer* b = new BdaBuffer(cap, fields(mask));
  Model m;
  m.cap = cap; m.flags = mask & 2; m.weights = mask & 4;
  if (mask & 1) m.data[""];
  BdaBuffer* o = new BdaBuffer(cap, fields(1));  // another buffer, with as many elements
  check(*b, m);
  for (int s = 0; s < steps; ++s) {
    switch (pick(0, 8, "operation")) {
      case 0: addrow(*b, m, 1, 2, 15); sym_reach("row"); break;
      case 1: addrow(*b, m, 3, 1, pick(0, 1, "given") ? 4 : 2); break;
      case 2: addrow(*b, m, 1, 1, 1); break;
      case 3: { const char* nm = kNames[pick(0, 1, "name")]; const bool had = m.data.count(nm); b->AddData(nm); if (!had) fill(*b, m, nm); sym_reach("adddata"); break; }
      case 4: { const char* nm = kNames[pick(0, 1, "name")]; b->RemoveData(nm); m.data.erase(nm); break; }
      case 5: {  // rename
        if (m.data.empty()) break;
        const std::string src = m.data.begin()->first, dst = kNames[pick(0, 2, "name")];
        b->MoveData(*b, src, dst);
        if (src != dst) { CV v = m.data[src]; m.data.erase(src); m.data[dst] = v; }
        sym_reach("rename");
        break;
      }
      case 6: {  // move in from another buffer that has the same rows
        delete o;
        o = new BdaBuffer(m.cap, fields(1));
        CV v;
        for (const MRow& q : m.rows) {
          CV d;
          for (size_t i = 0; i < q.nc * q.np; ++i) { d.push_back(symc("other")); v.push_back(d.back()); }
          sym_assert(o->AddRow(q.t, q.i, q.e, q.bl, q.nc, q.np, q.nr, d.data()), "row fits");
        }
        const char* nm = kNames[pick(0, 2, "name")];
        b->MoveData(*o, "", nm);
        m.data[nm] = v;
        sym_assert(!o->HasData() && o->GetRows().size() == m.rows.size(), "the data buffer has left its old place");
        sym_reach("move");
        break;
      }
      case 7: b->Clear(); m.n = 0; for (auto& d : m.data) d.second.clear(); m.f.clear(); m.w.clear(); m.rows.clear(); sym_reach("clear"); break;
      case 8: {
        const int mk = pick(0, 2, "fields") * 3 + 1;  // 1 data, 4 weights, 7 all
        BdaBuffer* c = new BdaBuffer(*b, fields(mk));
        check(*b, m);
        delete b;
        b = c;
        m.cap = m.n;
        if (!(mk & 1)) m.data.clear();
        else if (!m.data.count("")) fill(*b, m, "");
        const bool hf = m.flags, hw = m.weights;
        m.flags = mk & 2; m.weights = mk & 4;
        if (m.flags && !hf) { m.f.clear(); for (size_t i = 0; i < m.n; ++i) { m.f.push_back(symflag()); setflag(b->GetFlags() + i, m.f.back()); } }
        if (m.weights && !hw) { m.w.clear(); for (size_t i = 0; i < m.n; ++i) { m.w.push_back(sym_f32("weight")); b->GetWeights()[i] = m.w.back(); } }
        sym_reach("copy");
        break;
      }
    }
    check(*b, m);
  }
  delete b;
  delete o;
}
static const double kTol = 2e-6;
static void order() {
  const int prior = sym_param(1);
  BdaBuffer b(8, fields(1));
  const double t1 = sym_f64("time"), i1 = sym_f64("interval"), t2 = sym_f64("time"), i2 = sym_f64("interval");
  for (double x : {t1, t2}) sym_assume(sym_and(x >= -1e10, x <= 1e10));
  for (double x : {i1, i2}) sym_assume(sym_and(x >= 0, x <= 1e5));
  if (prior == 2) b.AddRow(t1 - 1, 1.0, 1.0, 0, 1, 1, 0);
  bool first = true;
  if (prior) { try { first = b.AddRow(t1, i1, i1, 0, 2, 1, 1); } catch (std::invalid_argument&) { first = false; } if (prior == 1) sym_assert(first, "any first row"); if (!first) return; }
  const size_t n = b.GetRows().size(), left = b.GetRemainingCapacity();
  bool threw = false, added = false;
  try { added = b.AddRow(t2, i2, i2, 1, 1, 2, 2); } catch (std::invalid_argument&) { threw = true; }
  const bool early = prior > 0 && t2 + i2 / 2 < t1 - i1 / 2 + kTol;
  sym_assert(threw == early, "a row that ends before the last row starts is refused, any other accepted");
  sym_assert(threw || added, "added");
  sym_assert(b.GetRows().size() == n + !threw && b.GetRemainingCapacity() == left - (threw ? 0 : 2), "a refused row changes nothing");
  sym_reach(threw ? "refused" : "ordered");
}
static void compare() {
  const int which = sym_param(1);
  sym_assert(BdaBuffer::TimeIsEqual(0.0, 1.9e-6) && !BdaBuffer::TimeIsEqual(0.0, 2.1e-6), "tolerance");
  double v[2][6];
  BdaBuffer a(8, fields(0)), b(8, fields(0));
  const double base[6] = {5, 1, 1, 10, 20, 30};
  const double x = sym_f64("left"), y = sym_f64("right");
  for (double z : {x, y}) sym_assume(sym_and(z >= 0, z <= 100));
  for (int i = 0; i < 6; ++i) v[0][i] = v[1][i] = base[i];
  if (which < 6) { v[0][which] = x; v[1][which] = y; }
  size_t nr[2] = {3, 3}, bl[2] = {1, 1}, nc[2] = {2, 2}, np[2] = {1, 1};
  bool want = true;
  if (which < 6) { const double d = x - y; want = sym_and(d < kTol, d > -kTol); }
  if (which == 6) { nr[0] = sym<uint64_t>("nr"); nr[1] = sym<uint64_t>("nr"); want = nr[0] == nr[1]; }
  if (which == 7) { bl[0] = sym<uint64_t>("bl"); bl[1] = sym<uint64_t>("bl"); want = bl[0] == bl[1]; }
  if (which == 8) { nc[1] = 1; np[1] = 2; want = false; }
  const double* u0 = v[0] + 3; const double* u1 = v[1] + 3;
  if (which == 9) { u0 = nullptr; want = false; }
  if (which == 10) { u1 = nullptr; want = false; }
  if (which == 11) u0 = u1 = nullptr;
  a.AddRow(v[0][0], v[0][1], v[0][2], bl[0], nc[0], np[0], nr[0], nullptr, nullptr, nullptr, u0);
  b.AddRow(v[1][0], v[1][1], v[1][2], bl[1], nc[1], np[1], nr[1], nullptr, nullptr, nullptr, u1);
  if (which == 12) { b.AddRow(5, 1, 1, 1, 1, 1, 4); want = false; }
  if (which == 13) { a.AddRow(5, 1, 1, 1, 1, 1, 4); b.AddRow(5, 1, 1, 1, 1, 1, 5); want = false; }
  sym_assert(a.IsMetadataEqual(b) == want, "buffers describe the same rows");
  sym_assert(b.IsMetadataEqual(a) == want, "buffers describe the same rows, either way");
  sym_reach("compare");
  // The tolerant comparisons agree with each other.
  const double d = x - y;
  sym_assert(BdaBuffer::TimeIsEqual(x, y) == sym_and(d < kTol, d > -kTol), "equal within the tolerance");
  sym_assert(BdaBuffer::TimeIsLess(x, y) == (x < y - kTol), "less");
  sym_assert(BdaBuffer::TimeIsLessEqual(x, y) == (x < y + kTol), "less or equal");
  sym_assert(BdaBuffer::TimeIsGreaterEqual(x, y) == (x > y - kTol), "greater or equal");
}

// ---- DPBuffer
static std::array<size_t, 3> kShape = {2, 1, 2};
static const char* kExtra[] = {"a", "b"};
struct DModel { double t = 0, e = 0; bool valid = true; CV data; std::map<std::string, CV> extra; std::vector<char> f; std::vector<float> w; std::vector<double> u; std::vector<unsigned long> nr; std::map<std::string, std::vector<std::complex<double>>> sol; };
static void sameData(const DPBuffer::DataType& d, const CV& v, const char* m) {
  sym_assert(d.size() == v.size(), m);
  if (v.size() && d.size() == v.size()) {
    sym_assert(d.shape(0) == kShape[0] && d.shape(1) == kShape[1] && d.shape(2) == kShape[2], m);
    for (size_t i = 0; i < v.size(); ++i) eqc(d.data()[i], v[i], m);
  }
}
static void check(const DPBuffer& b, const DModel& m) {
  sym_assert(sym_and(same(b.GetTime(), m.t), same(b.GetExposure(), m.e)), "time and exposure");
  if (m.valid) sameData(b.GetData(), m.data, "main data");
  const std::vector<std::string> names = b.GetDataNames();
  sym_assert(names.size() == m.extra.size() + 1 && names[0].empty(), "data names");
  size_t k = 1;
  for (const auto& e : m.extra) { if (k < names.size()) sym_assert(names[k] == e.first, "data names"); ++k; }
  for (const char* nm : kExtra) {
    sym_assert(b.HasData(nm) == (m.extra.count(nm) > 0), "has extra data");
    bool threw = false;
    try { const DPBuffer::DataType& d = b.GetData(nm); if (m.extra.count(nm)) sameData(d, m.extra.at(nm), "extra data"); } catch (std::runtime_error&) { threw = true; }
    sym_assert(threw == !m.extra.count(nm), "asking for absent data gives an error");
  }
  sym_assert(b.GetFlags().size() == m.f.size() && b.GetWeights().size() == m.w.size() && b.GetUvw().size() == m.u.size(), "sizes");
  for (size_t i = 0; i < m.f.size(); ++i) sym_assert(reinterpret_cast<const char*>(b.GetFlags().data())[i] == m.f[i], "flags");
  for (size_t i = 0; i < m.w.size(); ++i) sym_assert(same(b.GetWeights().data()[i], m.w[i]), "weights");
  for (size_t i = 0; i < m.u.size(); ++i) sym_assert(same(b.GetUvw().data()[i], m.u[i]), "uvw");
  sym_assert(b.GetRowNumbers().size() == m.nr.size(), "row numbers");
  for (size_t i = 0; i < m.nr.size() && i < b.GetRowNumbers().size(); ++i) sym_assert(b.GetRowNumbers()[i] == m.nr[i], "row numbers");
  const std::vector<std::string> dirs = b.GetSolutionDirectionNames();
  sym_assert(dirs.size() == m.sol.size(), "solution directions");
  k = 0;
  for (const auto& s : m.sol) {
    if (k < dirs.size()) sym_assert(dirs[k] == s.first, "solution directions"); ++k;
    const auto v = b.GetSolution(s.first);
    sym_assert(v.size() == 2 && v[0].size() == 2, "solution shape");
    for (size_t c = 0; c < 2; ++c) for (size_t i = 0; i < 2; ++i) sym_assert(same(v[c][i], s.second[c * 2 + i]), "solutions of a direction");
  }
  bool threw = false;
  try { b.GetSolution("no such direction"); } catch (std::runtime_error&) { threw = true; }
  sym_assert(threw, "asking for the solutions of an unknown direction gives an error");
}
static double f64(const char* n) { return sym_f64(n); }
static float f32(const char* n) { return sym_f32(n); }
static C fc(const char* n) { const float a = f32(n), b = f32(n); return C(a, b); }
static void make(DPBuffer& b, DModel& m, const char* dir) {
  m.t = f64("time"); m.e = f64("exposure");
  b.SetTime(m.t); b.SetExposure(m.e);
  b.GetData().resize(kShape); b.GetFlags().resize(kShape); b.GetWeights().resize(kShape); b.GetUvw().resize({kShape[0], 3});
  for (size_t i = 0; i < 4; ++i) { m.data.push_back(fc("data")); b.GetData().data()[i] = m.data[i]; m.f.push_back(symflag()); setflag(&b.GetFlags().data()[i], m.f[i]); m.w.push_back(f32("weight")); b.GetWeights().data()[i] = m.w[i]; }
  for (size_t i = 0; i < 6; ++i) { m.u.push_back(f64("uvw")); b.GetUvw().data()[i] = m.u[i]; }
  casacore::Vector<dp3::common::rownr_t> nr(2);
  for (size_t i = 0; i < 2; ++i) { m.nr.push_back(sym<uint64_t>("nr")); nr[i] = m.nr[i]; }
  b.SetRowNumbers(nr);
  // two directions, two channels, two antennas, one polarization
  std::vector<std::string> dirs = {dir, "z"};
  std::vector<std::vector<std::complex<double>>> sol(2);
  for (size_t c = 0; c < 2; ++c) for (size_t a = 0; a < 2; ++a) for (size_t d = 0; d < 2; ++d) {
    const double re = f64("solution"), im = f64("solution");
    sol[c].push_back({re, im});
    m.sol[dirs[d]].resize(4);
    m.sol[dirs[d]][c * 2 + a] = {re, im};
  }
  b.SetSolution(sol, 2, 1, dirs);
}
static void dpsequence(int steps) {
  DPBuffer* b = new DPBuffer(3.0, 2.0);
  sym_assert(b->GetTime() == 3.0 && b->GetExposure() == 2.0 && b->GetData().size() == 0, "a new buffer is empty");
  DPBuffer o;
  DModel m, mo;
  make(*b, m, "p");
  make(o, mo, "q");
  check(*b, m);
  for (int s = 0; s < steps; ++s) {
    switch (pick(0, 9, "operation")) {
      case 0: {
        const char* nm = kExtra[pick(0, 1, "name")];
        if (m.extra.count(nm) || !m.valid) return;
        b->AddData(nm);
        CV v;
        sym_assert(b->GetData(nm).size() == 4, "room for the data");
        for (size_t i = 0; i < 4; ++i) { v.push_back(fc("extra")); b->GetData(nm).data()[i] = v[i]; }
        m.extra[nm] = v;
        break;
      }
      case 1: { const int k = pick(0, 2, "name"); b->RemoveData(k == 2 ? "" : kExtra[k]); if (k == 2) m.extra.clear(); else m.extra.erase(kExtra[k]); break; }
      case 2: {  // copy within, or from the other buffer
        const bool other = pick(0, 1, "other");
        const char* nm = kExtra[pick(0, 1, "name")];
        const std::string src = !other && !m.extra.empty() ? m.extra.begin()->first : "";
        if (!other && src.empty() && !m.valid) return;
        if (other && !mo.valid) return;
        b->CopyData(other ? o : *b, src, nm);
        m.extra[nm] = other ? mo.data : src.empty() ? m.data : m.extra[src];
        sym_reach("copydata");
        break;
      }
      case 3: {
        const bool other = pick(0, 1, "other");
        const char* nm = kExtra[pick(0, 1, "name")];
        const std::string src = !other && !m.extra.empty() ? m.extra.begin()->first : "";
        if (other ? !mo.valid : (src.empty() && !m.valid)) return;
        b->MoveData(other ? o : *b, src, nm);
        const CV v = other ? mo.data : src.empty() ? m.data : m.extra[src];
        if (src.empty()) (other ? mo : m).valid = false; else if (src != nm) m.extra.erase(src);
        m.extra[nm] = v;
        sym_reach("movedata");
        break;
      }
      case 4: { DPBuffer* c = new DPBuffer(*b); check(*c, m); delete b; b = c; sym_reach("copy"); break; }
      case 5: { DPBuffer* c = new DPBuffer(std::move(*b)); delete b; b = c; sym_reach("move"); break; }
      case 6: { if (!mo.valid) return; *b = o; m = mo; sym_reach("assign"); check(o, mo); break; }
      case 7: { DPBuffer c; c = std::move(*b); *b = std::move(c); break; }
      case 8: {  // selected fields
        const int mask = pick(0, 15, "fields");
        const bool extra = pick(0, 1, "extra");
        if (!mo.valid && (mask & 1)) return;
        b->Copy(o, fields(mask), extra);
        m.t = mo.t; m.e = mo.e; m.nr = mo.nr; m.sol = mo.sol;
        if (mask & 1) { m.data = mo.data; m.valid = true; }
        if (mask & 2) m.f = mo.f;
        if (mask & 4) m.w = mo.w;
        if (mask & 8) m.u = mo.u;
        if (extra) m.extra = mo.extra;
        sym_reach("fields");
        break;
      }
      case 9: {
        if (!m.valid) return;
        DPBuffer::DataType d = b->TakeData();
        DPBuffer::WeightsType w = b->TakeWeights();
        sameData(d, m.data, "taken data");
        for (size_t i = 0; i < m.w.size(); ++i) sym_assert(same(w.data()[i], m.w[i]), "taken weights");
        m.data.clear(); m.w.clear();
        sym_assert(b->GetData().size() == 0 && b->GetWeights().size() == 0, "taken data are gone");
        check(*b, m);
        b->GetData() = d; b->GetWeights() = w;
        for (size_t i = 0; i < 4 && d.size() == 4; ++i) m.data.push_back(d.data()[i]);
        for (size_t i = 0; i < w.size(); ++i) m.w.push_back(w.data()[i]);
        sym_reach("take");
        break;
      }
    }
    check(*b, m);
  }
  // Copies do not share values.
  if (m.valid && m.data.size()) {
    DPBuffer c(*b, fields(15)), e;
    e = *b;
    for (size_t i = 0; i < 4; ++i) { c.GetData().data()[i] = C(1, 2); e.GetData().data()[i] = C(3, 4); c.GetFlags().data()[i] = true; e.GetWeights().data()[i] = 9; }
    c.SetTime(1); e.RemoveData(); c.GetUvw().data()[0] = 5;
    check(*b, m);
  }
  delete b;
}
extern "C" void harness() {
  switch (sym_param(0)) {
    case 0: sequence(sym_param(1), sym_param(2), sym_param(3)); break;
    case 1: order(); break;
    case 2: compare(); break;
    case 3: dpsequence(sym_param(1)); break;
  }
}
