// C08: upsampling of direction-dependent solution intervals.
#include <complex>
#include "util.h"
#include "ddecal/SolutionResampler.h"
using dp3::ddecal::ConstraintResult;
using dp3::ddecal::SolutionResampler;
// params: n_dir, n_ant, n_pol, n_times, n_chan_blocks, interval, n_sol...
extern "C" void harness() {
  const int part = sym_param(0), nd = sym_param(1), na = sym_param(2), np = sym_param(3), nt = sym_param(4), nc = sym_param(5), solint = sym_param(6);
  std::vector<size_t> ns(nd);
  size_t total = 0, mx = 0;
  for (int d = 0; d < nd; ++d) {
    ns[d] = sym_param(7 + d);
    total += ns[d];
    mx = std::max(mx, ns[d]);
  }
  SolutionResampler rs(ns, na, solint);
  const size_t sub = rs.GetNrSubSteps();
  sym_assert(sub >= mx && sub <= size_t(solint), "number of sub-steps is between the finest interval and the solution interval");
  bool divides = true, maxdiv = true;
  for (size_t n : ns) {
    divides &= sub % n == 0;
    maxdiv &= mx % n == 0;
  }
  sym_assert(divides, "every direction's solutions divide the sub-steps");
  if (maxdiv) sym_assert(sub == mx, "no finer than needed");
  if (!divides) return;
  if (part == 0) {
    std::vector<std::vector<std::vector<std::complex<double>>>> in(nt);
    for (auto& t : in) {
      t.resize(nc);
      for (auto& c : t) {
        c.resize(na * total * np);
        for (auto& v : c) v = {sym<double>("re"), sym<double>("im")};
      }
    }
    const auto out = rs.Upsample(in, np);
    sym_assert(out.size() == nt * sub, "number of upsampled times");
    if (out.size() != nt * sub) return;
    for (size_t t = 0; t < out.size(); ++t) {
      sym_assert(out[t].size() == size_t(nc), "channel blocks are kept");
      for (int c = 0; c < nc; ++c) {
        sym_assert(out[t][c].size() == size_t(na * nd * np), "one value per antenna, direction, polarisation");
        if (out[t][c].size() != size_t(na * nd * np)) return;
        for (int a = 0; a < na; ++a) {
          size_t off = 0;
          for (int d = 0; d < nd; ++d) {
            // the time fraction [t mod sub]/sub falls in solution s of this direction
            const size_t s = (t % sub) * ns[d] / sub;
            for (int p = 0; p < np; ++p) {
              const auto& w = in[t / sub][c][(a * total + off + s) * np + p];
              const auto& g = out[t][c][(a * nd + d) * np + p];
              sym_assert(std::memcmp(&w, &g, sizeof w) == 0, "value of the solution covering that time");
              const auto m = rs.MapResampledToOriginal(t, a, d, p, np);
              sym_assert(m.first == t / sub && m.second == (a * total + off + s) * np + p, "index map");
            }
            off += ns[d];
          }
        }
      }
    }
    sym_reach("solutions");
  } else {
    const int res = nc;
    std::vector<std::vector<std::vector<ConstraintResult>>> in(nt);
    for (auto& t : in) {
      t.resize(2);
      for (auto& k : t) {
        k.resize(np);
        for (auto& r : k) {
          r.axes = "ant,dir,freq";
          r.name = "tec";
          r.dims = {size_t(na), total, size_t(res)};
          r.vals.resize(na * total * res);
          r.weights.resize(na * total * res);
          for (auto& v : r.vals) v = sym<double>("val");
          for (auto& v : r.weights) v = sym<double>("wgt");
        }
      }
    }
    const auto out = rs.Upsample(in);
    sym_assert(out.size() == nt * sub, "number of upsampled times");
    if (out.size() != nt * sub) return;
    for (size_t t = 0; t < out.size(); ++t) {
      sym_assert(out[t].size() == 2, "constraints are kept");
      for (size_t k = 0; k < 2; ++k) {
        sym_assert(out[t][k].size() == size_t(np), "result types are kept");
        for (int y = 0; y < np; ++y) {
          const ConstraintResult &r = out[t][k][y], &o = in[t / sub][k][y];
          sym_assert(r.axes == o.axes && r.name == o.name, "axes and name are kept");
          sym_assert(r.dims.size() == 3 && r.dims[0] == size_t(na) && r.dims[1] == size_t(nd) && r.dims[2] == size_t(res), "dimensions");
          sym_assert(r.vals.size() == size_t(na * nd * res) && r.weights.size() == r.vals.size(), "sizes");
          if (r.vals.size() != size_t(na * nd * res) || r.weights.size() != r.vals.size()) return;
          for (int a = 0; a < na; ++a) {
            size_t off = 0;
            for (int d = 0; d < nd; ++d) {
              const size_t s = (t % sub) * ns[d] / sub;
              for (int i = 0; i < res; ++i) {
                const size_t from = (a * total + off + s) * res + i, to = (a * nd + d) * res + i;
                sym_assert(std::memcmp(&r.vals[to], &o.vals[from], 8) == 0, "value of the solution covering that time");
                sym_assert(std::memcmp(&r.weights[to], &o.weights[from], 8) == 0, "weight of the solution covering that time");
              }
              off += ns[d];
            }
          }
        }
      }
    }
    sym_reach("results");
  }
}
