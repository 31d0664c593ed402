// C01: baseline index <-> antenna pair bijection.
#include "sym.h"
#include "common/baseline_indices.h"
using namespace dp3::common;
// param 0: number of antennas; param 1: order; param 2: part
extern "C" void harness() {
  const size_t n = sym_param(0);
  const BaselineOrder order =
      sym_param(1) ? BaselineOrder::kRowMajor : BaselineOrder::kColumnMajor;
  const int part = sym_param(2);
  const size_t nb = ComputeNBaselines(n);
  sym_assert(nb == n * (n + 1) / 2, "number of baselines is n(n+1)/2");
  if (part == 0) {
    // index -> pair -> index, and the pair is ordered and in range
    const size_t idx = sym<uint64_t>("idx");
    sym_assume(idx < nb);
    const auto p = ComputeBaseline(idx, n, order);
    sym_assert(p.first <= p.second, "antenna1 <= antenna2");
    sym_assert(p.second < n, "antennas within range");
    sym_assert(ComputeBaselineIndex(p.first, p.second, n, order) == idx,
               "index of the pair of an index is that index");
    sym_reach("inverse");
  } else if (part == 1) {
    // pair -> index: in range, symmetric, follows the documented order
    const size_t a = sym<uint64_t>("a"), b = sym<uint64_t>("b");
    sym_assume(sym_and(a < n, b < n));
    const size_t i = ComputeBaselineIndex(a, b, n, order);
    sym_assert(i < nb, "index within range");
    sym_assert(i == ComputeBaselineIndex(b, a, n, order), "index symmetric in its antennas");
    if (a <= b) {
      // successor relation of the documented enumeration, plus the first index:
      // together these fix the index of every pair.
      if (order == BaselineOrder::kColumnMajor) {
        if (a < b) {
          sym_assert(ComputeBaselineIndex(a + 1, b, n, order) == i + 1, "column-major: next row");
          sym_reach("next");
        } else if (b + 1 < n) {
          sym_assert(ComputeBaselineIndex(0, b + 1, n, order) == i + 1, "column-major: next column");
          sym_reach("wrap");
        } else {
          sym_assert(i == nb - 1, "last baseline");
        }
      } else {
        if (b + 1 < n) {
          sym_assert(ComputeBaselineIndex(a, b + 1, n, order) == i + 1, "row-major: next column");
          sym_reach("next");
        } else if (a + 1 < n) {
          sym_assert(ComputeBaselineIndex(a + 1, a + 1, n, order) == i + 1, "row-major: next row");
          sym_reach("wrap");
        } else {
          sym_assert(i == nb - 1, "last baseline");
        }
      }
      sym_assert(ComputeBaselineIndex(0, 0, n, order) == 0, "first baseline");
    }
    sym_reach("index");
  } else if (part == 3) {
    // Large arrays: a window of pairs (column window at param 3, row window at
    // param 4), both directions of the mapping.
    const size_t c0 = sym_param(3), r0 = sym_param(4);
    const size_t kc = sym<uint8_t>("kc"), kr = sym<uint8_t>("kr");
    sym_assume(sym_and(kc < 4, kr < 4));
    const size_t col = c0 + kc, row = r0 + kr;
    sym_assume(sym_and(row <= col, col < n));
    // reference value: closed form, 64 bits
    const size_t want = order == BaselineOrder::kColumnMajor
                            ? col * (col + 1) / 2 + row
                            : row * n - row * (row + 1) / 2 + col;
    sym_assert(want < nb, "reference in range");
    sym_assert(ComputeBaselineIndex(row, col, n, order) == want, "large array: index of pair");
    sym_assert(ComputeBaselineIndex(col, row, n, order) == want, "large array: index of swapped pair");
    const auto p = ComputeBaseline(want, n, order);
    sym_assert(sym_and(p.first == row, p.second == col), "large array: pair of index");
    sym_reach("large");
  } else {
    // list of baselines of one antenna
    const size_t a = sym<uint64_t>("a");
    sym_assume(a < n);
    const std::vector<size_t> l = ComputeBaselineList(a, n, order);
    sym_assert(l.size() == n, "one baseline per antenna");
    for (size_t i = 0; i < n; ++i)
      sym_assert(l[i] == ComputeBaselineIndex(a, i, n, order), "list entry");
    sym_reach("list");
  }
}
