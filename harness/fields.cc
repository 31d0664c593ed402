// C07: sets of needed data fields and backward propagation through a pipeline.
#include <sstream>
#include "util.h"
#include "common/Fields.h"
using dp3::common::Fields;
static Fields make(unsigned m) {
  Fields f;
  if (m & 1) f |= Fields(Fields::Single::kData);
  if (m & 2) f |= Fields(Fields::Single::kFlags);
  if (m & 4) f |= Fields(Fields::Single::kWeights);
  if (m & 8) f |= Fields(Fields::Single::kUvw);
  return f;
}
static unsigned mask(const Fields& f) { return unsigned(f.Data()) | unsigned(f.Flags()) << 1 | unsigned(f.Weights()) << 2 | unsigned(f.Uvw()) << 3; }
static Fields any(const char* nm, unsigned& m) {
  const uint8_t b = sym<uint8_t>(nm);
  sym_assume(b < 16);
  m = b;
  return make(b);
}
extern "C" void harness() {
  const int part = sym_param(0);
  if (part == 0) {
    unsigned a, b, c;
    const Fields A = any("a", a), B = any("b", b), C = any("c", c);
    sym_assert(mask(Fields()) == 0, "an empty set contains nothing");
    sym_assert(mask(A) == a, "a set contains exactly what was added");
    sym_assert(mask(A | B) == (a | b), "union");
    Fields D = A;
    Fields& r = (D |= B);
    sym_assert(&r == &D && mask(D) == (a | b), "in-place union");
    sym_assert((A == B) == (a == b) && (A != B) == (a != b), "equality");
    // one step: needs before the step, given needs after it (c), required (a), provided (b)
    Fields E = C;
    Fields& e = E.UpdateRequirements(A, B);
    sym_assert(&e == &E, "returns the updated set");
    sym_assert(mask(E) == (a | (c & ~b)), "needed before a step: what it requires plus what is needed later and not created by it");
    sym_assert(mask(A) == a && mask(B) == b, "arguments unchanged");
    sym_reach("step");
  } else if (part == 1) {
    // A whole pipeline of steps: a field is needed from the input exactly if some step requires it
    // and no earlier step creates it.
    const int n = sym_param(1);
    unsigned req[8], prov[8];
    Fields need;
    for (int i = n - 1; i >= 0; --i) {
      const Fields r = any("req", req[i]), p = any("prov", prov[i]);
      need.UpdateRequirements(r, p);
    }
    unsigned want = 0, created = 0;
    for (int i = 0; i < n; ++i) {
      want |= req[i] & ~created;
      created |= prov[i];
    }
    sym_assert(mask(need) == want, "input fields needed by a pipeline");
    sym_reach("pipeline");
  } else {
    unsigned a;
    const Fields A = any("a", a);
    std::ostringstream os;
    os << A;
    static const char* const nm[] = {"data", "flags", "weights", "uvw"};
    std::string want = "[";
    bool first = true;
    for (int i = 0; i < 4; ++i)
      if (a & (1u << i)) {
        if (!first) want += ", ";
        first = false;
        want += nm[i];
      }
    want += "]";
    sym_assert_streq(os.str(), want, "printed set");
    sym_reach("print");
  }
}
