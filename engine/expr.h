// Hash-consed expression DAG: bit-vectors (1..128 bits, 1 bit = Bool) and reals.
#pragma once
#include <cstdint>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
#include <boost/multiprecision/cpp_int.hpp>

typedef unsigned __int128 u128;
typedef __int128 i128;
typedef boost::multiprecision::cpp_rational Rat;

enum class Op : uint8_t {
  Const, Sym, Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr,
  AShr, Eq, Ult, Ule, Slt, Sle, Ite, Concat, Extract, ZExt, SExt,
  // IEEE floats, operands and results as bit-vectors (width 32 or 64)
  FAdd, FSub, FMul, FDiv, FRem, FSqrt, FFma, FEq, FLt, FLe, FUno, FExt, FTrunc,
  FToSI, FToUI, SIToF, UIToF, FFloor, FCeil, FTruncI, FRint, FRoundA,
  // uninterpreted function on bit-vectors (aux = function name id)
  UF,
  // reals
  RConst, RSym, RAdd, RMul, RDiv, REq, RLt, RLe, RIte, RUF,
  RBits,      // real -> opaque bits
  RFromBits,  // bits -> real (opaque)
  RFromSI, RFromUI, RToSI, RFloor
};

struct Expr {
  Op op;
  uint16_t width;  // 0 for real sort
  uint32_t aux = 0;
  uint32_t id = 0;
  u128 c = 0;
  std::vector<const Expr*> k;
  mutable const std::vector<uint32_t>* syms = nullptr;  // cached symbol set
  bool isReal() const { return width == 0; }
  bool isConst() const { return op == Op::Const || op == Op::RConst; }
};
typedef const Expr* E;

struct Unsupported {
  std::string msg;
};
[[noreturn]] void unsupported(const std::string& m);

inline u128 maskw(unsigned w) {
  return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1);
}
inline i128 sxt(u128 v, unsigned w) {
  if (w >= 128) return (i128)v;
  u128 s = (u128)1 << (w - 1);
  v &= maskw(w);
  return (i128)((v ^ s) - s);
}

E mkConst(u128 v, unsigned w);
E mkSym(const std::string& name, unsigned w);
E mkRSym(const std::string& name);
E mkRConst(const Rat& r);
const Rat& ratOf(E e);
E mkBin(Op op, E a, E b);
E mkCmp(Op op, E a, E b);
E mkNot(E a);
E mkAnd(E a, E b);
E mkOr(E a, E b);
E mkIte(E c, E a, E b);
E mkConcat(E hi, E lo);
E mkExtract(E a, unsigned lo, unsigned w);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkFBin(Op op, E a, E b);
E mkFUn(Op op, E a, unsigned w);
E mkFFma(E a, E b, E c);
E mkUF(const std::string& name, const std::vector<E>& args, unsigned w);
E mkRBin(Op op, E a, E b);  // RAdd RMul RDiv REq RLt RLe
E mkRNeg(E a);
E mkRUF(const std::string& name, const std::vector<E>& args);
E mkRBits(E a, unsigned w);
E mkRFromBits(E a);
E mkRFromInt(E a, bool sgn);
E mkRUn(Op op, E a, unsigned w);

const std::string& symName(uint32_t id);
const std::string& ufName(uint32_t id);
unsigned symWidth(uint32_t id);
const std::vector<uint32_t>& symsOf(E e);
bool hasReal(E e);
std::string toStr(E e, int depth = 6);
double realApprox(const Rat& r);
extern bool g_numeric;
Rat ratFromDouble(double d);

struct Assign {
  std::unordered_map<uint32_t, u128> bv;
  std::unordered_map<uint32_t, Rat> rl;
  // concretised uninterpreted function values seen in the model are not kept
};
// Evaluate e under assignment; missing symbols are 0. nullopt: undecidable here.
struct EvalCache;
std::optional<u128> evalBV(E e, const Assign& a);
std::optional<Rat> evalR(E e, const Assign& a);

// ---- solver ----
enum class Res { Sat, Unsat, Unknown };
struct SolverStats {
  uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0;
  double time = 0, maxTime = 0;
};
extern SolverStats g_stats;
extern unsigned g_solverTimeoutMs;
extern bool g_niceReals;
// satisfiable(conj(pc) && cond)? On sat, model (if non-null) is updated with
// the assignment of the symbols of the slice.
Res querySat(const std::vector<E>& pc, E cond, Assign* model);
