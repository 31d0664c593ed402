#include "expr.h"
#include <z3++.h>
#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstring>
#include <iostream>
#include <sstream>

void unsupported(const std::string& m) { throw Unsupported{m}; }

namespace {
struct Hash {
  size_t operator()(const Expr* e) const {
    size_t h = (size_t)e->op * 0x9E3779B97F4A7C15ull + e->width * 1315423911u +
               e->aux * 2654435761u;
    h ^= (size_t)e->c * 0xff51afd7ed558ccdull + (size_t)(e->c >> 64);
    for (E k : e->k) h = (h ^ (size_t)k->id) * 0xc4ceb9fe1a85ec53ull + (h >> 29);
    return h;
  }
};
struct Eqq {
  bool operator()(const Expr* a, const Expr* b) const {
    return a->op == b->op && a->width == b->width && a->aux == b->aux &&
           a->c == b->c && a->k == b->k;
  }
};
std::unordered_map<const Expr*, const Expr*, Hash, Eqq> g_tab;
uint32_t g_next = 1;
E intern(Expr&& t) {
  auto it = g_tab.find(&t);
  if (it != g_tab.end()) return it->second;
  Expr* e = new Expr(std::move(t));
  e->id = g_next++;
  g_tab.emplace(e, e);
  return e;
}
E node(Op op, unsigned w, std::vector<E> k, uint32_t aux = 0) {
  Expr t;
  t.op = op;
  t.width = w;
  t.k = std::move(k);
  t.aux = aux;
  return intern(std::move(t));
}
struct SymInfo {
  std::string name;
  unsigned w;
};
std::vector<SymInfo> g_syms;
std::vector<std::string> g_ufs;
std::map<std::string, uint32_t> g_ufIdx;
std::vector<Rat> g_rats;
std::map<Rat, uint32_t> g_ratIdx;
uint32_t ufId(const std::string& n) {
  auto it = g_ufIdx.find(n);
  if (it != g_ufIdx.end()) return it->second;
  g_ufs.push_back(n);
  return g_ufIdx[n] = g_ufs.size() - 1;
}
}  // namespace

const std::string& symName(uint32_t id) { return g_syms[id].name; }
const std::string& ufName(uint32_t id) { return g_ufs[id]; }
unsigned symWidth(uint32_t id) { return g_syms[id].w; }

E mkConst(u128 v, unsigned w) {
  Expr t;
  t.op = Op::Const;
  t.width = w;
  t.c = v & maskw(w);
  return intern(std::move(t));
}
E mkSym(const std::string& name, unsigned w) {
  g_syms.push_back({name, w});
  return node(Op::Sym, w, {}, g_syms.size() - 1);
}
E mkRSym(const std::string& name) {
  g_syms.push_back({name, 0});
  return node(Op::RSym, 0, {}, g_syms.size() - 1);
}
E mkRConst(const Rat& r) {
  auto it = g_ratIdx.find(r);
  uint32_t idx;
  if (it == g_ratIdx.end()) {
    g_rats.push_back(r);
    idx = g_rats.size() - 1;
    g_ratIdx[r] = idx;
  } else
    idx = it->second;
  return node(Op::RConst, 0, {}, idx);
}
const Rat& ratOf(E e) { return g_rats[e->aux]; }

static bool isC(E e) { return e->op == Op::Const; }
static bool isZero(E e) { return isC(e) && e->c == 0; }
static bool isOnes(E e) { return isC(e) && e->c == maskw(e->width); }

static u128 foldBin(Op op, u128 a, u128 b, unsigned w, bool& ok) {
  ok = true;
  u128 m = maskw(w);
  switch (op) {
    case Op::Add: return (a + b) & m;
    case Op::Sub: return (a - b) & m;
    case Op::Mul: return (a * b) & m;
    case Op::UDiv: if (!b) { ok = false; return 0; } return a / b;
    case Op::URem: if (!b) { ok = false; return 0; } return a % b;
    case Op::SDiv: {
      if (!b) { ok = false; return 0; }
      i128 x = sxt(a, w), y = sxt(b, w);
      if (y == -1) return (u128)(-x) & m;
      return (u128)(x / y) & m;
    }
    case Op::SRem: {
      if (!b) { ok = false; return 0; }
      i128 x = sxt(a, w), y = sxt(b, w);
      if (y == -1) return 0;
      return (u128)(x % y) & m;
    }
    case Op::And: return a & b;
    case Op::Or: return a | b;
    case Op::Xor: return a ^ b;
    case Op::Shl: return b >= w ? 0 : (a << (unsigned)b) & m;
    case Op::LShr: return b >= w ? 0 : (a >> (unsigned)b);
    case Op::AShr: {
      i128 x = sxt(a, w);
      return (u128)(x >> (unsigned)(b >= w ? w - 1 : b)) & m;
    }
    case Op::Eq: return a == b;
    case Op::Ult: return a < b;
    case Op::Ule: return a <= b;
    case Op::Slt: return sxt(a, w) < sxt(b, w);
    case Op::Sle: return sxt(a, w) <= sxt(b, w);
    default: ok = false; return 0;
  }
}

static bool commutative(Op op) {
  return op == Op::Add || op == Op::Mul || op == Op::And || op == Op::Or ||
         op == Op::Xor || op == Op::Eq;
}
// number of ite nodes whose leaves are constants (bounded)
static bool iteConstLeaves(E e, int depth) {
  if (isC(e)) return true;
  if (e->op != Op::Ite || depth == 0) return false;
  return iteConstLeaves(e->k[1], depth - 1) && iteConstLeaves(e->k[2], depth - 1);
}

E mkBin(Op op, E a, E b) {
  unsigned w = a->width;
  if (a->width != b->width) unsupported("width mismatch in mkBin");
  if (isC(a) && isC(b)) {
    bool ok;
    u128 r = foldBin(op, a->c, b->c, w, ok);
    if (ok) return mkConst(r, w);
  }
  if (commutative(op) && (isC(a) && !isC(b))) std::swap(a, b);
  switch (op) {
    case Op::Add:
      if (isZero(b)) return a;
      if (isC(b) && a->op == Op::Add && isC(a->k[1]))
        return mkBin(Op::Add, a->k[0], mkConst(a->k[1]->c + b->c, w));
      if (a->op == Op::Add && isC(a->k[1]) && !isC(b))
        return mkBin(Op::Add, mkBin(Op::Add, a->k[0], b), a->k[1]);
      if (b->op == Op::Add && isC(b->k[1]))
        return mkBin(Op::Add, mkBin(Op::Add, a, b->k[0]), b->k[1]);
      break;
    case Op::Sub:
      if (isZero(b)) return a;
      if (a == b) return mkConst(0, w);
      if (isC(b)) return mkBin(Op::Add, a, mkConst(-b->c, w));
      if (a->op == Op::Add && isC(a->k[1]))
        return mkBin(Op::Add, mkBin(Op::Sub, a->k[0], b), a->k[1]);
      if (b->op == Op::Add && isC(b->k[1]))
        return mkBin(Op::Add, mkBin(Op::Sub, a, b->k[0]), mkConst(-b->k[1]->c, w));
      if (a->op == Op::Add) {
        if (a->k[0] == b) return a->k[1];
        if (a->k[1] == b) return a->k[0];
      }
      break;
    case Op::Mul:
      if (isZero(b)) return b;
      if (isC(b) && b->c == 1) return a;
      if (isC(b) && a->op == Op::Mul && isC(a->k[1]))
        return mkBin(Op::Mul, a->k[0], mkConst(a->k[1]->c * b->c, w));
      if (isC(b) && (b->c & (b->c - 1)) == 0) {
        unsigned s = 0;
        while (((u128)1 << s) != b->c) s++;
        return mkBin(Op::Shl, a, mkConst(s, w));
      }
      break;
    case Op::UDiv:
      if (isC(b) && b->c == 1) return a;
      if (isC(b) && b->c && (b->c & (b->c - 1)) == 0) {
        unsigned s = 0;
        while (((u128)1 << s) != b->c) s++;
        return mkBin(Op::LShr, a, mkConst(s, w));
      }
      break;
    case Op::SDiv:
      if (isC(b) && b->c == 1) return a;
      break;
    case Op::URem:
      if (isC(b) && b->c == 1) return mkConst(0, w);
      break;
    case Op::And:
      if (isZero(b)) return b;
      if (isOnes(b)) return a;
      if (a == b) return a;
      if (w == 1) {
        if (mkNot(a) == b) return mkConst(0, 1);
      }
      if (isC(b) && a->op == Op::And && isC(a->k[1]))
        return mkBin(Op::And, a->k[0], mkConst(a->k[1]->c & b->c, w));
      // low mask -> zext(extract)
      if (isC(b) && w > 1) {
        u128 c = b->c;
        if ((c & (c + 1)) == 0) {
          unsigned n = 0;
          while ((c >> n) & 1) n++;
          return mkZExt(mkExtract(a, 0, n), w);
        }
        // high mask on aligned concat
        u128 inv = ~c & maskw(w);
        if ((inv & (inv + 1)) == 0) {
          unsigned n = 0;
          while ((inv >> n) & 1) n++;
          return mkConcat(mkExtract(a, n, w - n), mkConst(0, n));
        }
      }
      break;
    case Op::Or:
      if (isZero(b)) return a;
      if (isOnes(b)) return b;
      if (a == b) return a;
      if (w == 1 && mkNot(a) == b) return mkConst(1, 1);
      // disjoint zext / concat-with-zero combos
      {
        auto lowZero = [](E x) -> unsigned {
          if (x->op == Op::Concat && isZero(x->k[1])) return x->k[1]->width;
          return 0;
        };
        auto highZeroFrom = [](E x) -> unsigned {  // bits >= n are zero
          if (x->op == Op::ZExt) return x->k[0]->width;
          if (isC(x)) {
            unsigned n = 0;
            u128 v = x->c;
            while (v) { n++; v >>= 1; }
            return n;
          }
          return x->width;
        };
        for (int s = 0; s < 2; s++) {
          E x = s ? b : a, y = s ? a : b;
          unsigned lz = lowZero(x);
          if (lz && highZeroFrom(y) <= lz)
            return mkConcat(mkExtract(x, lz, w - lz), mkExtract(y, 0, lz));
        }
      }
      break;
    case Op::Xor:
      if (isZero(b)) return a;
      if (a == b) return mkConst(0, w);
      if (w == 1 && isOnes(b)) return mkNot(a);
      if (isC(b) && a->op == Op::Xor && isC(a->k[1]))
        return mkBin(Op::Xor, a->k[0], mkConst(a->k[1]->c ^ b->c, w));
      if (a->op == Op::RBits && isC(b) && b->c == ((u128)1 << (w - 1)))
        return mkRBits(mkRNeg(a->k[0]), w);
      break;
    case Op::Shl:
      if (isZero(b)) return a;
      if (isZero(a)) return a;
      if (isC(b)) {
        if (b->c >= w) return mkConst(0, w);
        unsigned s = (unsigned)b->c;
        return mkConcat(mkExtract(a, 0, w - s), mkConst(0, s));
      }
      break;
    case Op::LShr:
      if (isZero(b)) return a;
      if (isZero(a)) return a;
      if (isC(b)) {
        if (b->c >= w) return mkConst(0, w);
        unsigned s = (unsigned)b->c;
        return mkZExt(mkExtract(a, s, w - s), w);
      }
      break;
    case Op::AShr:
      if (isZero(b)) return a;
      if (isZero(a)) return a;
      if (isC(b)) {
        unsigned s = b->c >= w ? w - 1 : (unsigned)b->c;
        return mkSExt(mkExtract(a, s, w - s), w);
      }
      break;
    default: break;
  }
  // push op with constant into ite of constants
  if (isC(b) && a->op == Op::Ite && iteConstLeaves(a, 4))
    return mkIte(a->k[0], mkBin(op, a->k[1], b), mkBin(op, a->k[2], b));
  if (isC(a) && b->op == Op::Ite && iteConstLeaves(b, 4))
    return mkIte(b->k[0], mkBin(op, a, b->k[1]), mkBin(op, a, b->k[2]));
  if (commutative(op) && !isC(b) && a->id > b->id) std::swap(a, b);
  return node(op, w, {a, b});
}

E mkCmp(Op op, E a, E b) {
  if (a->width != b->width) unsupported("width mismatch in mkCmp");
  unsigned w = a->width;
  if (isC(a) && isC(b)) {
    bool ok;
    return mkConst(foldBin(op, a->c, b->c, w, ok), 1);
  }
  if (a == b) return mkConst(op == Op::Eq || op == Op::Ule || op == Op::Sle, 1);
  if (op == Op::Eq) {
    if (isC(a)) std::swap(a, b);
    if (w == 1) {
      if (isC(b)) return b->c ? a : mkNot(a);
    }
    if (isC(b)) {
      if (a->op == Op::Ite && (isC(a->k[1]) || isC(a->k[2]))) {
        E t = mkCmp(op, a->k[1], b), f = mkCmp(op, a->k[2], b);
        return mkIte(a->k[0], t, f);
      }
      if (a->op == Op::Add && isC(a->k[1]))
        return mkCmp(Op::Eq, a->k[0], mkConst(b->c - a->k[1]->c, w));
      if (a->op == Op::ZExt) {
        unsigned kw = a->k[0]->width;
        if (b->c >> kw) return mkConst(0, 1);
        return mkCmp(Op::Eq, a->k[0], mkConst(b->c, kw));
      }
      if (a->op == Op::SExt) {
        unsigned kw = a->k[0]->width;
        if (((u128)sxt(b->c, kw) & maskw(w)) != b->c) return mkConst(0, 1);
        return mkCmp(Op::Eq, a->k[0], mkConst(b->c, kw));
      }
      if (a->op == Op::Concat) {
        unsigned lw = a->k[1]->width;
        return mkAnd(mkCmp(Op::Eq, a->k[0], mkConst(b->c >> lw, w - lw)),
                     mkCmp(Op::Eq, a->k[1], mkConst(b->c, lw)));
      }
      if (a->op == Op::Xor && isC(a->k[1]))
        return mkCmp(Op::Eq, a->k[0], mkConst(b->c ^ a->k[1]->c, w));
    } else {
      if (a->op == Op::Add && b->op == Op::Add && isC(a->k[1]) && isC(b->k[1]) &&
          a->k[0] == b->k[0])
        return mkConst(a->k[1]->c == b->k[1]->c, 1);
      if (a->op == Op::ZExt && b->op == Op::ZExt && a->k[0]->width == b->k[0]->width)
        return mkCmp(op, a->k[0], b->k[0]);
      if (a->op == Op::SExt && b->op == Op::SExt && a->k[0]->width == b->k[0]->width)
        return mkCmp(op, a->k[0], b->k[0]);
      if (a->op == Op::Concat && b->op == Op::Concat && a->k[1]->width == b->k[1]->width)
        return mkAnd(mkCmp(Op::Eq, a->k[0], b->k[0]), mkCmp(Op::Eq, a->k[1], b->k[1]));
      if (a->op == Op::RBits && b->op == Op::RBits)
        return mkRBin(Op::REq, a->k[0], b->k[0]);
    }
    if (!isC(b) && a->id > b->id) std::swap(a, b);
    return node(Op::Eq, 1, {a, b});
  }
  if (op == Op::Ult) {
    if (isZero(b)) return mkConst(0, 1);
    if (isOnes(a)) return mkConst(0, 1);
    if (isC(b) && b->c == 1) return mkCmp(Op::Eq, a, mkConst(0, w));
    if (isZero(a)) return mkNot(mkCmp(Op::Eq, b, a));
  }
  if (op == Op::Ule) {
    if (isZero(a) || isOnes(b)) return mkConst(1, 1);
    if (isZero(b)) return mkCmp(Op::Eq, a, b);
  }
  if (op == Op::Ult || op == Op::Ule) {
    if (a->op == Op::ZExt && isC(b)) {
      unsigned kw = a->k[0]->width;
      if (b->c >> kw) return mkConst(1, 1);
      return mkCmp(op, a->k[0], mkConst(b->c, kw));
    }
    if (b->op == Op::ZExt && isC(a)) {
      unsigned kw = b->k[0]->width;
      if (a->c >> kw) return mkConst(0, 1);
      return mkCmp(op, mkConst(a->c, kw), b->k[0]);
    }
    if (a->op == Op::ZExt && b->op == Op::ZExt && a->k[0]->width == b->k[0]->width)
      return mkCmp(op, a->k[0], b->k[0]);
    // bounded offset compare x+c1 < x+c2 is not valid under wraparound: skip
  }
  if (op == Op::Slt || op == Op::Sle) {
    if (a->op == Op::ZExt && isC(b)) {
      if (b->c >> (w - 1)) return mkConst(0, 1);
      return mkCmp(op == Op::Slt ? Op::Ult : Op::Ule, a, b);
    }
    if (b->op == Op::ZExt && isC(a)) {
      if (a->c >> (w - 1)) return mkConst(1, 1);
      return mkCmp(op == Op::Slt ? Op::Ult : Op::Ule, a, b);
    }
    if (a->op == Op::ZExt && b->op == Op::ZExt)
      return mkCmp(op == Op::Slt ? Op::Ult : Op::Ule, a, b);
    if (a->op == Op::SExt && b->op == Op::SExt && a->k[0]->width == b->k[0]->width)
      return mkCmp(op, a->k[0], b->k[0]);
    if (a->op == Op::SExt && isC(b)) {
      unsigned kw = a->k[0]->width;
      i128 v = sxt(b->c, w), lo = -((i128)1 << (kw - 1)), hi = ((i128)1 << (kw - 1)) - 1;
      if (v > hi) return mkConst(1, 1);
      if (v < lo) return mkConst(0, 1);
      return mkCmp(op, a->k[0], mkConst((u128)v, kw));
    }
  }
  if (isC(b) && a->op == Op::Ite && iteConstLeaves(a, 4))
    return mkIte(a->k[0], mkCmp(op, a->k[1], b), mkCmp(op, a->k[2], b));
  if (isC(a) && b->op == Op::Ite && iteConstLeaves(b, 4))
    return mkIte(b->k[0], mkCmp(op, a, b->k[1]), mkCmp(op, a, b->k[2]));
  return node(op, 1, {a, b});
}

E mkNot(E a) {
  if (a->width != 1) unsupported("mkNot width");
  if (isC(a)) return mkConst(!a->c, 1);
  if (a->op == Op::Xor && isC(a->k[1])) return a->k[0];
  if (a->op == Op::Ult) return mkCmp(Op::Ule, a->k[1], a->k[0]);
  if (a->op == Op::Ule) return mkCmp(Op::Ult, a->k[1], a->k[0]);
  if (a->op == Op::Slt) return mkCmp(Op::Sle, a->k[1], a->k[0]);
  if (a->op == Op::Sle) return mkCmp(Op::Slt, a->k[1], a->k[0]);
  if (a->op == Op::RLt) return mkRBin(Op::RLe, a->k[1], a->k[0]);
  if (a->op == Op::RLe) return mkRBin(Op::RLt, a->k[1], a->k[0]);
  return node(Op::Xor, 1, {a, mkConst(1, 1)});
}
E mkAnd(E a, E b) { return mkBin(Op::And, a, b); }
E mkOr(E a, E b) { return mkBin(Op::Or, a, b); }

E mkIte(E c, E a, E b) {
  if (isC(c)) return c->c ? a : b;
  if (a == b) return a;
  if (a->isReal()) {
    return node(Op::RIte, 0, {c, a, b});
  }
  if (a->width != b->width) unsupported("ite width");
  if (a->width == 1) {
    if (isC(a)) return a->c ? mkOr(c, b) : mkAnd(mkNot(c), b);
    if (isC(b)) return b->c ? mkOr(mkNot(c), a) : mkAnd(c, a);
  }
  if (c->op == Op::Xor && isC(c->k[1])) return mkIte(c->k[0], b, a);
  if (a->op == Op::Ite && a->k[0] == c) return mkIte(c, a->k[1], b);
  if (b->op == Op::Ite && b->k[0] == c) return mkIte(c, a, b->k[2]);
  if (a->op == Op::RBits && b->op == Op::RBits && a->width == b->width)
    return mkRBits(mkIte(c, a->k[0], b->k[0]), a->width);
  return node(Op::Ite, a->width, {c, a, b});
}

E mkConcat(E hi, E lo) {
  unsigned w = hi->width + lo->width;
  if (w > 128) unsupported("concat > 128 bits");
  if (isC(hi) && isC(lo)) return mkConst((hi->c << lo->width) | lo->c, w);
  if (isZero(hi)) return mkZExt(lo, w);
  // merge adjacent extracts
  {
    E hb = hi, lb = lo;
    unsigned ho = 0, lof = 0;
    if (hi->op == Op::Extract) { hb = hi->k[0]; ho = hi->aux; }
    if (lo->op == Op::Extract) { lb = lo->k[0]; lof = lo->aux; }
    if (hb == lb && hi->op == Op::Extract && lof + lo->width == ho &&
        (lo->op == Op::Extract || lof == 0))
      return mkExtract(hb, lof, w);
    // concat(extract x hi, concat(extract x lo, y))
    if (hi->op == Op::Extract && lo->op == Op::Concat &&
        lo->k[0]->op == Op::Extract && lo->k[0]->k[0] == hi->k[0] &&
        lo->k[0]->aux + lo->k[0]->width == hi->aux)
      return mkConcat(mkExtract(hi->k[0], lo->k[0]->aux, hi->width + lo->k[0]->width),
                      lo->k[1]);
  }
  if (hi->op == Op::ZExt)
    return mkZExt(mkConcat(hi->k[0], lo), w);
  // right-associate
  if (hi->op == Op::Concat) return mkConcat(hi->k[0], mkConcat(hi->k[1], lo));
  if (isC(hi) && lo->op == Op::Concat && isC(lo->k[0]))
    return mkConcat(mkConst((hi->c << lo->k[0]->width) | lo->k[0]->c,
                            hi->width + lo->k[0]->width),
                    lo->k[1]);
  return node(Op::Concat, w, {hi, lo});
}

E mkExtract(E a, unsigned lo, unsigned w) {
  if (lo + w > a->width || w == 0) unsupported("bad extract");
  if (lo == 0 && w == a->width) return a;
  if (isC(a)) return mkConst(a->c >> lo, w);
  switch (a->op) {
    case Op::Extract: return mkExtract(a->k[0], lo + a->aux, w);
    case Op::Concat: {
      unsigned lw = a->k[1]->width;
      if (lo >= lw) return mkExtract(a->k[0], lo - lw, w);
      if (lo + w <= lw) return mkExtract(a->k[1], lo, w);
      return mkConcat(mkExtract(a->k[0], 0, lo + w - lw),
                      mkExtract(a->k[1], lo, lw - lo));
    }
    case Op::ZExt: {
      unsigned kw = a->k[0]->width;
      if (lo >= kw) return mkConst(0, w);
      if (lo + w <= kw) return mkExtract(a->k[0], lo, w);
      return mkZExt(mkExtract(a->k[0], lo, kw - lo), w);
    }
    case Op::SExt: {
      unsigned kw = a->k[0]->width;
      if (lo + w <= kw) return mkExtract(a->k[0], lo, w);
      if (lo == 0) return mkSExt(a->k[0], w);
      if (lo < kw) return mkSExt(mkExtract(a->k[0], lo, kw - lo), w);
      break;
    }
    case Op::Ite:
      if (isC(a->k[1]) || isC(a->k[2]))
        return mkIte(a->k[0], mkExtract(a->k[1], lo, w), mkExtract(a->k[2], lo, w));
      break;
    case Op::And: case Op::Or: case Op::Xor:
      return mkBin(a->op, mkExtract(a->k[0], lo, w), mkExtract(a->k[1], lo, w));
    case Op::Add: case Op::Sub: case Op::Mul:
      if (lo == 0)
        return mkBin(a->op, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w));
      break;
    default: break;
  }
  return node(Op::Extract, w, {a}, lo);
}
E mkZExt(E a, unsigned w) {
  if (w == a->width) return a;
  if (w < a->width) unsupported("zext narrowing");
  if (isC(a)) return mkConst(a->c, w);
  if (a->op == Op::ZExt) return mkZExt(a->k[0], w);
  if (a->op == Op::Ite && iteConstLeaves(a, 4))
    return mkIte(a->k[0], mkZExt(a->k[1], w), mkZExt(a->k[2], w));
  return node(Op::ZExt, w, {a});
}
E mkSExt(E a, unsigned w) {
  if (w == a->width) return a;
  if (w < a->width) unsupported("sext narrowing");
  if (isC(a)) return mkConst((u128)sxt(a->c, a->width), w);
  if (a->op == Op::SExt) return mkSExt(a->k[0], w);
  if (a->op == Op::ZExt) return mkZExt(a->k[0], w);
  if (a->op == Op::Ite && iteConstLeaves(a, 4))
    return mkIte(a->k[0], mkSExt(a->k[1], w), mkSExt(a->k[2], w));
  return node(Op::SExt, w, {a});
}

// ---- IEEE ----
static double asD(u128 c) { uint64_t x = (uint64_t)c; double d; memcpy(&d, &x, 8); return d; }
static float asF(u128 c) { uint32_t x = (uint32_t)c; float d; memcpy(&d, &x, 4); return d; }
static u128 bD(double d) { uint64_t x; memcpy(&x, &d, 8); return x; }
static u128 bF(float d) { uint32_t x; memcpy(&x, &d, 4); return x; }

static std::optional<u128> foldF(Op op, unsigned w, u128 a, u128 b, u128 c,
                                 unsigned aw) {
#define ARITH(EX) \
  if (aw == 64) { double x = asD(a), y = asD(b); (void)y; return bD(EX); } \
  else { float x = asF(a), y = asF(b); (void)y; return bF(EX); }
#define CMP(EX) \
  if (aw == 64) { double x = asD(a), y = asD(b); return (u128)(EX); } \
  else { float x = asF(a), y = asF(b); return (u128)(EX); }
  switch (op) {
    case Op::FAdd: ARITH(x + y)
    case Op::FSub: ARITH(x - y)
    case Op::FMul: ARITH(x * y)
    case Op::FDiv: ARITH(x / y)
    case Op::FRem: ARITH(std::fmod(x, y))
    case Op::FSqrt: ARITH(std::sqrt(x))
    case Op::FFloor: ARITH(std::floor(x))
    case Op::FCeil: ARITH(std::ceil(x))
    case Op::FTruncI: ARITH(std::trunc(x))
    case Op::FRint: ARITH(std::nearbyint(x))
    case Op::FRoundA: ARITH(std::round(x))
    case Op::FEq: CMP(x == y)
    case Op::FLt: CMP(x < y)
    case Op::FLe: CMP(x <= y)
    case Op::FUno: CMP(std::isnan(x) || std::isnan(y))
    case Op::FFma:
      if (aw == 64) return bD(std::fma(asD(a), asD(b), asD(c)));
      return bF(std::fmaf(asF(a), asF(b), asF(c)));
    case Op::FExt: return bD((double)asF(a));
    case Op::FTrunc: return bF((float)asD(a));
    case Op::FToSI: case Op::FToUI: {
      long double x = aw == 64 ? (long double)asD(a) : (long double)asF(a);
      if (!(std::isfinite((double)x))) return std::nullopt;
      x = truncl(x);
      long double lo, hi;
      if (op == Op::FToSI) { lo = -ldexpl(1, w - 1); hi = ldexpl(1, w - 1) - 1; }
      else { lo = 0; hi = ldexpl(1, w) - 1; }
      if (w > 64 || x < lo || x > hi) return std::nullopt;
      if (op == Op::FToSI) return (u128)(i128)(int64_t)x & maskw(w);
      return (u128)(uint64_t)x & maskw(w);
    }
    case Op::SIToF: {
      i128 v = sxt(a, aw);
      return w == 64 ? bD((double)(int64_t)v) : bF((float)(int64_t)v);
    }
    case Op::UIToF:
      return w == 64 ? bD((double)(uint64_t)a) : bF((float)(uint64_t)a);
    default: return std::nullopt;
  }
}
E mkFBin(Op op, E a, E b) {
  bool cmp = op == Op::FEq || op == Op::FLt || op == Op::FLe || op == Op::FUno;
  unsigned w = cmp ? 1 : a->width;
  if (isC(a) && isC(b)) {
    auto r = foldF(op, w, a->c, b->c, 0, a->width);
    if (r) return mkConst(*r, w);
  }
  if (op == Op::FUno && a != b) {
    auto nn = [](E x) { return isC(x) && !(x->width == 64 ? std::isnan(asD(x->c)) : std::isnan(asF(x->c))); };
    if (nn(b)) return mkFBin(op, a, a);
    if (nn(a)) return mkFBin(op, b, b);
  }
  if (op == Op::FUno && (a->op == Op::SIToF || a->op == Op::UIToF) && a == b) return mkConst(0, 1);
  if ((op == Op::FAdd || op == Op::FMul || op == Op::FEq) && a->id > b->id) std::swap(a, b);
  return node(op, w, {a, b});
}
E mkFUn(Op op, E a, unsigned w) {
  if (isC(a)) {
    auto r = foldF(op, w, a->c, 0, 0, a->width);
    if (r) return mkConst(*r, w);
  }
  if (op == Op::FTrunc && a->op == Op::FExt) return a->k[0];
  return node(op, w, {a});
}
E mkFFma(E a, E b, E c) {
  if (isC(a) && isC(b) && isC(c))
    return mkConst(*foldF(Op::FFma, a->width, a->c, b->c, c->c, a->width), a->width);
  return node(Op::FFma, a->width, {a, b, c});
}
E mkUF(const std::string& name, const std::vector<E>& args, unsigned w) {
  return node(Op::UF, w, args, ufId(name + "/" + std::to_string(w)));
}

// ---- reals ----
static bool rC(E e) { return e->op == Op::RConst; }
static bool rIs(E e, int v) { return rC(e) && ratOf(e) == v; }
E mkRBin(Op op, E a, E b) {
  if (rC(a) && rC(b)) {
    switch (op) {
      case Op::RAdd: return mkRConst(ratOf(a) + ratOf(b));
      case Op::RMul: return mkRConst(ratOf(a) * ratOf(b));
      case Op::RDiv: if (ratOf(b) != 0) return mkRConst(ratOf(a) / ratOf(b)); break;
      case Op::REq: return mkConst(ratOf(a) == ratOf(b), 1);
      case Op::RLt: return mkConst(ratOf(a) < ratOf(b), 1);
      case Op::RLe: return mkConst(ratOf(a) <= ratOf(b), 1);
      default: break;
    }
  }
  switch (op) {
    case Op::RAdd:
      if (rIs(a, 0)) return b;
      if (rIs(b, 0)) return a;
      break;
    case Op::RMul:
      if (rIs(a, 0)) return a;
      if (rIs(b, 0)) return b;
      if (rIs(a, 1)) return b;
      if (rIs(b, 1)) return a;
      if (rC(b) && a->op == Op::RMul && rC(a->k[0]))
        return mkRBin(Op::RMul, mkRConst(ratOf(a->k[0]) * ratOf(b)), a->k[1]);
      if (rC(a) && b->op == Op::RMul && rC(b->k[0]))
        return mkRBin(Op::RMul, mkRConst(ratOf(b->k[0]) * ratOf(a)), b->k[1]);
      if (rC(b)) std::swap(a, b);
      break;
    case Op::RDiv:
      if (rIs(b, 1)) return a;
      if (rC(b) && ratOf(b) != 0) return mkRBin(Op::RMul, mkRConst(1 / ratOf(b)), a);
      break;
    case Op::REq:
      if (a == b) return mkConst(1, 1);
      break;
    case Op::RLt:
      if (a == b) return mkConst(0, 1);
      break;
    case Op::RLe:
      if (a == b) return mkConst(1, 1);
      break;
    default: break;
  }
  if (op == Op::RLt || op == Op::RLe) {  // roots of sums of squares compared with numbers
    static const uint32_t sq = ufId("r_sqrt");
    std::function<bool(E)> sos = [&](E e) { return e->op == Op::RMul ? e->k[0] == e->k[1] : e->op == Op::RAdd ? sos(e->k[0]) && sos(e->k[1]) : rC(e) && ratOf(e) >= 0; };
    auto root = [&](E e) { return e->op == Op::RUF && e->aux == sq && sos(e->k[0]); };
    if (root(a) && rC(b)) return ratOf(b) < 0 || (ratOf(b) == 0 && op == Op::RLt) ? mkConst(0, 1) : mkRBin(op, a->k[0], mkRConst(ratOf(b) * ratOf(b)));
    if (root(b) && rC(a)) return ratOf(a) < 0 || (ratOf(a) == 0 && op == Op::RLe) ? mkConst(1, 1) : mkRBin(op, mkRConst(ratOf(a) * ratOf(a)), b->k[0]);
  }
  bool cmp = op == Op::REq || op == Op::RLt || op == Op::RLe;
  if ((op == Op::RAdd || op == Op::REq) && a->id > b->id) std::swap(a, b);
  if (op == Op::RMul && !rC(a) && a->id > b->id) std::swap(a, b);
  return node(op, cmp ? 1 : 0, {a, b});
}
E mkRNeg(E a) { return mkRBin(Op::RMul, mkRConst(Rat(-1)), a); }
bool g_numeric = false;
E mkRUF(const std::string& name, const std::vector<E>& args) {
  if (g_numeric && args.size() == 1 && rC(args[0])) {  // known values: evaluated in double precision
    static const std::map<std::string, double (*)(double)> fn{{"cos", ::cos}, {"sin", ::sin}, {"tan", ::tan}, {"exp", ::exp}, {"log", ::log}, {"log10", ::log10}, {"sqrt", ::sqrt}, {"asin", ::asin}, {"acos", ::acos}, {"atan", ::atan}};
    const auto f = fn.find(name);
    if (f != fn.end()) {
      const double d = f->second(realApprox(ratOf(args[0])));
      if (std::isfinite(d)) return mkRConst(ratFromDouble(d));
    }
  }
  // parity normalisation: cos(-x)=cos(x), sin(-x)=-sin(x)
  if (args.size() == 1) {
    E x = args[0];
    bool neg = x->op == Op::RMul && rC(x->k[0]) && ratOf(x->k[0]) < 0;
    if (name == "cos" && neg) return mkRUF(name, {mkRNeg(x)});
    if ((name == "sin" || name == "tan" || name == "atan") && neg)
      return mkRNeg(mkRUF(name, {mkRNeg(x)}));
    if (rC(x) && ratOf(x) == 0) {
      if (name == "cos" || name == "exp") return mkRConst(Rat(1));
      if (name == "sin" || name == "tan" || name == "atan" || name == "sqrt") return x;
    }
    if (name == "sqrt" && rC(x) && ratOf(x) > 0) {  // exact roots
      using boost::multiprecision::cpp_int;
      const cpp_int n = numerator(ratOf(x)), d = denominator(ratOf(x));
      const cpp_int a = boost::multiprecision::sqrt(n), b = boost::multiprecision::sqrt(d);
      if (a * a == n && b * b == d) return mkRConst(Rat(a, b));
    }
    if (name == "log" && rC(x) && ratOf(x) == 1) return mkRConst(Rat(0));
  }
  if (name == "fmod" && rC(args[0]) && rC(args[1]) && ratOf(args[1]) != 0) {
    const Rat a = ratOf(args[0]), b = ratOf(args[1]), q = a / b;
    const boost::multiprecision::cpp_int k = numerator(q) / denominator(q);  // towards zero
    return mkRConst(a - b * Rat(k));
  }
  return node(Op::RUF, 0, args, ufId("r_" + name));
}
E mkRBits(E a, unsigned w) {
  if (a->op == Op::RFromBits && a->k[0]->width == w) return a->k[0];
  return node(Op::RBits, w, {a});
}
double realApprox(const Rat& r) { return r.convert_to<double>(); }
Rat ratFromDouble(double d) {
  if (!std::isfinite(d)) unsupported("non-finite constant in real mode");
  int ex;
  double m = std::frexp(d, &ex);
  boost::multiprecision::cpp_int n = (int64_t)std::ldexp(m, 53);
  ex -= 53;
  boost::multiprecision::cpp_int p = 1;
  p <<= std::abs(ex);
  return ex >= 0 ? Rat(n * p) : Rat(n, p);
}
E mkRFromBits(E a) {
  if (a->op == Op::RBits) return a->k[0];
  if (isC(a)) {
    double d = a->width == 64 ? asD(a->c) : (double)asF(a->c);
    if (!std::isfinite(d)) return mkRUF(std::isnan(d) ? "NAN" : d > 0 ? "INF" : "NEGINF", {});
    return mkRConst(ratFromDouble(d));
  }
  if (a->op == Op::Ite)
    return mkIte(a->k[0], mkRFromBits(a->k[1]), mkRFromBits(a->k[2]));
  return node(Op::RFromBits, 0, {a});
}
E mkRFromInt(E a, bool sgn) {
  if (isC(a)) {
    if (sgn) {
      i128 v = sxt(a->c, a->width);
      return mkRConst(Rat((boost::multiprecision::cpp_int)v));
    }
    return mkRConst(Rat((boost::multiprecision::cpp_int)a->c));
  }
  if (a->op == Op::Ite && iteConstLeaves(a, 4))
    return mkIte(a->k[0], mkRFromInt(a->k[1], sgn), mkRFromInt(a->k[2], sgn));
  return node(sgn ? Op::RFromSI : Op::RFromUI, 0, {a});
}
static boost::multiprecision::cpp_int ratFloor(const Rat& r) {
  using boost::multiprecision::cpp_int;
  cpp_int n = numerator(r), d = denominator(r);
  cpp_int q = n / d;
  if (n % d != 0 && n < 0) q -= 1;
  return q;
}
E mkRUn(Op op, E a, unsigned w) {
  if (rC(a)) {
    if (op == Op::RFloor) return mkRConst(Rat(ratFloor(ratOf(a))));
    if (op == Op::RToSI) {
      using boost::multiprecision::cpp_int;
      cpp_int q = numerator(ratOf(a)) / denominator(ratOf(a));
      return mkConst((u128)(i128)q, w);
    }
  }
  return node(op, w, {a});
}

// ---- symbol sets ----
const std::vector<uint32_t>& symsOf(E e) {
  if (e->syms) return *e->syms;
  // iterative post-order
  std::vector<E> st{e};
  while (!st.empty()) {
    E x = st.back();
    if (x->syms) { st.pop_back(); continue; }
    bool ready = true;
    for (E k : x->k)
      if (!k->syms) { st.push_back(k); ready = false; }
    if (!ready) continue;
    st.pop_back();
    auto* v = new std::vector<uint32_t>;
    if (x->op == Op::Sym || x->op == Op::RSym) v->push_back(x->aux);
    if (x->op == Op::UF || x->op == Op::RUF) v->push_back(0x80000000u | x->aux);
    bool shared = false;
    if (x->k.size() == 1 && v->empty()) {
      x->syms = x->k[0]->syms;
      shared = true;
    } else {
      for (E k : x->k) {
        std::vector<uint32_t> m;
        std::set_union(v->begin(), v->end(), k->syms->begin(), k->syms->end(),
                       std::back_inserter(m));
        v->swap(m);
      }
      for (E k : x->k)
        if (k->syms->size() == v->size()) { x->syms = k->syms; shared = true; break; }
    }
    if (shared) delete v;
    else x->syms = v;
  }
  return *e->syms;
}
bool hasReal(E e) {
  static std::unordered_map<E, bool> memo;
  auto it = memo.find(e);
  if (it != memo.end()) return it->second;
  bool r = e->isReal() || e->op == Op::RBits;
  for (E k : e->k)
    if (!r) r = hasReal(k);
  return memo[e] = r;
}

// ---- evaluation ----
namespace {
struct Evaluator {
  const Assign& a;
  std::unordered_map<E, std::optional<u128>> m;
  std::unordered_map<E, std::optional<Rat>> mr;
  std::optional<u128> bv(E e) {
    if (e->op == Op::Const) return e->c;
    if (e->op == Op::Sym) {
      auto it = a.bv.find(e->aux);
      return it == a.bv.end() ? (u128)0 : it->second;
    }
    auto it = m.find(e);
    if (it != m.end()) return it->second;
    auto r = bv0(e);
    return m[e] = r;
  }
  std::optional<u128> bv0(E e) {
    switch (e->op) {
      case Op::Ite: {
        auto c = bv(e->k[0]);
        if (!c) return std::nullopt;
        return bv(*c ? e->k[1] : e->k[2]);
      }
      case Op::And: {
        auto x = bv(e->k[0]);
        if (x && *x == 0) return (u128)0;
        auto y = bv(e->k[1]);
        if (y && *y == 0) return (u128)0;
        if (!x || !y) return std::nullopt;
        return *x & *y;
      }
      case Op::Concat: {
        auto x = bv(e->k[0]), y = bv(e->k[1]);
        if (!x || !y) return std::nullopt;
        return (*x << e->k[1]->width) | *y;
      }
      case Op::Extract: {
        auto x = bv(e->k[0]);
        if (!x) return std::nullopt;
        return (*x >> e->aux) & maskw(e->width);
      }
      case Op::ZExt: return bv(e->k[0]);
      case Op::SExt: {
        auto x = bv(e->k[0]);
        if (!x) return std::nullopt;
        return (u128)sxt(*x, e->k[0]->width) & maskw(e->width);
      }
      case Op::REq: case Op::RLt: case Op::RLe: {
        auto x = rl(e->k[0]), y = rl(e->k[1]);
        if (!x || !y) return std::nullopt;
        return (u128)(e->op == Op::REq ? *x == *y : e->op == Op::RLt ? *x < *y : *x <= *y);
      }
      case Op::UF: case Op::RBits: case Op::RToSI: return std::nullopt;
      default: break;
    }
    std::optional<u128> v[3] = {0, 0, 0};
    for (size_t i = 0; i < e->k.size(); i++) {
      v[i] = bv(e->k[i]);
      if (!v[i]) return std::nullopt;
    }
    if (e->op >= Op::FAdd && e->op <= Op::FRoundA)
      return foldF(e->op, e->width, *v[0], *v[1], *v[2], e->k[0]->width);
    bool ok;
    u128 r = foldBin(e->op, *v[0], *v[1], e->k[0]->width, ok);
    if (!ok) return std::nullopt;
    return r;
  }
  std::optional<Rat> rl(E e) {
    if (e->op == Op::RConst) return ratOf(e);
    if (e->op == Op::RSym) {
      auto it = a.rl.find(e->aux);
      return it == a.rl.end() ? Rat(0) : it->second;
    }
    auto it = mr.find(e);
    if (it != mr.end()) return it->second;
    std::optional<Rat> r;
    switch (e->op) {
      case Op::RIte: {
        auto c = bv(e->k[0]);
        if (c) r = rl(*c ? e->k[1] : e->k[2]);
        break;
      }
      case Op::RAdd: case Op::RMul: case Op::RDiv: {
        auto x = rl(e->k[0]), y = rl(e->k[1]);
        if (x && y) {
          if (e->op == Op::RAdd) r = *x + *y;
          else if (e->op == Op::RMul) r = *x * *y;
          else if (*y != 0) r = *x / *y;
        }
        break;
      }
      case Op::RFromSI: case Op::RFromUI: {
        auto x = bv(e->k[0]);
        if (x) {
          if (e->op == Op::RFromSI) r = Rat((boost::multiprecision::cpp_int)sxt(*x, e->k[0]->width));
          else r = Rat((boost::multiprecision::cpp_int)*x);
        }
        break;
      }
      case Op::RFloor: {
        auto x = rl(e->k[0]);
        if (x) r = Rat(ratFloor(*x));
        break;
      }
      default: break;
    }
    return mr[e] = r;
  }
};
}  // namespace
std::optional<u128> evalBV(E e, const Assign& a) {
  Evaluator ev{a, {}, {}};
  return ev.bv(e);
}
std::optional<Rat> evalR(E e, const Assign& a) {
  Evaluator ev{a, {}, {}};
  return ev.rl(e);
}

std::string toStr(E e, int depth) {
  std::ostringstream o;
  static const char* names[] = {
      "c", "sym", "+", "-", "*", "udiv", "sdiv", "urem", "srem", "and", "or", "xor",
      "shl", "lshr", "ashr", "=", "ult", "ule", "slt", "sle", "ite", "concat",
      "extract", "zext", "sext", "f+", "f-", "f*", "f/", "frem", "fsqrt", "ffma",
      "f=", "f<", "f<=", "funo", "fext", "ftrunc", "ftosi", "ftoui", "sitof",
      "uitof", "ffloor", "fceil", "ftrunci", "frint", "fround", "uf", "rc", "rsym", "r+",
      "r*", "r/", "r=", "r<", "r<=", "rite", "ruf", "rbits", "rfrombits",
      "rfromsi", "rfromui", "rtosi", "rfloor"};
  if (e->op == Op::Const) { o << (uint64_t)e->c << ":" << e->width; return o.str(); }
  if (e->op == Op::RConst) { o << ratOf(e); return o.str(); }
  if (e->op == Op::Sym || e->op == Op::RSym) return symName(e->aux);
  if (depth == 0) return "...";
  o << "(" << names[(int)e->op];
  if (e->op == Op::Extract) o << "[" << e->aux << "+" << e->width << "]";
  if (e->op == Op::UF || e->op == Op::RUF) o << ":" << ufName(e->aux);
  for (E k : e->k) o << " " << toStr(k, depth - 1);
  o << ")";
  return o.str();
}

// ---- solver ----
SolverStats g_stats;
unsigned g_solverTimeoutMs = 60000;
bool g_niceReals = true;

namespace {
struct Tr {
  z3::context ctx;
  Z3_context c;
  std::unordered_map<E, z3::expr> bvm;   // BV or Bool (width 1) or Real
  std::unordered_map<E, z3::expr> fpm;
  std::unordered_map<std::string, z3::func_decl> fns;
  z3::expr rm;
  std::vector<std::pair<E, z3::expr>> uSqrt;
  Tr() : rm(ctx) {
    c = ctx;
    rm = z3::expr(ctx, Z3_mk_fpa_rne(c));
  }
  z3::expr e(Z3_ast a) {
    ctx.check_error();
    return z3::expr(ctx, a);
  }
  z3::sort fsort(unsigned w) {
    return w == 64 ? z3::sort(ctx, Z3_mk_fpa_sort_64(c)) : z3::sort(ctx, Z3_mk_fpa_sort_32(c));
  }
  z3::expr asBV(E x) {  // BV even for width 1
    z3::expr r = tr(x);
    if (x->width == 1) return z3::ite(r, ctx.bv_val(1, 1), ctx.bv_val(0, 1));
    return r;
  }
  static bool isFp(E x) {
    return (x->op >= Op::FAdd && x->op <= Op::FRoundA) && x->width != 1 &&
           x->op != Op::FToSI && x->op != Op::FToUI;
  }
  z3::expr fp(E x) {
    auto it = fpm.find(x);
    if (it != fpm.end()) return it->second;
    z3::expr r = fp0(x);
    fpm.emplace(x, r);
    return r;
  }
  z3::expr fp0(E x) {
    unsigned w = x->width;
    auto rmode = [&](int k) {
      switch (k) {
        case 0: return e(Z3_mk_fpa_rtn(c));
        case 1: return e(Z3_mk_fpa_rtp(c));
        case 2: return e(Z3_mk_fpa_rtz(c));
        case 3: return e(Z3_mk_fpa_rne(c));
        default: return e(Z3_mk_fpa_rna(c));
      }
    };
    switch (x->op) {
      case Op::FAdd: return e(Z3_mk_fpa_add(c, rm, fp(x->k[0]), fp(x->k[1])));
      case Op::FSub: return e(Z3_mk_fpa_sub(c, rm, fp(x->k[0]), fp(x->k[1])));
      case Op::FMul: return e(Z3_mk_fpa_mul(c, rm, fp(x->k[0]), fp(x->k[1])));
      case Op::FDiv: return e(Z3_mk_fpa_div(c, rm, fp(x->k[0]), fp(x->k[1])));
      case Op::FFma: return e(Z3_mk_fpa_fma(c, rm, fp(x->k[0]), fp(x->k[1]), fp(x->k[2])));
      case Op::FSqrt: return e(Z3_mk_fpa_sqrt(c, rm, fp(x->k[0])));
      case Op::FFloor: return e(Z3_mk_fpa_round_to_integral(c, rmode(0), fp(x->k[0])));
      case Op::FCeil: return e(Z3_mk_fpa_round_to_integral(c, rmode(1), fp(x->k[0])));
      case Op::FTruncI: return e(Z3_mk_fpa_round_to_integral(c, rmode(2), fp(x->k[0])));
      case Op::FRint: return e(Z3_mk_fpa_round_to_integral(c, rmode(3), fp(x->k[0])));
      case Op::FRoundA: return e(Z3_mk_fpa_round_to_integral(c, rmode(4), fp(x->k[0])));
      case Op::FExt: case Op::FTrunc:
        return e(Z3_mk_fpa_to_fp_float(c, rm, fp(x->k[0]), fsort(w)));
      case Op::SIToF: return e(Z3_mk_fpa_to_fp_signed(c, rm, asBV(x->k[0]), fsort(w)));
      case Op::UIToF: return e(Z3_mk_fpa_to_fp_unsigned(c, rm, asBV(x->k[0]), fsort(w)));
      case Op::Ite: return z3::ite(tr(x->k[0]), fp(x->k[1]), fp(x->k[2]));
      case Op::Xor:
        if (x->k[1]->op == Op::Const && x->k[1]->c == ((u128)1 << (w - 1)))
          return e(Z3_mk_fpa_neg(c, fp(x->k[0])));
        break;
      case Op::ZExt:  // fabs normalised to zext(extract)
        if (x->k[0]->width == w - 1 && x->k[0]->op == Op::Extract && x->k[0]->aux == 0 &&
            x->k[0]->k[0]->width == w)
          return e(Z3_mk_fpa_abs(c, fp(x->k[0]->k[0])));
        break;
      case Op::FRem: unsupported("symbolic frem");
      default: break;
    }
    return e(Z3_mk_fpa_to_fp_bv(c, asBV(x), fsort(w)));
  }
  z3::expr bvnum(u128 v, unsigned w) {
    if (w <= 64) return ctx.bv_val((uint64_t)v, w);
    z3::expr hi = ctx.bv_val((uint64_t)(v >> 64), w - 64);
    z3::expr lo = ctx.bv_val((uint64_t)v, 64);
    return z3::concat(hi, lo);
  }
  z3::expr tr(E x) {
    auto it = bvm.find(x);
    if (it != bvm.end()) return it->second;
    z3::expr r = tr0(x);
    bvm.emplace(x, r);
    return r;
  }
  std::string ratStr(const Rat& r) {
    std::ostringstream o;
    o << numerator(r);
    if (denominator(r) != 1) o << "/" << denominator(r);
    return o.str();
  }
  z3::expr tr0(E x) {
    unsigned w = x->width;
    auto K = [&](int i) { return tr(x->k[i]); };
    if (isFp(x)) {
      return e(Z3_mk_fpa_to_ieee_bv(c, fp(x)));
    }
    switch (x->op) {
      case Op::Const: return w == 1 ? ctx.bool_val(x->c != 0) : bvnum(x->c, w);
      case Op::Sym: {
        std::string n = symName(x->aux) + "#" + std::to_string(x->aux);
        return w == 1 ? ctx.bool_const(n.c_str()) : ctx.bv_const(n.c_str(), w);
      }
      case Op::Add: return K(0) + K(1);
      case Op::Sub: return K(0) - K(1);
      case Op::Mul: return K(0) * K(1);
      case Op::UDiv: return z3::udiv(K(0), K(1));
      case Op::SDiv: return K(0) / K(1);
      case Op::URem: return z3::urem(K(0), K(1));
      case Op::SRem: return z3::srem(K(0), K(1));
      case Op::And: return w == 1 ? (K(0) && K(1)) : (K(0) & K(1));
      case Op::Or: return w == 1 ? (K(0) || K(1)) : (K(0) | K(1));
      case Op::Xor:
        if (w == 1) {
          if (x->k[1]->op == Op::Const) return x->k[1]->c ? !K(0) : K(0);
          return K(0) != K(1);
        }
        return K(0) ^ K(1);
      case Op::Shl: return z3::shl(asBV(x->k[0]), asBV(x->k[1]));
      case Op::LShr: return z3::lshr(asBV(x->k[0]), asBV(x->k[1]));
      case Op::AShr: return z3::ashr(asBV(x->k[0]), asBV(x->k[1]));
      case Op::Eq: return K(0) == K(1);
      case Op::Ult: return z3::ult(asBV(x->k[0]), asBV(x->k[1]));
      case Op::Ule: return z3::ule(asBV(x->k[0]), asBV(x->k[1]));
      case Op::Slt: return z3::slt(asBV(x->k[0]), asBV(x->k[1]));
      case Op::Sle: return z3::sle(asBV(x->k[0]), asBV(x->k[1]));
      case Op::Ite: case Op::RIte: return z3::ite(K(0), K(1), K(2));
      case Op::Concat: return z3::concat(asBV(x->k[0]), asBV(x->k[1]));
      case Op::Extract: {
        z3::expr r = asBV(x->k[0]).extract(x->aux + w - 1, x->aux);
        return w == 1 ? r == ctx.bv_val(1, 1) : r;
      }
      case Op::ZExt: return z3::zext(asBV(x->k[0]), w - x->k[0]->width);
      case Op::SExt: return z3::sext(asBV(x->k[0]), w - x->k[0]->width);
      case Op::FEq: return e(Z3_mk_fpa_eq(c, fp(x->k[0]), fp(x->k[1])));
      case Op::FLt: return e(Z3_mk_fpa_lt(c, fp(x->k[0]), fp(x->k[1])));
      case Op::FLe: return e(Z3_mk_fpa_leq(c, fp(x->k[0]), fp(x->k[1])));
      case Op::FUno: {
        z3::expr a = e(Z3_mk_fpa_is_nan(c, fp(x->k[0])));
        if (x->k[0] == x->k[1]) return a;
        return a || e(Z3_mk_fpa_is_nan(c, fp(x->k[1])));
      }
      case Op::FToSI: {
        z3::expr r = e(Z3_mk_fpa_to_sbv(c, e(Z3_mk_fpa_rtz(c)), fp(x->k[0]), w));
        return r;
      }
      case Op::FToUI: return e(Z3_mk_fpa_to_ubv(c, e(Z3_mk_fpa_rtz(c)), fp(x->k[0]), w));
      case Op::UF: {
        z3::expr_vector av(ctx);
        z3::sort_vector sv(ctx);
        for (E k : x->k) { av.push_back(asBV(k)); sv.push_back(ctx.bv_sort(k->width)); }
        z3::func_decl f = ctx.function(("uf_" + ufName(x->aux)).c_str(), sv, ctx.bv_sort(w));
        return f(av);
      }
      case Op::RConst: return ctx.real_val(ratStr(ratOf(x)).c_str());
      case Op::RSym: {
        std::string n = symName(x->aux) + "#" + std::to_string(x->aux);
        return ctx.real_const(n.c_str());
      }
      case Op::RAdd: return K(0) + K(1);
      case Op::RMul: return K(0) * K(1);
      case Op::RDiv: return K(0) / K(1);
      case Op::REq: return K(0) == K(1);
      case Op::RLt: return K(0) < K(1);
      case Op::RLe: return K(0) <= K(1);
      case Op::RUF: {
        z3::expr_vector av(ctx);
        z3::sort_vector sv(ctx);
        for (E k : x->k) { av.push_back(tr(k)); sv.push_back(ctx.real_sort()); }
        if (x->k.empty()) return ctx.real_const(("ruf_" + ufName(x->aux)).c_str());
        z3::func_decl f = ctx.function(("ruf_" + ufName(x->aux)).c_str(), sv, ctx.real_sort());
        z3::expr r = f(av);
        return r;
      }
      case Op::RBits: {
        z3::func_decl f = ctx.function(("rbits" + std::to_string(w)).c_str(), ctx.real_sort(), ctx.bv_sort(w));
        return f(K(0));
      }
      case Op::RFromBits: {
        z3::func_decl f = ctx.function(("rfrombits" + std::to_string(x->k[0]->width)).c_str(), ctx.bv_sort(x->k[0]->width), ctx.real_sort());
        return f(asBV(x->k[0]));
      }
      case Op::RFromSI: return z3::to_real(e(Z3_mk_bv2int(c, asBV(x->k[0]), true)));
      case Op::RFromUI: return z3::to_real(e(Z3_mk_bv2int(c, asBV(x->k[0]), false)));
      case Op::RToSI: {
        z3::expr r = K(0);
        z3::expr fl = e(Z3_mk_real2int(c, r));
        z3::expr tr_ = z3::ite(r >= 0, fl, -e(Z3_mk_real2int(c, -r)));
        return e(Z3_mk_int2bv(c, w, tr_));
      }
      case Op::RFloor: return z3::to_real(e(Z3_mk_real2int(c, K(0))));
      default: unsupported("tr0 op");
    }
  }
};
Tr* g_tr = nullptr;

void collectRUF(E e, std::set<E>& seen, std::vector<E>& out) {
  if (!seen.insert(e).second) return;
  if (e->op == Op::RUF) out.push_back(e);
  for (E k : e->k) collectRUF(k, seen, out);
}
bool hasFP(E e, std::unordered_map<E, bool>& memo) {
  auto it = memo.find(e);
  if (it != memo.end()) return it->second;
  bool r = e->op >= Op::FAdd && e->op <= Op::FRoundA;
  for (E k : e->k)
    if (!r) r = hasFP(k, memo);
  return memo[e] = r;
}

struct KeyHash {
  size_t operator()(const std::vector<uint32_t>& v) const {
    size_t h = v.size();
    for (auto x : v) h = (h ^ x) * 0x9E3779B97F4A7C15ull + (h >> 31);
    return h;
  }
};
std::unordered_map<std::vector<uint32_t>, std::pair<Res, Assign>, KeyHash> g_cache;
std::unordered_map<E, bool> g_fpMemo;
}  // namespace

static Res solveZ3(const std::vector<E>& cs, Assign* model,
                   const std::vector<uint32_t>& syms) {
  if (!g_tr) g_tr = new Tr();
  Tr& t = *g_tr;
  z3::context& ctx = t.ctx;
  bool real = false, fpx = false, uf = false;
  for (E c : cs) {
    real |= hasReal(c);
    fpx |= hasFP(c, g_fpMemo);
  }
  for (uint32_t s : syms) uf |= (s & 0x80000000u) != 0;
  auto t0 = std::chrono::steady_clock::now();
  Res res = Res::Unknown;
  static z3::solver* inc = nullptr;
  auto extract = [&](z3::solver& s) {
    if (!model) return;
    z3::model m = s.get_model();
    for (uint32_t sy : syms) {
      if (sy & 0x80000000u) continue;
      unsigned w = symWidth(sy);
      std::string n = symName(sy) + "#" + std::to_string(sy);
      if (w == 0) {
        z3::expr v = m.eval(ctx.real_const(n.c_str()), true);
        std::string num;
        if (v.is_numeral()) {
          z3::expr nu = v.numerator(), de = v.denominator();
          auto S = [&](z3::expr q) { return std::string(Z3_get_numeral_string(ctx, q)); };
          model->rl[sy] = Rat(boost::multiprecision::cpp_int(S(nu)),
                              boost::multiprecision::cpp_int(S(de)));
        } else {
          try {
            std::string d = v.get_decimal_string(30);
            if (!d.empty() && d.back() == '?') d.pop_back();
            // parse decimal
            bool neg = d[0] == '-';
            if (neg) d = d.substr(1);
            auto p = d.find('.');
            std::string ip = d.substr(0, p), fpn = p == std::string::npos ? "" : d.substr(p + 1);
            boost::multiprecision::cpp_int nn((ip + fpn).c_str()), dd = 1;
            for (size_t i = 0; i < fpn.size(); i++) dd *= 10;
            Rat r(nn, dd);
            model->rl[sy] = neg ? Rat(-r) : r;
          } catch (...) {
            model->rl[sy] = 0;
          }
        }
      } else if (w == 1) {
        z3::expr v = m.eval(ctx.bool_const(n.c_str()), true);
        model->bv[sy] = v.is_true();
      } else {
        z3::expr v = m.eval(ctx.bv_const(n.c_str(), w), true);
        boost::multiprecision::cpp_int ci(Z3_get_numeral_string(ctx, v));
        model->bv[sy] = (u128)ci;
      }
    }
  };
  z3::expr_vector sqrtApp(ctx);
  auto addAll = [&](z3::solver& s) {
    for (E c : cs) s.add(t.tr(c));
    if (real) {
      std::set<E> seen;
      std::vector<E> u;
      for (E c : cs) collectRUF(c, seen, u);
      for (E x : u) {
        const std::string& n = ufName(x->aux);
        z3::expr r = t.tr(x);
        if (n == "r_sqrt") {
          sqrtApp.push_back(r);
          z3::expr a = t.tr(x->k[0]);
          s.add(z3::implies(a >= 0, r >= 0 && r * r == a));
        } else if (n == "r_exp") {
          s.add(r > 0);
        } else if (n == "r_fmod") {
          // r = a - b*k for a whole k, |r| < |b|, r has the sign of a
          z3::expr a = t.tr(x->k[0]), b = t.tr(x->k[1]);
          z3::expr k = ctx.int_const(("fmodk!" + std::to_string(x->id)).c_str());
          z3::expr ab = z3::ite(b >= 0, b, -b);
          s.add(z3::implies(b != 0, r == a - b * z3::expr(ctx, Z3_mk_int2real(ctx, k)) && r < ab && r > -ab && z3::implies(a >= 0, r >= 0) && z3::implies(a <= 0, r <= 0)));
        } else if (n == "r_sin" || n == "r_cos") {
          E o = mkRUF(n == "r_sin" ? "cos" : "sin", {x->k[0]});
          if (o->op == Op::RUF && seen.count(o)) {
            z3::expr q = t.tr(o);
            s.add(r * r + q * q == 1);
          } else {
            s.add(r <= 1 && r >= -1);
          }
        }
      }
    }
  };
  if (!real && !fpx && !uf) {
    if (!inc) {
      inc = new z3::solver(ctx, z3::solver::simple());
    }
    unsigned quick = std::min(g_solverTimeoutMs, 600u);
    z3::params p(ctx);
    p.set("timeout", quick);
    inc->set(p);
    inc->push();
    addAll(*inc);
    z3::check_result r = inc->check();
    if (r == z3::sat) { res = Res::Sat; extract(*inc); }
    else if (r == z3::unsat) res = Res::Unsat;
    inc->pop();
  }
  if (res == Res::Unknown) {
    const char* tac = real ? nullptr : uf ? nullptr : fpx ? "qffp" : "qfbv";
    try {
      z3::solver s = tac ? z3::tactic(ctx, tac).mk_solver() : z3::solver(ctx);
      z3::params p(ctx);
      p.set("timeout", g_solverTimeoutMs);
      s.set(p);
      addAll(s);
      z3::check_result r = s.check();
      if (r == z3::sat && sqrtApp.size()) {
        // nonlinear arithmetic with functions is not decided reliably: a square root is determined by its
        // defining equations, so ask again with unknown numbers in its place
        z3::solver s2(ctx);
        s2.set(p);
        z3::expr_vector to(ctx);
        for (unsigned i = 0; i < sqrtApp.size(); ++i) to.push_back(ctx.real_const(("sqrt!" + std::to_string(i)).c_str()));
        z3::expr_vector as = s.assertions();
        for (unsigned i = 0; i < as.size(); ++i) s2.add(as[i].substitute(sqrtApp, to));
        r = s2.check();
        if (r == z3::sat) { res = Res::Sat; extract(s2); }
        else if (r == z3::unsat) res = Res::Unsat;
      } else if (r == z3::sat) { res = Res::Sat; extract(s); }
      else if (r == z3::unsat) res = Res::Unsat;
    } catch (z3::exception& ex) {
      std::cerr << "z3 exception: " << ex.msg() << "\n";
      res = Res::Unknown;
    }
  }
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  g_stats.time += dt;
  static const char* slow = getenv("SX_SLOW");
  if (slow && dt > atof(slow)) {
    std::cerr << "SLOW " << dt << "s n=" << cs.size() << "\n";
    for (E c : cs) std::cerr << "   " << toStr(c, 12).substr(0, 300) << "\n";
  }
  g_stats.maxTime = std::max(g_stats.maxTime, dt);
  g_stats.queries++;
  if (res == Res::Sat) g_stats.sat++;
  else if (res == Res::Unsat) g_stats.unsat++;
  else g_stats.unknown++;
  return res;
}

static void flatten(E c, std::vector<E>& out) {
  if (c->op == Op::And && c->width == 1) {
    flatten(c->k[0], out);
    flatten(c->k[1], out);
  } else
    out.push_back(c);
}

Res querySat(const std::vector<E>& pc, E cond, Assign* model) {
  if (cond->op == Op::Const && cond->c == 0) return Res::Unsat;
  // slice
  std::vector<E> cs;
  flatten(cond, cs);
  std::set<uint32_t> syms;
  for (E c : cs) syms.insert(symsOf(c).begin(), symsOf(c).end());
  std::vector<char> in(pc.size(), 0);
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < pc.size(); i++) {
      if (in[i]) continue;
      const auto& sv = symsOf(pc[i]);
      bool hit = sv.empty();
      for (auto s : sv)
        if (syms.count(s)) { hit = true; break; }
      if (hit) {
        in[i] = 1;
        cs.push_back(pc[i]);
        for (auto s : sv)
          if (syms.insert(s).second) ch = true;
      }
    }
  }
  std::vector<uint32_t> key;
  for (E c : cs) key.push_back(c->id);
  std::sort(key.begin(), key.end());
  key.erase(std::unique(key.begin(), key.end()), key.end());
  auto it = g_cache.find(key);
  if (it == g_cache.end()) {
    std::vector<uint32_t> sv(syms.begin(), syms.end());
    Assign m;
    Res r = solveZ3(cs, &m, sv);
    it = g_cache.emplace(key, std::make_pair(r, m)).first;
  } else
    g_stats.cacheHits++;
  if (it->second.first == Res::Sat && model) {
    for (auto& p : it->second.second.bv) model->bv[p.first] = p.second;
    for (auto& p : it->second.second.rl) model->rl[p.first] = p.second;
  }
  return it->second.first;
}
