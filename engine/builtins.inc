// Included by exec.cc: intrinsics, harness API and runtime models.
typedef std::function<bool(State&, CallBase*, std::vector<Reg>&, Reg&)> BFn;
struct Builtin {
  BFn fn;
  bool force = false;
};
static std::unordered_map<std::string, Builtin> g_builtins;

static void unwind(State& s, u64 exn, u64 ti);
static void afterCall(State& s, const Reg& ret);
static void popFrame(State& s);

// ---- type info
static std::map<u64, int64_t> g_typeIds;
static int64_t typeId(u64 ti) {
  auto it = g_typeIds.find(ti);
  if (it != g_typeIds.end()) return it->second;
  int64_t v = (int64_t)g_typeIds.size() + 1;
  return g_typeIds[ti] = v;
}
static std::string tiName(u64 ti) {
  auto it = g_gname.find(ti);
  if (it == g_gname.end()) return "?";
  int st;
  std::string n = it->second;
  if (n.rfind("_ZTI", 0) == 0) n = "_ZTS" + n.substr(4);
  char* d = abi::__cxa_demangle(n.c_str(), nullptr, nullptr, &st);
  std::string r = d ? d : n;
  free(d);
  auto p = r.find("typeinfo name for ");
  if (p == 0) r = r.substr(18);
  return r;
}
static u64 rdG(u64 a) {
  State dummy;
  const ObjP* o = findObj(dummy, a);
  if (!o || a + 8 > (*o)->base + (*o)->size) return 0;
  u64 v;
  memcpy(&v, (*o)->d.data() + (a - (*o)->base), 8);
  return v;
}
// bases of a class typeinfo: (typeinfo, offset)
static std::vector<std::pair<u64, int64_t>> tiBases(u64 ti) {
  std::vector<std::pair<u64, int64_t>> r;
  u64 vt = rdG(ti);
  if (!vt) return r;
  auto it = g_gname.upper_bound(vt);
  if (it == g_gname.begin()) return r;
  --it;
  const std::string& n = it->second;
  if (n.find("__si_class_type_info") != std::string::npos) r.push_back({rdG(ti + 16), 0});
  else if (n.find("__vmi_class_type_info") != std::string::npos) {
    u64 w = rdG(ti + 16);
    unsigned cnt = (unsigned)(w >> 32);
    for (unsigned i = 0; i < cnt; i++) {
      u64 b = rdG(ti + 24 + 16 * i), f = rdG(ti + 32 + 16 * i);
      r.push_back({b, (int64_t)f >> 8});
    }
  }
  return r;
}
static bool tiDerives(State&, u64 ti, u64 base) {
  if (ti == base) return true;
  for (auto& b : tiBases(ti)) {
    State d;
    if (tiDerives(d, b.first, base)) return true;
  }
  return false;
}
static bool tiOffset(u64 ti, u64 base, int64_t& off) {
  if (ti == base) { off = 0; return true; }
  for (auto& b : tiBases(ti)) {
    int64_t o;
    if (tiOffset(b.first, base, o)) { off = o + b.second; return true; }
  }
  return false;
}

static std::string cstr(State& s, const Reg& p) {
  std::string r;
  u64 a = concretize(s, p, 64);
  for (;;) {
    Loc l = resolve(s, Reg(a), 1, false);
    E e = readMem(s, l, 1);
    if (e->op != Op::Const) return r + "?";
    if (!e->c) return r;
    r += (char)e->c;
    a++;
  }
}
static E rdByte(State& s, const Reg& p, u64 off) {
  Reg a = addOff(p, off);
  Loc l = resolve(s, a, 1, false);
  return readMem(s, l, 1);
}
static E dconst(double v) { u64 b; memcpy(&b, &v, 8); return mkConst(b, 64); }

static E rabs(E x) { return mkIte(mkRBin(Op::RLt, x, mkRConst(Rat(0))), mkRNeg(x), x); }
static Reg fabsR(const Reg& a, Type* t) {
  if (g_real) {
    if (special(a.e, "NAN") || special(a.e, "INF")) return a;
    if (special(a.e, "NEGINF")) return RE(mkRUF("INF", {}));
    return RE(rabs(a.e));
  }
  unsigned w = tw(t);
  return R(mkBin(Op::And, X(a, w), mkConst(maskw(w - 1), w)));
}
static Reg roundR(Op op, const Reg& a, Type* t) {
  if (g_real) {
    E x = a.e;
    E half = mkRConst(Rat(1, 2));
    auto fl = [](E q) { return mkRUn(Op::RFloor, q, 0); };
    switch (op) {
      case Op::FFloor: return RE(fl(x));
      case Op::FCeil: return RE(mkRNeg(fl(mkRNeg(x))));
      case Op::FTruncI: return RE(mkIte(mkRBin(Op::RLt, x, mkRConst(Rat(0))), mkRNeg(fl(mkRNeg(x))), fl(x)));
      default:
        return RE(mkIte(mkRBin(Op::RLt, x, mkRConst(Rat(0))), mkRNeg(fl(mkRBin(Op::RAdd, mkRNeg(x), half))), fl(mkRBin(Op::RAdd, x, half))));
    }
  }
  unsigned w = tw(t);
  return R(mkFUn(op, X(a, w), w));
}
static Reg minmaxR(bool mx, const Reg& a, const Reg& b, Type* t) {
  // fmin/fmax semantics: NaN operands are ignored
  if (g_real) {
    Reg c = fcmp(CmpInst::FCMP_OLT, a, b, t);
    return mx ? select(c, b, a, t) : select(c, a, b, t);
  }
  Reg c = fcmp(CmpInst::FCMP_OLT, a, b, t);
  Reg r = mx ? select(c, b, a, t) : select(c, a, b, t);
  Reg na = fcmp(CmpInst::FCMP_UNO, a, a, t), nb = fcmp(CmpInst::FCMP_UNO, b, b, t);
  r = select(nb, a, r, t);
  return select(na, b, r, t);
}
static Reg math1(const std::string& n, const Reg& a, Type* t, double (*fd)(double), float (*ff)(float)) {
  if (g_real) {
    if (anySpecial(a.e)) return RE(mkRUF("NAN", {}));
    return RE(mkRUF(n, {a.e}));
  }
  unsigned w = tw(t);
  E x = X(a, w);
  if (x->op == Op::Const) {
    if (w == 64) { u64 b = (u64)x->c; double d; memcpy(&d, &b, 8); d = fd(d); memcpy(&b, &d, 8); return Reg(b); }
    uint32_t b = (uint32_t)x->c; float d; memcpy(&d, &b, 4); d = ff(d); memcpy(&b, &d, 4); return Reg(b);
  }
  return R(mkUF(n, {x}, w));
}
static Reg math2(const std::string& n, const Reg& a, const Reg& b, Type* t, double (*fd)(double, double), float (*ff)(float, float)) {
  if (g_real) {
    if (n == "pow" && b.e->op == Op::RConst && denominator(ratOf(b.e)) == 1 && ratOf(b.e) >= 0 && ratOf(b.e) <= 8) {
      E r = mkRConst(Rat(1));
      for (int i = 0; i < ratOf(b.e).convert_to<int>(); i++) r = mkRBin(Op::RMul, r, a.e);
      return RE(r);
    }
    return RE(mkRUF(n, {a.e, b.e}));
  }
  unsigned w = tw(t);
  E x = X(a, w), y = X(b, w);
  if (x->op == Op::Const && y->op == Op::Const) {
    if (w == 64) { u64 p = (u64)x->c, q = (u64)y->c; double d, e; memcpy(&d, &p, 8); memcpy(&e, &q, 8); d = fd(d, e); memcpy(&p, &d, 8); return Reg(p); }
    uint32_t p = (uint32_t)x->c, q = (uint32_t)y->c; float d, e; memcpy(&d, &p, 4); memcpy(&e, &q, 4); d = ff(d, e); memcpy(&p, &d, 4); return Reg(p);
  }
  return R(mkUF(n, {x, y}, w));
}
static Reg ovf(Intrinsic::ID id, const Reg& a, const Reg& b, unsigned w) {
  E x = X(a, w), y = X(b, w);
  E r, o;
  E zero = mkConst(0, w);
  switch (id) {
    case Intrinsic::uadd_with_overflow: r = mkBin(Op::Add, x, y); o = mkCmp(Op::Ult, r, x); break;
    case Intrinsic::usub_with_overflow: r = mkBin(Op::Sub, x, y); o = mkCmp(Op::Ult, x, y); break;
    case Intrinsic::sadd_with_overflow: {
      r = mkBin(Op::Add, x, y);
      E sx = mkSExt(x, w + 1), sy = mkSExt(y, w + 1);
      o = mkNot(mkCmp(Op::Eq, mkBin(Op::Add, sx, sy), mkSExt(r, w + 1)));
      break;
    }
    case Intrinsic::ssub_with_overflow: {
      r = mkBin(Op::Sub, x, y);
      E sx = mkSExt(x, w + 1), sy = mkSExt(y, w + 1);
      o = mkNot(mkCmp(Op::Eq, mkBin(Op::Sub, sx, sy), mkSExt(r, w + 1)));
      break;
    }
    case Intrinsic::umul_with_overflow: {
      r = mkBin(Op::Mul, x, y);
      if (y->op == Op::Const && y->c) o = mkCmp(Op::Ult, mkConst(maskw(w) / y->c, w), x);
      else if (x->op == Op::Const && x->c) o = mkCmp(Op::Ult, mkConst(maskw(w) / x->c, w), y);
      else { E p = mkBin(Op::Mul, mkZExt(x, 2 * w), mkZExt(y, 2 * w)); o = mkNot(mkCmp(Op::Eq, mkExtract(p, w, w), zero)); }
      break;
    }
    case Intrinsic::smul_with_overflow: {
      r = mkBin(Op::Mul, x, y);
      E p = mkBin(Op::Mul, mkSExt(x, 2 * w), mkSExt(y, 2 * w));
      o = mkNot(mkCmp(Op::Eq, p, mkSExt(r, 2 * w)));
      break;
    }
    default: unsupported("ovf");
  }
  return AGG({R(r), R(o)});
}
static Reg fpclass(const Reg& a, Type* t, unsigned mask) {
  if (g_real) {
    if (special(a.e, "NAN")) return Reg((mask & 3) != 0);
    if (special(a.e, "INF")) return Reg((mask & 0x200) != 0);
    if (special(a.e, "NEGINF")) return Reg((mask & 4) != 0);
    if ((mask & 0x1f8) == 0) return Reg(0);
    if ((mask & 0x1f8) == 0x1f8) return Reg(1);
    unsupported("is.fpclass in real mode");
  }
  unsigned w = tw(t), mant = w == 64 ? 52 : 23, ex = w == 64 ? 11 : 8;
  E x = X(a, w);
  E sgn = mkExtract(x, w - 1, 1), e = mkExtract(x, mant, ex), m = mkExtract(x, 0, mant);
  E emax = mkCmp(Op::Eq, e, mkConst(maskw(ex), ex)), e0 = mkCmp(Op::Eq, e, mkConst(0, ex));
  E m0 = mkCmp(Op::Eq, m, mkConst(0, mant));
  E q = mkExtract(x, mant - 1, 1);
  E r = mkConst(0, 1);
  auto add = [&](unsigned bit, E c) { if (mask & bit) r = mkOr(r, c); };
  E nan = mkAnd(emax, mkNot(m0));
  add(1, mkAnd(nan, mkNot(q)));
  add(2, mkAnd(nan, q));
  E neg = sgn, pos = mkNot(sgn);
  add(4, mkAnd(neg, mkAnd(emax, m0)));
  add(0x200, mkAnd(pos, mkAnd(emax, m0)));
  E norm = mkAnd(mkNot(emax), mkNot(e0));
  add(8, mkAnd(neg, norm));
  add(0x100, mkAnd(pos, norm));
  E sub = mkAnd(e0, mkNot(m0));
  add(0x10, mkAnd(neg, sub));
  add(0x80, mkAnd(pos, sub));
  add(0x20, mkAnd(neg, mkAnd(e0, m0)));
  add(0x40, mkAnd(pos, mkAnd(e0, m0)));
  return R(r);
}

static void doMemset(State& s, const Reg& dst, const Reg& val, u64 n) {
  if (!n) return;
  Loc l = resolve(s, dst, n, true);
  if (l.sym) { l.off = concretize(s, R(l.offE), 64); l.sym = false; }
  E v = X(val, 8);
  Object* o = writable(s, l.base);
  for (u64 i = 0; i < n; i++) writeCells(o, l.off + i, v, 1);
}

static Reg mapVec(const Reg& a, Type* t, const std::function<Reg(const Reg&, Type*)>& f) {
  if (!a.a) return f(a, t);
  std::vector<Reg> v;
  Type* et = cast<VectorType>(t)->getElementType();
  for (auto& x : *a.a) v.push_back(f(x, et));
  return AGG(std::move(v));
}
static Reg mapVec2(const Reg& a, const Reg& b, Type* t, const std::function<Reg(const Reg&, const Reg&, Type*)>& f) {
  if (!a.a) return f(a, b, t);
  std::vector<Reg> v;
  Type* et = cast<VectorType>(t)->getElementType();
  for (size_t i = 0; i < a.a->size(); i++) v.push_back(f((*a.a)[i], (*b.a)[i], et));
  return AGG(std::move(v));
}

static bool intrinsic(State& s, DInst& d, CallBase* cb, Function* F, std::vector<Reg>& a, Reg& ret) {
  Type* t = cb->getType();
  auto id = F->getIntrinsicID();
  switch (id) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
      u64 n = concretize(s, a[2], tw(cb->getArgOperand(2)->getType()));
      copyBytes(s, a[0], a[1], n);
      return true;
    }
    case Intrinsic::memset: case Intrinsic::memset_inline: {
      u64 n = concretize(s, a[2], tw(cb->getArgOperand(2)->getType()));
      doMemset(s, a[0], a[1], n);
      return true;
    }
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end:
    case Intrinsic::dbg_value: case Intrinsic::dbg_declare: case Intrinsic::dbg_label:
    case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::sideeffect:
    case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch:
    case Intrinsic::invariant_end: case Intrinsic::stackrestore: case Intrinsic::var_annotation:
      return true;
    case Intrinsic::invariant_start: case Intrinsic::stacksave: ret = Reg(0); return true;
    case Intrinsic::expect: case Intrinsic::expect_with_probability:
    case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group:
    case Intrinsic::threadlocal_address: case Intrinsic::ssa_copy:
      ret = a[0];
      return true;
    case Intrinsic::is_constant: ret = Reg(0); return true;
    case Intrinsic::objectsize: ret = Reg((*cast<ConstantInt>(cb->getArgOperand(1))).isOne() ? 0 : ~0ull); return true;
    case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::umax: case Intrinsic::umin:
      ret = mapVec2(a[0], a[1], t, [&](const Reg& x, const Reg& y, Type* et) {
        unsigned w = tw(et);
        CmpInst::Predicate p = id == Intrinsic::smax ? CmpInst::ICMP_SGT : id == Intrinsic::smin ? CmpInst::ICMP_SLT
                             : id == Intrinsic::umax ? CmpInst::ICMP_UGT : CmpInst::ICMP_ULT;
        return select(icmp(p, x, y, w), x, y, et);
      });
      return true;
    case Intrinsic::abs:
      ret = mapVec(a[0], t, [&](const Reg& x, Type* et) {
        unsigned w = tw(et);
        return select(icmp(CmpInst::ICMP_SLT, x, Reg(0), w), binop(Instruction::Sub, Reg(0), x, w), x, et);
      });
      return true;
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow:
    case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow:
    case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow:
      ret = ovf(id, a[0], a[1], tw(cb->getArgOperand(0)->getType()));
      return true;
    case Intrinsic::usub_sat: case Intrinsic::uadd_sat:
      ret = mapVec2(a[0], a[1], t, [&](const Reg& x, const Reg& y, Type* et) {
        unsigned w = tw(et);
        if (id == Intrinsic::usub_sat)
          return select(icmp(CmpInst::ICMP_ULT, x, y, w), Reg(0), binop(Instruction::Sub, x, y, w), et);
        Reg sum = binop(Instruction::Add, x, y, w);
        return select(icmp(CmpInst::ICMP_ULT, sum, x, w), R(mkConst(maskw(w), w)), sum, et);
      });
      return true;
    case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz:
      ret = mapVec(a[0], t, [&](const Reg& r, Type* et) {
        unsigned w = tw(et);
        E x = X(r, w);
        E res;
        if (id == Intrinsic::ctpop) {
          res = mkConst(0, w);
          for (unsigned i = 0; i < w; i++) res = mkBin(Op::Add, res, mkZExt(mkExtract(x, i, 1), w));
        } else if (id == Intrinsic::ctlz) {
          res = mkConst(w, w);
          for (unsigned i = 0; i < w; i++) res = mkIte(mkExtract(x, i, 1), mkConst(w - 1 - i, w), res);
        } else {
          res = mkConst(w, w);
          for (int i = w - 1; i >= 0; i--) res = mkIte(mkExtract(x, i, 1), mkConst(i, w), res);
        }
        return R(res);
      });
      return true;
    case Intrinsic::bswap:
      ret = mapVec(a[0], t, [&](const Reg& r, Type* et) {
        unsigned w = tw(et);
        E x = X(r, w), o = nullptr;
        for (unsigned i = 0; i < w / 8; i++) {
          E b = mkExtract(x, i * 8, 8);
          o = o ? mkConcat(o, b) : b;
        }
        return R(o);
      });
      return true;
    case Intrinsic::bitreverse: {
      unsigned w = tw(t);
      E x = X(a[0], w), o = nullptr;
      for (unsigned i = 0; i < w; i++) { E b = mkExtract(x, i, 1); o = o ? mkConcat(o, b) : b; }
      ret = R(o);
      return true;
    }
    case Intrinsic::fshl: case Intrinsic::fshr: {
      unsigned w = tw(t);
      u64 k = concretize(s, a[2], w) % w;
      if (id == Intrinsic::fshr) k = (w - k) % w;
      E x = X(a[0], w), y = X(a[1], w);
      if (id == Intrinsic::fshr && k == 0) { ret = a[1]; return true; }
      if (k == 0) { ret = a[0]; return true; }
      ret = R(mkConcat(mkExtract(x, 0, w - k), mkExtract(y, w - k, k)));
      return true;
    }
    case Intrinsic::fabs: ret = mapVec(a[0], t, fabsR); return true;
    case Intrinsic::sqrt:
      ret = mapVec(a[0], t, [&](const Reg& x, Type* et) {
        if (g_real) return math1("sqrt", x, et, nullptr, nullptr);
        return R(mkFUn(Op::FSqrt, X(x, tw(et)), tw(et)));
      });
      return true;
    case Intrinsic::floor: ret = mapVec(a[0], t, [](const Reg& x, Type* e) { return roundR(Op::FFloor, x, e); }); return true;
    case Intrinsic::ceil: ret = mapVec(a[0], t, [](const Reg& x, Type* e) { return roundR(Op::FCeil, x, e); }); return true;
    case Intrinsic::trunc: ret = mapVec(a[0], t, [](const Reg& x, Type* e) { return roundR(Op::FTruncI, x, e); }); return true;
    case Intrinsic::rint: case Intrinsic::nearbyint: ret = roundR(Op::FRint, a[0], t); return true;
    case Intrinsic::round: ret = roundR(Op::FRoundA, a[0], t); return true;
    case Intrinsic::copysign: {
      if (g_real) {
        E ab = rabs(a[0].e);
        ret = RE(mkIte(mkRBin(Op::RLt, a[1].e, mkRConst(Rat(0))), mkRNeg(ab), ab));
        return true;
      }
      unsigned w = tw(t);
      ret = R(mkConcat(mkExtract(X(a[1], w), w - 1, 1), mkExtract(X(a[0], w), 0, w - 1)));
      return true;
    }
    case Intrinsic::fma: case Intrinsic::fmuladd:
      if (g_real) ret = RE(mkRBin(Op::RAdd, mkRBin(Op::RMul, a[0].e, a[1].e), a[2].e));
      else if (id == Intrinsic::fma) ret = R(mkFFma(X(a[0], tw(t)), X(a[1], tw(t)), X(a[2], tw(t))));
      else ret = R(mkFBin(Op::FAdd, mkFBin(Op::FMul, X(a[0], tw(t)), X(a[1], tw(t))), X(a[2], tw(t))));
      return true;
    case Intrinsic::minnum: ret = mapVec2(a[0], a[1], t, [](const Reg& x, const Reg& y, Type* e) { return minmaxR(false, x, y, e); }); return true;
    case Intrinsic::maxnum: ret = mapVec2(a[0], a[1], t, [](const Reg& x, const Reg& y, Type* e) { return minmaxR(true, x, y, e); }); return true;
    case Intrinsic::is_fpclass: ret = fpclass(a[0], cb->getArgOperand(0)->getType(), cast<ConstantInt>(cb->getArgOperand(1))->getZExtValue()); return true;
    case Intrinsic::sin: ret = math1("sin", a[0], t, ::sin, ::sinf); return true;
    case Intrinsic::cos: ret = math1("cos", a[0], t, ::cos, ::cosf); return true;
    case Intrinsic::exp: ret = math1("exp", a[0], t, ::exp, ::expf); return true;
    case Intrinsic::exp2: ret = math1("exp2", a[0], t, ::exp2, ::exp2f); return true;
    case Intrinsic::log: ret = math1("log", a[0], t, ::log, ::logf); return true;
    case Intrinsic::log10: ret = math1("log10", a[0], t, ::log10, ::log10f); return true;
    case Intrinsic::log2: ret = math1("log2", a[0], t, ::log2, ::log2f); return true;
    case Intrinsic::pow: ret = math2("pow", a[0], a[1], t, ::pow, ::powf); return true;
    case Intrinsic::powi: {
      u64 n = concretize(s, a[1], 32);
      Reg r = a[0];
      if ((int32_t)n < 1 || n > 16) unsupported("powi exponent");
      for (u64 i = 1; i < n; i++) r = fbin(Instruction::FMul, r, a[0], t);
      ret = r;
      return true;
    }
    case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and:
    case Intrinsic::vector_reduce_xor: case Intrinsic::vector_reduce_mul: {
      unsigned w = tw(t);
      unsigned o = id == Intrinsic::vector_reduce_add ? Instruction::Add : id == Intrinsic::vector_reduce_or ? Instruction::Or
                 : id == Intrinsic::vector_reduce_and ? Instruction::And : id == Intrinsic::vector_reduce_mul ? Instruction::Mul : Instruction::Xor;
      Reg r = (*a[0].a)[0];
      for (size_t i = 1; i < a[0].a->size(); i++) r = binop(o, r, (*a[0].a)[i], w);
      ret = r;
      return true;
    }
    case Intrinsic::vector_reduce_fadd: {
      Reg r = a[0];
      for (auto& x : *a[1].a) r = fbin(Instruction::FAdd, r, x, t);
      ret = r;
      return true;
    }
    case Intrinsic::eh_typeid_for: ret = Reg((u64)typeId(a[0].c) & 0xffffffff); return true;
    case Intrinsic::trap: case Intrinsic::debugtrap: case Intrinsic::ubsantrap: {
      std::string k = "trap";
      if (id == Intrinsic::ubsantrap) k = "undefined behaviour (ubsan check " + std::to_string(a[0].c) + ")";
      report(s, s.model, "ub", k);
      throw KillPath{"trap"};
    }
    case Intrinsic::vaend: return true;
    case Intrinsic::vacopy: copyBytes(s, a[0], a[1], 24); return true;
    case Intrinsic::vastart: {
      // x86-64 va_list with every argument in the overflow area
      Frame& fr = s.st.back();
      u64 n = fr.varargs.size();
      u64 area = allocObj(s, n ? 8 * n : 8, "varargs", false);
      s.st.back().allocas.push_back(area);
      for (u64 i = 0; i < n; i++) {
        Type* vt = s.st.back().vaTypes[i];
        if (DL->getTypeAllocSize(vt) > 8) unsupported("wide variadic argument");
        store(s, Reg(area + 8 * i), s.st.back().varargs[i], vt);
      }
      auto& ctx = cb->getContext();
      store(s, a[0], Reg(48), Type::getInt32Ty(ctx));
      store(s, addOff(a[0], 4), Reg(304), Type::getInt32Ty(ctx));
      store(s, addOff(a[0], 8), Reg(area), Type::getInt64Ty(ctx));
      store(s, addOff(a[0], 16), Reg(area), Type::getInt64Ty(ctx));
      return true;
    }
    default: break;
  }
  unsupported("intrinsic " + F->getName().str());
}

static bool genericExternal(State& s, CallBase* cb, Function* F, std::vector<Reg>& a, Reg& ret) {
  // constructors/destructors of ios_base::Init and similar are not reachable
  // because of the shadow headers; nothing generic is modelled.
  return false;
}

static void checkAssert(State& s, E c, const std::string& msg) {
  g_assertsChecked++;
  if (c->op == Op::Const && c->c) { g_asserts[msg]++; return; }
  E nc = mkNot(c);
  Assign m;
  g_assertQueries++;
  Res r = feasible(s, nc, m, false);
  if (r == Res::Sat) {
    report(s, m, "assert", msg);
    Assign m2;
    if (feasible(s, c, m2) != Res::Sat) throw KillPath{"assert"};
    s.model = m2;
    addConstraint(s, c);
  } else if (r == Res::Unsat) {
    g_asserts[msg]++;
    // keep the model valid
  } else {
    // unknown already recorded as inconclusive
  }
}

static u64 doMalloc(State& s, const Reg& n, const char* kind = "heap") {
  u64 sz = concretize(s, n, 64);
  u64 a = allocObj(s, sz, kind, false);
  s.mem[a]->heap = true;
  return a;
}
static void doFree(State& s, const Reg& p) {
  u64 a = concretize(s, p, 64);
  if (!a) return;
  auto it = s.mem.find(a);
  if (it == s.mem.end() || !it->second->heap) {
    report(s, s.model, "memory", "invalid or double free");
    throw KillPath{"free"};
  }
  s.mem.erase(it);
}

static void registerBuiltins() {
  auto B = [&](const char* n, BFn f, bool force = false) { g_builtins[n] = {f, force}; };
  // ---- harness API
  B("sym_make", [](State& s, CallBase*, std::vector<Reg>& a, Reg&) {
    u64 n = concretize(s, a[1], 64);
    std::string nm = cstr(s, a[2]);
    SymInput in;
    in.name = nm;
    if (n) {
      Loc l = resolve(s, a[0], n, true);
      if (l.sym) unsupported("sym_make at symbolic address");
      // whole-word symbols for 1/2/4/8 byte buffers
      Object* o = writable(s, l.base);
      if (n == 1 || n == 2 || n == 4 || n == 8) {
        E e = mkSym(nm, n * 8);
        for (u64 i = 0; i < n; i++) in.bytes.push_back(mkExtract(e, i * 8, 8));
        writeCells(o, l.off, e, n);
      } else
        for (u64 i = 0; i < n; i++) {
          E e = mkSym(nm + "[" + std::to_string(i) + "]", 8);
          in.bytes.push_back(e);
          writeCells(o, l.off + i, e, 1);
        }
    }
    s.inputs.push_back(in);
    return true;
  });
  auto symf = [](unsigned w) {
    return [w](State& s, CallBase*, std::vector<Reg>& a, Reg& ret) {
      std::string nm = cstr(s, a[0]);
      SymInput in;
      in.name = nm;
      if (g_real) {
        E e = mkRSym(nm);
        in.real = true;
        in.rw = w;
        in.bytes.push_back(e);
        ret.e = e;
      } else {
        E e = mkSym(nm, w);
        for (unsigned i = 0; i < w / 8; i++) in.bytes.push_back(mkExtract(e, i * 8, 8));
        ret = R(e);
      }
      s.inputs.push_back(in);
      return true;
    };
  };
  B("sym_f64", symf(64));
  B("sym_f32", symf(32));
  B("sym_assume", [](State& s, CallBase*, std::vector<Reg>& a, Reg&) {
    if (a[0].conc()) { if (!(a[0].c & 1)) throw KillPath{"assume"}; return true; }
    assume(s, X(a[0], a[0].e->width));
    return true;
  });
  B("sym_assert", [](State& s, CallBase*, std::vector<Reg>& a, Reg&) {
    checkAssert(s, X(a[0], 1), cstr(s, a[1]));
    return true;
  });
  B("sym_reach", [](State& s, CallBase*, std::vector<Reg>& a, Reg&) {
    s.reach.push_back(cstr(s, a[0]));
    return true;
  });
  B("sym_fail", [](State& s, CallBase*, std::vector<Reg>& a, Reg&) -> bool {
    report(s, s.model, "assert", cstr(s, a[0]));
    throw KillPath{"fail"};
  });
  B("sym_prune", [](State&, CallBase*, std::vector<Reg>&, Reg&) -> bool { throw KillPath{"prune"}; });
  B("sym_concretize", [](State& s, CallBase*, std::vector<Reg>& a, Reg& r) {
    r = Reg(concretize(s, a[0], 64));
    return true;
  });
  B("sym_choose", [](State& s, CallBase* cb, std::vector<Reg>& a, Reg& r) {
    // fresh symbolic in [lo,hi], concretised by forking. The symbol must be
    // created once per dynamic occurrence although the instruction is
    // re-executed after a fork: remember it in the input list.
    Frame& f = s.st.back();
    int64_t lo = (int64_t)sxt(a[0].c, 32), hi = (int64_t)sxt(a[1].c, 32);
    std::string nm = cstr(s, a[2]);
    E e;
    if (f.exnTi == ~0ull - 1) {  // pending marker
      SymInput& in = s.inputs.back();
      e = in.bytes[0]->op == Op::Extract ? in.bytes[0]->k[0] : in.bytes[0];
    } else {
      e = mkSym(nm, 32);
      SymInput in;
      in.name = nm;
      for (unsigned i = 0; i < 4; i++) in.bytes.push_back(mkExtract(e, i * 8, 8));
      s.inputs.push_back(in);
      s.model.bv[e->aux] = (uint32_t)lo;
      addConstraint(s, mkAnd(mkCmp(Op::Sle, mkConst((u64)lo, 32), e), mkCmp(Op::Sle, e, mkConst((u64)hi, 32))));
      f.exnTi = ~0ull - 1;
    }
    u64 v = concretize(s, R(e), 32);
    s.st.back().exnTi = 0;
    r = Reg(v);
    return true;
  });
  B("sym_param", [](State& s, CallBase*, std::vector<Reg>& a, Reg& r) {
    u64 i = a[0].c;
    if (i >= g_params.size()) unsupported("missing param");
    r = Reg((u64)(uint32_t)(int32_t)g_params[i]);
    return true;
  });
  B("sym_is_symbolic", [](State&, CallBase*, std::vector<Reg>&, Reg& r) { r = Reg(1); return true; });
  B("sym_real_mode", [](State&, CallBase*, std::vector<Reg>&, Reg& r) { r = Reg(g_real); return true; });
  B("sym_close", [](State& s, CallBase*, std::vector<Reg>& a, Reg&) {
    E c;
    if (g_real) c = mkRBin(Op::REq, a[0].e, a[1].e);
    else {
      E x = X(a[0], 64), y = X(a[1], 64);
      c = mkOr(mkFBin(Op::FEq, x, y), mkAnd(mkFBin(Op::FUno, x, x), mkFBin(Op::FUno, y, y)));
    }
    checkAssert(s, c, cstr(s, a[2]));
    return true;
  });
  // bit-identical comparison of two doubles/floats without branching
  B("sym_and", [](State& s, CallBase*, std::vector<Reg>& a, Reg& r) { r = R(mkAnd(X(a[0], 1), X(a[1], 1))); return true; });
  B("sym_or", [](State& s, CallBase*, std::vector<Reg>& a, Reg& r) { r = R(mkOr(X(a[0], 1), X(a[1], 1))); return true; });
  B("sym_ite_u64", [](State& s, CallBase*, std::vector<Reg>& a, Reg& r) { r = R(mkIte(X(a[0], 1), X(a[1], 64), X(a[2], 64))); return true; });
  B("sym_log", [](State& s, CallBase*, std::vector<Reg>& a, Reg&) {
    std::cerr << "LOG " << cstr(s, a[0]) << " = " << (a[1].conc() ? std::to_string((int64_t)a[1].c) : toStr(X(a[1], 64), 10)) << "\n";
    return true;
  });
  // ---- allocation
  auto mal = [](State& s, CallBase*, std::vector<Reg>& a, Reg& r) { r = Reg(doMalloc(s, a[0])); return true; };
  for (const char* n : {"malloc", "_Znwm", "_Znam", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t", "_ZnwmSt11align_val_t", "_ZnamSt11align_val_t"}) B(n, mal);
  auto fr = [](State& s, CallBase*, std::vector<Reg>& a, Reg&) { doFree(s, a[0]); return true; };
  for (const char* n : {"free", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdaPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t"}) B(n, fr);
  B("calloc", [](State& s, CallBase*, std::vector<Reg>& a, Reg& r) {
    u64 n = concretize(s, a[0], 64) * concretize(s, a[1], 64);
    u64 p = allocObj(s, n, "heap", true);
    s.mem[p]->heap = true;
    r = Reg(p);
    return true;
  });
  B("aligned_alloc", [](State& s, CallBase*, std::vector<Reg>& a, Reg& r) { r = Reg(doMalloc(s, a[1])); return true; });
  B("posix_memalign", [](State& s, CallBase* cb, std::vector<Reg>& a, Reg& r) {
    u64 p = doMalloc(s, a[2]);
    Loc l = resolve(s, a[0], 8, true);
    writeMem(s, l, mkConst(p, 64), 8);
    r = Reg(0);
    return true;
  });
  B("realloc", [](State& s, CallBase*, std::vector<Reg>& a, Reg& r) {
    u64 o = concretize(s, a[0], 64), n = concretize(s, a[1], 64);
    u64 p = allocObj(s, n, "heap", false);
    s.mem[p]->heap = true;
    if (o) {
      u64 os = s.mem.at(o)->size;
      copyBytes(s, Reg(p), Reg(o), std::min(os, n));
      doFree(s, Reg(o));
    }
    r = Reg(p);
    return true;
  });
  // ---- memory functions
  auto mcpy = [](State& s, CallBase*, std::vector<Reg>& a, Reg& r) {
    u64 n = concretize(s, a[2], 64);
    copyBytes(s, a[0], a[1], n);
    r = a[0];
    return true;
  };
  B("memcpy", mcpy, true);
  B("memmove", mcpy, true);
  B("memset", [](State& s, CallBase*, std::vector<Reg>& a, Reg& r) {
    u64 n = concretize(s, a[2], 64);
    doMemset(s, a[0], R(mkExtract(X(a[1], 32), 0, 8)), n);
    r = a[0];
    return true;
  }, true);
  auto mcmp = [](State& s, CallBase*, std::vector<Reg>& a, Reg& r) {
    u64 n = concretize(s, a[2], 64);
    E res = mkConst(0, 32);
    for (int64_t i = (int64_t)n - 1; i >= 0; i--) {
      E x = rdByte(s, a[0], i), y = rdByte(s, a[1], i);
      res = mkIte(mkCmp(Op::Eq, x, y), res, mkBin(Op::Sub, mkZExt(x, 32), mkZExt(y, 32)));
    }
    r = R(res);
    return true;
  };
  B("memcmp", mcmp, true);
  B("bcmp", mcmp, true);
  // ---- abnormal termination
  for (const char* n : {"abort", "_ZSt9terminatev", "__clang_call_terminate", "__cxa_pure_virtual", "_ZSt10unexpectedv",
                        "__cxa_call_unexpected", "__stack_chk_fail", "_exit", "exit", "__cxa_throw_bad_array_new_length", "__cxa_call_terminate"}) {
    std::string nm = n;
    bool isx = nm == "exit" || nm == "_exit";
    B(n, [nm](State& s, CallBase*, std::vector<Reg>&, Reg&) -> bool {
      report(s, s.model, "terminate", nm + " called");
      throw KillPath{"terminate"};
    }, !isx);
  }
  B("__assert_fail", [](State& s, CallBase*, std::vector<Reg>& a, Reg&) -> bool {
    report(s, s.model, "terminate", "assertion failed: " + cstr(s, a[0]));
    throw KillPath{"terminate"};
  });
  B("_ZSt21__glibcxx_assert_failPKciS0_S0_", [](State& s, CallBase*, std::vector<Reg>& a, Reg&) -> bool {
    report(s, s.model, "terminate", "libstdc++ assertion failed: " + cstr(s, a[3]));
    throw KillPath{"terminate"};
  }, true);
  // ---- C++ runtime
  B("__cxa_allocate_exception", [](State& s, CallBase*, std::vector<Reg>& a, Reg& r) {
    u64 p = doMalloc(s, a[0], "exception");
    r = Reg(p);
    return true;
  });
  B("__cxa_free_exception", fr);
  B("__cxa_throw", [](State& s, CallBase*, std::vector<Reg>& a, Reg&) {
    u64 p = a[0].c, ti = concretize(s, a[1], 64);
    s.excs[p] = {ti, a[2].c, 0};
    unwind(s, p, ti);
    return false;
  });
  B("__cxa_begin_catch", [](State& s, CallBase*, std::vector<Reg>& a, Reg& r) {
    s.caught.push_back(a[0].c);
    r = a[0];
    return true;
  });
  B("__cxa_get_exception_ptr", [](State& s, CallBase*, std::vector<Reg>& a, Reg& r) { r = a[0]; return true; });
  B("__cxa_end_catch", [](State& s, CallBase*, std::vector<Reg>& a, Reg& r) {
    if (!s.caught.empty()) s.caught.pop_back();
    return true;
  });
  B("__cxa_rethrow", [](State& s, CallBase*, std::vector<Reg>& a, Reg& r) {
    if (s.caught.empty()) { report(s, s.model, "terminate", "rethrow without exception"); throw KillPath{"rethrow"}; }
    u64 p = s.caught.back();
    unwind(s, p, s.excs[p].ti);
    return false;
  });
  B("_ZSt18uncaught_exceptionv", [](State& s, CallBase*, std::vector<Reg>&, Reg& r) { r = Reg(0); return true; });
  B("_ZSt19uncaught_exceptionsv", [](State& s, CallBase*, std::vector<Reg>&, Reg& r) { r = Reg(0); return true; });
  auto zero = [](State& s, CallBase*, std::vector<Reg>&, Reg& r) { r = Reg(0); return true; };
  for (const char* n : {"__cxa_atexit", "atexit", "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_init", "pthread_mutex_destroy",
                        "__cxa_thread_atexit", "pthread_rwlock_rdlock", "pthread_rwlock_wrlock", "pthread_rwlock_unlock"}) B(n, zero);
  B("__cxa_guard_acquire", [](State& s, CallBase*, std::vector<Reg>& a, Reg& r) {
    Loc l = resolve(s, a[0], 1, true);
    E b = readMem(s, l, 1);
    r = Reg(b->op == Op::Const && b->c ? 0 : 1);
    return true;
  });
  B("__cxa_guard_release", [](State& s, CallBase*, std::vector<Reg>& a, Reg& r) {
    Loc l = resolve(s, a[0], 1, true);
    writeMem(s, l, mkConst(1, 8), 1);
    return true;
  });
  B("__cxa_guard_abort", zero);
  B("__dynamic_cast", [](State& s, CallBase*, std::vector<Reg>& a, Reg& r) {
    u64 p = concretize(s, a[0], 64);
    if (!p) { r = Reg(0); return true; }
    Loc l = resolve(s, Reg(p), 8, false);
    E vp = readMem(s, l, 8);
    u64 v = concretize(s, R(vp), 64);
    u64 ti = rdG(v - 8);
    int64_t ott = (int64_t)rdG(v - 16);
    int64_t off;
    if (tiOffset(ti, a[2].c, off)) r = Reg(p + ott + off);
    else r = Reg(0);
    return true;
  });
  // ---- libm
  auto m1 = [&](const char* n, double (*fd)(double), float (*ff)(float)) {
    std::string nm = n;
    B(n, [nm, fd, ff](State& s, CallBase* cb, std::vector<Reg>& a, Reg& r) { r = math1(nm, a[0], cb->getType(), fd, ff); return true; });
    g_builtins[nm + "f"] = {[nm, fd, ff](State& s, CallBase* cb, std::vector<Reg>& a, Reg& r) { r = math1(nm, a[0], cb->getType(), fd, ff); return true; }, false};
  };
  m1("sin", ::sin, ::sinf); m1("cos", ::cos, ::cosf); m1("tan", ::tan, ::tanf);
  m1("asin", ::asin, ::asinf); m1("acos", ::acos, ::acosf); m1("atan", ::atan, ::atanf);
  m1("exp", ::exp, ::expf); m1("log", ::log, ::logf); m1("log10", ::log10, ::log10f); m1("log2", ::log2, ::log2f);
  m1("sinh", ::sinh, ::sinhf); m1("cosh", ::cosh, ::coshf); m1("tanh", ::tanh, ::tanhf); m1("exp2", ::exp2, ::exp2f);
  m1("cbrt", ::cbrt, ::cbrtf);
  for (int fl = 0; fl < 2; fl++) {
    std::string sf = fl ? "f" : "";
    g_builtins["sqrt" + sf] = {[](State& s, CallBase* cb, std::vector<Reg>& a, Reg& r) {
      Type* t = cb->getType();
      r = g_real ? math1("sqrt", a[0], t, nullptr, nullptr) : R(mkFUn(Op::FSqrt, X(a[0], tw(t)), tw(t)));
      return true; }, false};
    struct RR { const char* n; Op op; };
    for (RR q : {RR{"floor", Op::FFloor}, RR{"ceil", Op::FCeil}, RR{"trunc", Op::FTruncI}, RR{"rint", Op::FRint}, RR{"nearbyint", Op::FRint}, RR{"round", Op::FRoundA}}) {
      Op op = q.op;
      g_builtins[q.n + sf] = {[op](State& s, CallBase* cb, std::vector<Reg>& a, Reg& r) { r = roundR(op, a[0], cb->getType()); return true; }, false};
    }
    g_builtins["fabs" + sf] = {[](State& s, CallBase* cb, std::vector<Reg>& a, Reg& r) { r = fabsR(a[0], cb->getType()); return true; }, false};
    struct M2 { const char* n; double (*d)(double, double); float (*f)(float, float); };
    for (M2 q : {M2{"pow", ::pow, ::powf}, M2{"atan2", ::atan2, ::atan2f}, M2{"fmod", ::fmod, ::fmodf}, M2{"hypot", ::hypot, ::hypotf}, M2{"remainder", ::remainder, ::remainderf}}) {
      std::string nm = q.n;
      auto fd = q.d; auto ff = q.f;
      g_builtins[nm + sf] = {[nm, fd, ff](State& s, CallBase* cb, std::vector<Reg>& a, Reg& r) {
        if (g_real && nm == "hypot") {
          r = math1("sqrt", RE(mkRBin(Op::RAdd, mkRBin(Op::RMul, a[0].e, a[0].e), mkRBin(Op::RMul, a[1].e, a[1].e))), cb->getType(), nullptr, nullptr);
          return true;
        }
        r = math2(nm, a[0], a[1], cb->getType(), fd, ff); return true; }, false};
    }
    g_builtins["fmin" + sf] = {[](State& s, CallBase* cb, std::vector<Reg>& a, Reg& r) { r = minmaxR(false, a[0], a[1], cb->getType()); return true; }, false};
    g_builtins["fmax" + sf] = {[](State& s, CallBase* cb, std::vector<Reg>& a, Reg& r) { r = minmaxR(true, a[0], a[1], cb->getType()); return true; }, false};
    g_builtins["sincos" + sf] = {[fl](State& s, CallBase* cb, std::vector<Reg>& a, Reg& r) {
      Type* t = cb->getArgOperand(0)->getType();
      store(s, a[1], math1("sin", a[0], t, ::sin, ::sinf), t);
      store(s, a[2], math1("cos", a[0], t, ::cos, ::cosf), t);
      return true; }, false};
    g_builtins["ldexp" + sf] = {[](State& s, CallBase* cb, std::vector<Reg>& a, Reg& r) {
      u64 n = concretize(s, a[1], 32);
      int e = (int)(int32_t)n;
      if (!a[0].conc()) unsupported("symbolic ldexp");
      double d; memcpy(&d, &a[0].c, 8); d = std::ldexp(d, e); u64 b; memcpy(&b, &d, 8); r = Reg(b);
      return true; }, false};
  }
  // host strtod on a fully concrete string (used by the model)
  B("sx_host_strtod", [](State& s, CallBase*, std::vector<Reg>& a, Reg& r) {
    std::string str = cstr(s, a[0]);
    double d = ::strtod(str.c_str(), nullptr);
    u64 b; memcpy(&b, &d, 8);
    r = g_real ? RE(mkRFromBits(mkConst(b, 64))) : Reg(b);
    return true;
  });
  // is this byte/word concrete in the engine?
  B("sx_is_concrete", [](State& s, CallBase*, std::vector<Reg>& a, Reg& r) { r = Reg(a[0].conc()); return true; });
  // format a concrete double with printf %.*g into buffer
  B("sx_host_fmt_double", [](State& s, CallBase*, std::vector<Reg>& a, Reg& r) {
    // (char* out, size_t cap, double v, int prec, int mode)
    double d;
    if (g_real) {
      if (a[2].e->op != Op::RConst) { // formatting of symbolic reals is an opaque text
        std::string t = "<sym>";
        for (size_t i = 0; i <= t.size(); i++) { Loc l = resolve(s, addOff(a[0], i), 1, true); writeMem(s, l, mkConst(i < t.size() ? t[i] : 0, 8), 1); }
        r = Reg(t.size());
        return true;
      }
      d = realApprox(ratOf(a[2].e));
    } else {
      if (!a[2].conc()) {
        std::string t = "<sym>";
        for (size_t i = 0; i <= t.size(); i++) { Loc l = resolve(s, addOff(a[0], i), 1, true); writeMem(s, l, mkConst(i < t.size() ? t[i] : 0, 8), 1); }
        r = Reg(t.size());
        return true;
      }
      memcpy(&d, &a[2].c, 8);
    }
    char buf[512];
    int prec = (int)(int32_t)a[3].c, mode = (int)a[4].c;
    int n = mode == 1 ? snprintf(buf, sizeof buf, "%.*f", prec, d) : mode == 2 ? snprintf(buf, sizeof buf, "%.*e", prec, d) : snprintf(buf, sizeof buf, "%.*g", prec, d);
    for (int i = 0; i <= n; i++) { Loc l = resolve(s, addOff(a[0], i), 1, true); writeMem(s, l, mkConst((uint8_t)buf[i], 8), 1); }
    r = Reg((u64)n);
    return true;
  });
}
