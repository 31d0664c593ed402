// Bounded symbolic executor for LLVM IR (clang 18) with Z3 as decision
// procedure. See DESIGN.md for the semantics and the trusted models.
#include "expr.h"
#include <cxxabi.h>
#include <chrono>
#include <cmath>
#include <csetjmp>
#include <cstring>
#include <bitset>
#include <deque>
#include <unordered_set>
#include <fstream>
#include <functional>
#include <iostream>
#include <sstream>
#include <llvm/ADT/DenseMap.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>

using namespace llvm;
typedef uint64_t u64;

static bool g_real = false;
static std::vector<long> g_params;
static u64 g_maxSteps = 2000000;       // per path
static double g_maxTime = 600;         // whole run
static u64 g_maxPaths = 2000000;
static int g_maxViol = 3;
static bool g_trace = false;
static std::string g_outDir;
static bool g_allowUB = false;
static bool g_forkSelect = false;

static double nowS() {
  return std::chrono::duration<double>(
             std::chrono::steady_clock::now().time_since_epoch())
      .count();
}

struct Reg {
  E e = nullptr;
  u64 c = 0;
  std::shared_ptr<std::vector<Reg>> a;
  Reg() {}
  Reg(u64 v) : c(v) {}
  bool conc() const { return !e && !a; }
};
static u64 m64(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static Reg R(E e) {
  Reg r;
  if (e->op == Op::Const && e->width <= 64)
    r.c = (u64)e->c;
  else
    r.e = e;
  return r;
}
static E X(const Reg& r, unsigned w) {
  if (r.a) unsupported("aggregate used as scalar");
  if (r.e) {
    if (r.e->width != w) {
      unsupported("register width mismatch: have " + std::to_string(r.e->width) +
                  " want " + std::to_string(w));
    }
    return r.e;
  }
  return mkConst(r.c, w);
}
static Reg AGG(std::vector<Reg> v) {
  Reg r;
  r.a = std::make_shared<std::vector<Reg>>(std::move(v));
  return r;
}

// ---------------------------------------------------------------- memory
static const E UNINIT = (E)1;
struct Cell {
  E e = nullptr;  // nullptr: concrete; UNINIT; else expression of idx-th byte
  uint32_t idx = 0;
};
struct Object {
  u64 base = 0, size = 0;
  std::vector<uint8_t> d;
  std::vector<Cell> s;  // empty: all concrete
  bool ro = false, heap = false, stack = false;
  const char* kind = "";
};
typedef std::shared_ptr<Object> ObjP;

static const u64 GLOBAL_LO = 0x100000000ull, GLOBAL_HI = 0x200000000ull;
static const u64 FUNC_LO = 0x10000000ull, FUNC_HI = 0x20000000ull;
static const u64 HEAP_LO = 0x1000000000ull;

static std::map<u64, ObjP> g_globals;  // pristine globals
static u64 g_nextGlobal = GLOBAL_LO;

struct DInst;
struct FnInfo {
  Function* F;
  unsigned nslots = 0;
  DenseMap<const Value*, unsigned> slot;
  std::vector<std::vector<DInst>> blocks;
  DenseMap<const BasicBlock*, unsigned> bidx;
  std::string name, demangled, file;
  u64 calls = 0;
};
struct Opnd {
  int slot = -1;
  Reg cst;
};
struct DInst {
  Instruction* I = nullptr;
  unsigned opc = 0;
  int dst = -1;
  Type* ty = nullptr;
  std::vector<Opnd> ops;
  // gep
  i128 goff = 0;
  std::vector<std::pair<unsigned, u64>> gidx;  // operand index, scale
  FnInfo* callee = nullptr;
};
struct Frame {
  FnInfo* fn;
  std::vector<Reg> regs;
  unsigned bb = 0, ii = 0;
  const BasicBlock* prev = nullptr;
  std::vector<u64> allocas;
  u64 exn = 0;
  int64_t sel = 0;
  u64 exnTi = 0;
  std::vector<Reg> varargs;
  u64 vaObj = 0;
  std::vector<Type*> vaTypes;
};
struct SymInput {
  std::string name;
  std::vector<E> bytes;  // little endian bytes; or one real
  bool real = false;
  unsigned rw = 64;
};
struct ExcInfo {
  u64 ti = 0, dtor = 0;
  int handlers = 0;
};
struct State {
  std::vector<Frame> st;
  std::map<u64, ObjP> mem;
  std::map<u64, ObjP> glob;  // overlay of modified globals
  std::vector<E> pc;
  std::unordered_map<E, u64> known;
  Assign model;
  std::unordered_map<uint32_t, std::bitset<256>> dom;  // byte symbols: values allowed by single-symbol constraints
  std::unordered_set<uint32_t> multi;                  // symbols that occur in multi-symbol constraints
  std::vector<SymInput> inputs;
  std::map<u64, ExcInfo> excs;
  std::vector<u64> caught;
  u64 nextAddr = HEAP_LO;
  u64 steps = 0;
  std::vector<std::string> reach;
  unsigned forks = 0;
  bool done = false;
};

struct KillPath { std::string why; };
struct ForkRetry {};  // state already updated; re-execute

static std::deque<State*> g_work;
static Module* M;
static const DataLayout* DL;
static std::unordered_map<const Function*, FnInfo*> g_fns;
static std::unordered_map<const GlobalValue*, u64> g_addr;
static std::unordered_map<u64, Function*> g_fnAt;
static std::map<u64, std::string> g_gname;

struct Violation {
  std::string kind, msg, loc;
};
static std::vector<Violation> g_viol;
static std::set<std::string> g_violKeys;
static std::map<std::string, u64> g_reach;
static std::map<std::string, u64> g_asserts;  // msg -> times discharged
static u64 g_paths = 0, g_pruned = 0, g_steps = 0, g_forks = 0, g_assertsChecked = 0;
static u64 g_assertQueries = 0, g_memChecks = 0;
static std::set<std::string> g_inconclusive;
static bool g_stop = false;

static std::string locOf(const State& s) {
  std::string out;
  int n = 0;
  for (int i = (int)s.st.size() - 1; i >= 0 && n < 6; i--) {
    const Frame& f = s.st[i];
    if (f.bb >= f.fn->blocks.size() || f.ii >= f.fn->blocks[f.bb].size()) continue;
    Instruction* I = f.fn->blocks[f.bb][f.ii].I;
    std::string fr = f.fn->demangled.substr(0, 90);
    if (auto dl = I->getDebugLoc()) {
      fr += "@" + dl->getFilename().str() + ":" + std::to_string(dl.getLine());
    }
    out += (n ? " < " : "") + fr;
    n++;
  }
  return out;
}

static int g_maxWitness = 0, g_nWitness = 0;
static std::set<std::string> g_lineFns;  // /repo functions encoded (incl. inlined)
static void dumpCE(const State& s, const Assign& m, const std::string& kind,
                   const std::string& msg, const std::string& loc) {
  std::string path = g_outDir + "/ce_" + std::to_string(g_viol.size()) + ".txt";
  if (kind == "witness") path = g_outDir + "/w_" + std::to_string(g_nWitness++) + ".txt";
  std::ofstream f(path);
  if (kind == "witness") for (auto& r : s.reach) f << "# reach " << r << "\n";
  f << "# kind: " << kind << "\n# msg: " << msg << "\n# loc: " << loc << "\n";
  for (long p : g_params) f << "param " << p << "\n";
  for (auto& in : s.inputs) {
    f << "in " << in.name << " ";
    if (in.real) {
      E e = in.bytes[0];
      auto it = m.rl.find(e->aux);
      double d = it == m.rl.end() ? 0.0 : realApprox(it->second);
      char buf[64];
      if (in.rw == 32) {
        float q = (float)d;
        uint32_t b;
        memcpy(&b, &q, 4);
        for (int i = 0; i < 4; i++) { snprintf(buf, 8, "%02x", (b >> (8 * i)) & 255); f << buf; }
      } else {
        u64 b;
        memcpy(&b, &d, 8);
        for (int i = 0; i < 8; i++) { snprintf(buf, 8, "%02x", (unsigned)((b >> (8 * i)) & 255)); f << buf; }
      }
      snprintf(buf, sizeof buf, " # %.17g", d);
      f << buf;
    } else {
      if (in.bytes.empty()) f << "-";
      for (E b : in.bytes) {
        auto v = evalBV(b, m);
        char buf[8];
        snprintf(buf, 8, "%02x", (unsigned)(v ? (u64)*v & 255 : 0));
        f << buf;
      }
    }
    f << "\n";
  }
}

static void report(State& s, const Assign& m, const std::string& kind,
                   const std::string& msg) {
  std::string loc = locOf(s);
  std::string key = kind + "|" + msg + "|" + loc;
  if (!g_violKeys.insert(key).second) return;
  dumpCE(s, m, kind, msg, loc);
  g_viol.push_back({kind, msg, loc});
  std::cerr << "COUNTEREXAMPLE kind=" << kind << " msg=" << msg << "\n  at " << loc << "\n";
  if ((int)g_viol.size() >= g_maxViol) g_stop = true;
}
static void inconclusive(State& s, const std::string& why) {
  std::string m = why + " at " + locOf(s);
  if (g_inconclusive.insert(m).second) std::cerr << "INCONCLUSIVE " << m << "\n";
}

// ---------------------------------------------------------------- constraints
// Truth table of a condition over one byte symbol (finite-domain fast path for
// branch feasibility; assertions always go to the SMT solver).
static std::unordered_map<E, std::bitset<256>> g_tables;
static u64 g_domDecided = 0;
static const std::bitset<256>* tableOf(E c, uint32_t& sym) {
  const auto& sv = symsOf(c);
  if (sv.size() != 1 || (sv[0] & 0x80000000u)) return nullptr;
  sym = sv[0];
  if (symWidth(sym) != 8) return nullptr;
  auto it = g_tables.find(c);
  if (it != g_tables.end()) return &it->second;
  std::bitset<256> b;
  for (unsigned v = 0; v < 256; v++) {
    Assign a;
    a.bv[sym] = v;
    auto r = evalBV(c, a);
    if (!r) return nullptr;
    b[v] = *r != 0;
  }
  return &(g_tables[c] = b);
}
static void domConstraint(State& s, E c) {
  if (c->op == Op::And && c->width == 1) { domConstraint(s, c->k[0]); domConstraint(s, c->k[1]); return; }
  uint32_t sym;
  if (auto* t = tableOf(c, sym)) {
    auto it = s.dom.find(sym);
    if (it == s.dom.end()) s.dom.emplace(sym, *t);
    else it->second &= *t;
  } else
    for (uint32_t x : symsOf(c)) s.multi.insert(x);
}
static void addConstraint(State& s, E c) {  // model must already satisfy
  domConstraint(s, c);
  if (c->op == Op::Const) return;
  s.pc.push_back(c);
  if (c->op == Op::Eq && c->k[1]->op == Op::Const && c->k[1]->width <= 64)
    s.known[c->k[0]] = (u64)c->k[1]->c;
  // conjunctions
  if (c->op == Op::And && c->width == 1) {
    for (E k : c->k)
      if (k->op == Op::Eq && k->k[1]->op == Op::Const && k->k[1]->width <= 64)
        s.known[k->k[0]] = (u64)k->k[1]->c;
  }
}
// returns feasibility of c; on Sat fills m with model
static Res feasible(State& s, E c, Assign& m, bool useDom = true) {
  if (c->op == Op::Const) {
    if (c->c) { m = s.model; return Res::Sat; }
    return Res::Unsat;
  }
  auto v = evalBV(c, s.model);
  if (v && *v) { m = s.model; return Res::Sat; }
  m = s.model;
  uint32_t sym;
  if (useDom)
    if (auto* t = tableOf(c, sym)) {
      std::bitset<256> b = *t;
      auto it = s.dom.find(sym);
      if (it != s.dom.end()) b &= it->second;
      if (b.none()) { g_domDecided++; return Res::Unsat; }
      if (!s.multi.count(sym)) {
        g_domDecided++;
        m.bv[sym] = b._Find_first();
        return Res::Sat;
      }
    }
  Res r = querySat(s.pc, c, &m);
  if (r == Res::Unknown) {
    if (getenv("SX_DUMP_UNKNOWN")) std::cerr << "UNKNOWN query: " << toStr(c, 8) << "\n";
    inconclusive(s, "solver unknown");
  }
  return r;
}
static void assume(State& s, E c) {
  Assign m;
  Res r = feasible(s, c, m);
  if (r != Res::Sat) throw KillPath{"assume"};
  s.model = std::move(m);
  addConstraint(s, c);
}
// Decide a condition in the current state: returns true/false; if both are
// possible, a copy with !c is queued (re-executing the current instruction) and
// true is returned.
static bool decide(State& s, E c) {
  if (c->op == Op::Const) return c->c != 0;
  Assign mt, mf;
  auto v = evalBV(c, s.model);
  Res rt, rf;
  E nc = mkNot(c);
  if (v) {
    rt = *v ? Res::Sat : feasible(s, c, mt);
    rf = !*v ? Res::Sat : feasible(s, nc, mf);
    if (*v) mt = s.model;
    else mf = s.model;
  } else {
    rt = feasible(s, c, mt);
    rf = feasible(s, nc, mf);
  }
  if (rt == Res::Sat && rf == Res::Sat) {
    State* n = new State(s);
    n->model = mf;
    addConstraint(*n, nc);
    g_work.push_back(n);
    g_forks++;
    s.forks++;
    s.model = mt;
    addConstraint(s, c);
    return true;
  }
  if (rt == Res::Sat) { s.model = mt; if (rf == Res::Unknown) addConstraint(s, c); return true; }
  if (rf == Res::Sat) { s.model = mf; if (rt == Res::Unknown) addConstraint(s, nc); return false; }
  throw KillPath{"infeasible"};
}
// some feasible value of e
static auto solveValue(State& s, E e, unsigned w) {
  auto v = evalBV(e, s.model);
  if (!v) {  // the model does not determine it (reals): have the solver give a value through a fresh symbol
    static int n = 0;
    E t = mkSym("value" + std::to_string(n++), w);
    Assign m;
    if (querySat(s.pc, mkCmp(Op::Eq, t, e), &m) == Res::Sat) v = evalBV(t, m);
  }
  return v;
}
static u64 concretize(State& s, const Reg& r, unsigned w) {
  if (r.conc()) return r.c;
  E e = X(r, w);
  auto it = s.known.find(e);
  if (it != s.known.end()) return it->second;
  auto v = solveValue(s, e, w);
  if (!v) {
    unsupported("cannot evaluate expression to concretise: " + toStr(e, 4));
  }
  u64 val = (u64)*v;
  decide(s, mkCmp(Op::Eq, e, mkConst(val, w)));
  s.known[e] = val;
  return val;
}

// ---------------------------------------------------------------- memory ops
static u64 allocObj(State& s, u64 size, const char* kind, bool init0) {
  if (size > (1u << 26)) throw KillPath{"huge allocation"};
  auto o = std::make_shared<Object>();
  o->size = size;
  o->base = s.nextAddr;
  s.nextAddr += ((size + 15) / 16) * 16 + 64;
  o->d.assign(size, 0);
  if (!init0) {
    o->s.resize(size);
    for (auto& c : o->s) c.e = UNINIT;
  }
  o->kind = kind;
  s.mem[o->base] = o;
  return o->base;
}
static const ObjP* findObj(const State& s, u64 a) {
  if (a >= GLOBAL_LO && a < GLOBAL_HI) {
    auto it = g_globals.upper_bound(a);
    if (it == g_globals.begin()) return nullptr;
    --it;
    if (a - it->second->base > it->second->size) return nullptr;
    auto g = s.glob.find(it->first);
    return g != s.glob.end() ? &g->second : &it->second;
  }
  auto it = s.mem.upper_bound(a);
  if (it == s.mem.begin()) return nullptr;
  --it;
  if (a - it->second->base > it->second->size) return nullptr;
  return &it->second;
}
static Object* writable(State& s, u64 base) {
  if (base >= GLOBAL_LO && base < GLOBAL_HI) {
    auto g = s.glob.find(base);
    if (g == s.glob.end()) {
      auto n = std::make_shared<Object>(*g_globals[base]);
      s.glob[base] = n;
      return n.get();
    }
    if (g->second.use_count() > 1) g->second = std::make_shared<Object>(*g->second);
    return g->second.get();
  }
  ObjP& p = s.mem[base];
  if (p.use_count() > 1) p = std::make_shared<Object>(*p);
  return p.get();
}
static E byteOf(E whole, unsigned idx) {
  if (whole->width == 8) return whole;
  return mkExtract(whole, idx * 8, 8);
}
static E readByte(State& s, u64 base, const Object* o, u64 off) {
  if (o->s.empty() || !o->s[off].e) return mkConst(o->d[off], 8);
  if (o->s[off].e == UNINIT) {
    Object* w = writable(s, base);
    w->s[off].e = mkSym("uninit", 8);
    w->s[off].idx = 0;
    return w->s[off].e;
  }
  return byteOf(o->s[off].e, o->s[off].idx);
}
static void writeCells(Object* o, u64 off, E e, unsigned nb) {
  if (e->op == Op::Const) {
    for (unsigned i = 0; i < nb; i++) {
      o->d[off + i] = (uint8_t)(e->c >> (8 * i));
      if (!o->s.empty()) o->s[off + i] = Cell();
    }
    return;
  }
  if (o->s.empty()) o->s.resize(o->size);
  for (unsigned i = 0; i < nb; i++) {
    o->s[off + i].e = e;
    o->s[off + i].idx = i;
  }
}
// Resolve an address for an access of n bytes: object base + offset expression
struct Loc {
  u64 base;
  bool sym;
  u64 off;
  E offE;
};
static std::string hexs(u64 a) {
  char b[32];
  snprintf(b, sizeof b, "0x%llx", (unsigned long long)a);
  return b;
}
static Loc resolve(State& s, const Reg& addr, u64 n, bool wr) {
  g_memChecks++;
  if (addr.conc()) {
    const ObjP* o = findObj(s, addr.c);
    if (!o || addr.c - (*o)->base + n > (*o)->size) {
      std::string what = addr.c < 4096 ? "null pointer" : "address outside any object";
      if (o) what = std::string("out of bounds of ") + (*o)->kind + " object of size " +
                    std::to_string((*o)->size) + " at offset " + std::to_string(addr.c - (*o)->base);
      report(s, s.model, "memory", std::string(wr ? "write " : "read ") + what);
      throw KillPath{"memory error"};
    }
    if (wr && (*o)->ro) {
      report(s, s.model, "memory", "write to constant object");
      throw KillPath{"memory error"};
    }
    return {(*o)->base, false, addr.c - (*o)->base, nullptr};
  }
  E e = X(addr, 64);
  auto kn = s.known.find(e);
  if (kn != s.known.end()) {
    Reg c(kn->second);
    return resolve(s, c, n, wr);
  }
  auto v = solveValue(s, e, 64);
  if (!v) unsupported("cannot evaluate address");
  u64 a = (u64)*v;
  const ObjP* o = findObj(s, a);
  if (!o || a - (*o)->base + n > (*o)->size) {
    // this model is out of bounds: report and steer to in-bounds if possible
    report(s, s.model, "memory", std::string(wr ? "write" : "read") + " through symbolic address out of bounds");
    throw KillPath{"memory error"};
  }
  u64 base = (*o)->base, size = (*o)->size;
  E in = mkCmp(Op::Ule, mkBin(Op::Sub, e, mkConst(base, 64)), mkConst(size - n, 64));
  decide(s, in);  // other objects are explored by the forked copy
  E off = mkBin(Op::Sub, e, mkConst(base, 64));
  if (off->op == Op::Const) return {base, false, (u64)off->c, nullptr};
  return {base, true, 0, off};
}
// stride detection: offset = k*stride + c
static u64 strideOf(E off, u64& c0) {
  c0 = 0;
  if (off->op == Op::Add && off->k[1]->op == Op::Const) {
    u64 cc = (u64)off->k[1]->c;
    u64 st = strideOf(off->k[0], c0);
    c0 += cc;
    return st;
  }
  if (off->op == Op::Mul && off->k[1]->op == Op::Const) {
    u64 c = (u64)off->k[1]->c;
    return c & -c;  // only the power-of-two part is wrap-safe
  }
  if (off->op == Op::Concat && off->k[1]->op == Op::Const && off->k[1]->c == 0 && off->k[1]->width < 32)
    return 1ull << off->k[1]->width;
  if (off->op == Op::Add) {
    u64 a, b;
    u64 x = strideOf(off->k[0], a), y = strideOf(off->k[1], b);
    c0 = a + b;
    return std::min(x, y);
  }
  if (off->op == Op::Ite) {
    return 1;
  }
  return 1;
}
static E readRaw(State& s, const Loc& l, u64 off, unsigned nb);
static E readConc(State& s, u64 base, u64 off, unsigned nb) {
  const ObjP* op = findObj(s, base);
  const Object* o = op->get();
  bool allc = true;
  if (!o->s.empty())
    for (unsigned i = 0; i < nb; i++)
      if (o->s[off + i].e) { allc = false; break; }
  if (allc) {
    u128 v = 0;
    for (unsigned i = 0; i < nb; i++) v |= (u128)o->d[off + i] << (8 * i);
    return mkConst(v, nb * 8);
  }
  // single expression fast path
  E e0 = o->s[off].e;
  if (e0 && e0 != UNINIT && o->s[off].idx == 0 && e0->width == nb * 8) {
    bool ok = true;
    for (unsigned i = 1; i < nb; i++)
      if (o->s[off + i].e != e0 || o->s[off + i].idx != i) { ok = false; break; }
    if (ok) return e0;
  }
  E r = nullptr;
  for (unsigned i = 0; i < nb; i++) {
    op = findObj(s, base);
    E b = readByte(s, base, op->get(), off + i);
    r = r ? mkConcat(b, r) : b;
  }
  return r;
}
static std::vector<u64> candOffsets(State& s, const Loc& l, u64 n, u64 limit) {
  u64 size = (*findObj(s, l.base))->size;
  u64 c0, st = strideOf(l.offE, c0);
  if (st == 0) st = 1;
  std::vector<u64> out;
  u64 start = c0 % st;
  // narrow with the solver when the object is large
  u64 lo = start, hi = size - n;
  if ((hi - lo) / st > 64) {
    // find min / max feasible by binary search
    auto can = [&](E c) { Assign m; return feasible(s, c, m) != Res::Unsat; };
    u64 a = lo, b = hi;
    while (a < b) {
      u64 mid = a + (b - a) / 2;
      if (can(mkCmp(Op::Ule, l.offE, mkConst(mid, 64)))) b = mid;
      else a = mid + 1;
    }
    u64 mn = a;
    a = mn; b = hi;
    while (a < b) {
      u64 mid = a + (b - a + 1) / 2;
      if (can(mkCmp(Op::Ule, mkConst(mid, 64), l.offE))) a = mid;
      else b = mid - 1;
    }
    hi = a;
    lo = mn;
    if (lo % st != start) lo += (start + st - lo % st) % st;
  }
  for (u64 o = lo; o <= hi; o += st) {
    out.push_back(o);
    if (out.size() > limit) break;
  }
  return out;
}
static E readMem(State& s, const Loc& l, unsigned nb) {
  if (!l.sym) return readConc(s, l.base, l.off, nb);
  auto c = candOffsets(s, l, nb, 600);
  if (c.size() > 600) {
    u64 v = concretize(s, R(l.offE), 64);
    return readConc(s, l.base, v, nb);
  }
  if (c.empty()) throw KillPath{"no offsets"};
  // group equal values
  E r = nullptr;
  std::map<E, E> byVal;  // value -> condition
  std::vector<E> order;
  for (u64 o : c) {
    E v = readConc(s, l.base, o, nb);
    E q = mkCmp(Op::Eq, l.offE, mkConst(o, 64));
    if (q->op == Op::Const && q->c == 0) continue;
    auto it = byVal.find(v);
    if (it == byVal.end()) { byVal[v] = q; order.push_back(v); }
    else it->second = mkOr(it->second, q);
  }
  // most frequent last would be nicer; keep order
  for (E v : order) r = r ? mkIte(byVal[v], v, r) : v;
  if (!r) throw KillPath{"no offsets"};
  return r;
}
static void writeMem(State& s, const Loc& l, E v, unsigned nb) {
  if (!l.sym) {
    writeCells(writable(s, l.base), l.off, v, nb);
    return;
  }
  auto c = candOffsets(s, l, nb, 256);
  if (c.size() > 256) {
    u64 o = concretize(s, R(l.offE), 64);
    writeCells(writable(s, l.base), o, v, nb);
    return;
  }
  for (u64 o : c) {
    E q = mkCmp(Op::Eq, l.offE, mkConst(o, 64));
    E old = readConc(s, l.base, o, nb);
    writeCells(writable(s, l.base), o, mkIte(q, v, old), nb);
  }
}

// typed load/store
static unsigned tw(Type* t) {
  if (t->isPointerTy()) return 64;
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isFloatTy()) return 32;
  if (t->isDoubleTy()) return 64;
  if (t->isX86_FP80Ty()) return 80;
  std::string n;
  raw_string_ostream o(n);
  t->print(o);
  unsupported("scalar type " + o.str());
}
static bool isFP(Type* t) { return t->isFloatingPointTy(); }
static Reg addOff(const Reg& a, u64 off) {
  if (a.conc()) return Reg(a.c + off);
  return R(mkBin(Op::Add, X(a, 64), mkConst(off, 64)));
}
static Reg load(State& s, const Reg& addr, Type* t);
static void store(State& s, const Reg& addr, const Reg& v, Type* t);

static Reg loadScalar(State& s, const Loc& l0, u64 extra, Type* t) {
  Loc l = l0;
  if (l.sym) l.offE = mkBin(Op::Add, l.offE, mkConst(extra, 64));
  else l.off += extra;
  unsigned w = tw(t), nb = (w + 7) / 8;
  if (t->isX86_FP80Ty() && g_real) nb = 8, w = 64;
  E e = readMem(s, l, nb);
  if (w < nb * 8) e = mkExtract(e, 0, w);
  if (g_real && isFP(t)) {
    Reg r;
    r.e = mkRFromBits(e);
    return r;
  }
  return R(e);
}
static Reg loadRec(State& s, const Loc& l, u64 off, Type* t) {
  if (t->isStructTy()) {
    auto* st = cast<StructType>(t);
    auto* sl = DL->getStructLayout(st);
    std::vector<Reg> v;
    for (unsigned i = 0; i < st->getNumElements(); i++)
      v.push_back(loadRec(s, l, off + sl->getElementOffset(i), st->getElementType(i)));
    return AGG(std::move(v));
  }
  if (t->isArrayTy()) {
    std::vector<Reg> v;
    u64 es = DL->getTypeAllocSize(t->getArrayElementType());
    for (unsigned i = 0; i < t->getArrayNumElements(); i++)
      v.push_back(loadRec(s, l, off + i * es, t->getArrayElementType()));
    return AGG(std::move(v));
  }
  if (auto* vt = dyn_cast<FixedVectorType>(t)) {
    std::vector<Reg> v;
    if (vt->getElementType()->isIntegerTy(1)) {
      E bits = readMem(s, l, (vt->getNumElements() + 7) / 8);
      for (unsigned i = 0; i < vt->getNumElements(); i++) v.push_back(R(mkExtract(bits, i, 1)));
      return AGG(std::move(v));
    }
    u64 es = DL->getTypeStoreSize(vt->getElementType());
    for (unsigned i = 0; i < vt->getNumElements(); i++)
      v.push_back(loadScalar(s, l, off + i * es, vt->getElementType()));
    return AGG(std::move(v));
  }
  return loadScalar(s, l, off, t);
}
static Reg load(State& s, const Reg& addr, Type* t) {
  u64 n = DL->getTypeStoreSize(t);
  if (n == 0) return AGG({});
  Loc l = resolve(s, addr, n, false);
  return loadRec(s, l, 0, t);
}
static E bitsOf(const Reg& v, Type* t) {  // scalar -> bits expr
  unsigned w = tw(t);
  if (g_real && isFP(t)) {
    if (t->isX86_FP80Ty()) w = 64;
    if (v.conc()) unsupported("concrete fp in real mode");
    E e = v.e;
    if (e->op == Op::RConst) {
      // representable constants are stored as bits so integer views stay exact
      double d = realApprox(ratOf(e));
      if (w == 64 && ratFromDouble(d) == ratOf(e)) {
        u64 b; memcpy(&b, &d, 8);
        return mkConst(b, 64);
      }
      if (w == 32) {
        float f = (float)d;
        if (ratFromDouble(f) == ratOf(e)) {
          uint32_t b; memcpy(&b, &f, 4);
          return mkConst(b, 32);
        }
      }
    }
    return mkRBits(e, w);
  }
  return X(v, w);
}
static Reg fromBits(E e, Type* t) {
  if (g_real && isFP(t)) {
    Reg r;
    r.e = mkRFromBits(e);
    return r;
  }
  return R(e);
}
static void storeRec(State& s, const Loc& l0, u64 off, const Reg& v, Type* t) {
  if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
    if (!v.a) unsupported("scalar stored as aggregate");
    if (auto* st = dyn_cast<StructType>(t)) {
      auto* sl = DL->getStructLayout(st);
      for (unsigned i = 0; i < st->getNumElements(); i++)
        storeRec(s, l0, off + sl->getElementOffset(i), (*v.a)[i], st->getElementType(i));
    } else if (t->isArrayTy()) {
      u64 es = DL->getTypeAllocSize(t->getArrayElementType());
      for (unsigned i = 0; i < t->getArrayNumElements(); i++)
        storeRec(s, l0, off + i * es, (*v.a)[i], t->getArrayElementType());
    } else {
      auto* vt = cast<FixedVectorType>(t);
      if (vt->getElementType()->isIntegerTy(1)) unsupported("store of i1 vector");
      u64 es = DL->getTypeStoreSize(vt->getElementType());
      for (unsigned i = 0; i < vt->getNumElements(); i++)
        storeRec(s, l0, off + i * es, (*v.a)[i], vt->getElementType());
    }
    return;
  }
  Loc l = l0;
  if (l.sym) l.offE = mkBin(Op::Add, l.offE, mkConst(off, 64));
  else l.off += off;
  E e = bitsOf(v, t);
  unsigned nb = (e->width + 7) / 8;
  if (e->width < nb * 8) e = mkZExt(e, nb * 8);
  writeMem(s, l, e, nb);
}
static void store(State& s, const Reg& addr, const Reg& v, Type* t) {
  u64 n = DL->getTypeStoreSize(t);
  if (n == 0) return;
  Loc l = resolve(s, addr, n, true);
  storeRec(s, l, 0, v, t);
}
static void copyBytes(State& s, const Reg& dst, const Reg& src, u64 n) {
  if (n == 0) return;
  Loc ls = resolve(s, src, n, false);
  if (ls.sym) { ls.off = concretize(s, R(ls.offE), 64); ls.sym = false; }
  Loc ld = resolve(s, dst, n, true);
  if (ld.sym) { ld.off = concretize(s, R(ld.offE), 64); ld.sym = false; }
  ObjP so = *findObj(s, ls.base);
  std::vector<uint8_t> d(so->d.begin() + ls.off, so->d.begin() + ls.off + n);
  std::vector<Cell> c;
  if (!so->s.empty()) c.assign(so->s.begin() + ls.off, so->s.begin() + ls.off + n);
  so.reset();
  Object* o = writable(s, ld.base);
  std::copy(d.begin(), d.end(), o->d.begin() + ld.off);
  if (!c.empty()) {
    if (o->s.empty()) o->s.resize(o->size);
    std::copy(c.begin(), c.end(), o->s.begin() + ld.off);
  } else if (!o->s.empty())
    for (u64 i = 0; i < n; i++) o->s[ld.off + i] = Cell();
}

// ---------------------------------------------------------------- constants
static Reg constReg(const Constant* C);
static u64 funcAddr(const Function* F) {
  auto it = g_addr.find(F);
  if (it != g_addr.end()) return it->second;
  u64 a = FUNC_LO + 16 * (g_fnAt.size() + 1);
  g_addr[F] = a;
  g_fnAt[a] = const_cast<Function*>(F);
  return a;
}
static u64 globalAddr(const GlobalVariable* G) {
  auto it = g_addr.find(G);
  if (it != g_addr.end()) return it->second;
  Type* t = G->getValueType();
  u64 size = t->isSized() ? (u64)DL->getTypeAllocSize(t) : 64;
  if (!G->hasInitializer() && size < 64) size = 64;
  u64 al = 16;
  if (G->getAlign()) al = std::max<u64>(al, G->getAlign()->value());
  g_nextGlobal = (g_nextGlobal + al - 1) / al * al;
  u64 a = g_nextGlobal;
  g_nextGlobal += ((size + 15) / 16) * 16 + 64;
  g_addr[G] = a;
  g_gname[a] = G->getName().str();
  auto o = std::make_shared<Object>();
  o->base = a;
  o->size = size;
  o->d.assign(size, 0);
  o->kind = "global";
  g_globals[a] = o;
  return a;
}
static Reg gvAddr(const GlobalValue* g) {
  if (auto* f = dyn_cast<Function>(g)) return Reg(funcAddr(f));
  if (auto* v = dyn_cast<GlobalVariable>(g)) return Reg(globalAddr(v));
  if (auto* al = dyn_cast<GlobalAlias>(g)) return constReg(al->getAliasee());
  unsupported("global value kind");
}
static Reg fpConst(const APFloat& f, Type* t) {
  if (g_real) {
    APFloat d = f;
    bool li;
    d.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li);
    double v = d.convertToDouble();
    Reg r;
    u64 b; memcpy(&b, &v, 8);
    r.e = mkRFromBits(mkConst(b, 64));
    return r;
  }
  APInt b = f.bitcastToAPInt();
  if (b.getBitWidth() <= 64) return Reg(b.getZExtValue());
  unsupported("fp80 constant");
}
static Reg zeroOf(Type* t) {
  if (auto* st = dyn_cast<StructType>(t)) {
    std::vector<Reg> v;
    for (auto* e : st->elements()) v.push_back(zeroOf(e));
    return AGG(std::move(v));
  }
  if (t->isArrayTy()) {
    std::vector<Reg> v;
    for (u64 i = 0; i < t->getArrayNumElements(); i++) v.push_back(zeroOf(t->getArrayElementType()));
    return AGG(std::move(v));
  }
  if (auto* vt = dyn_cast<FixedVectorType>(t)) {
    std::vector<Reg> v;
    for (u64 i = 0; i < vt->getNumElements(); i++) v.push_back(zeroOf(vt->getElementType()));
    return AGG(std::move(v));
  }
  if (g_real && isFP(t)) { Reg r; r.e = mkRConst(Rat(0)); return r; }
  if (tw(t) > 64) { Reg r; r.e = mkConst(0, tw(t)); return r; }
  return Reg(0);
}
static Reg binop(unsigned opc, const Reg& a, const Reg& b, unsigned w);
static Reg constReg(const Constant* C) {
  Type* t = C->getType();
  if (auto* ci = dyn_cast<ConstantInt>(C)) {
    if (ci->getBitWidth() <= 64) return Reg(ci->getZExtValue());
    if (ci->getBitWidth() > 128) unsupported("int constant > 128 bits");
    u128 v = ci->getValue().getRawData()[0];
    if (ci->getValue().getNumWords() > 1) v |= (u128)ci->getValue().getRawData()[1] << 64;
    Reg r;
    r.e = mkConst(v, ci->getBitWidth());
    return r;
  }
  if (auto* cf = dyn_cast<ConstantFP>(C)) return fpConst(cf->getValueAPF(), t);
  if (isa<ConstantPointerNull>(C)) return Reg(0);
  if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) return zeroOf(t);
  if (auto* g = dyn_cast<GlobalValue>(C)) return gvAddr(g);
  if (auto* ca = dyn_cast<ConstantDataSequential>(C)) {
    std::vector<Reg> v;
    for (unsigned i = 0; i < ca->getNumElements(); i++) v.push_back(constReg(ca->getElementAsConstant(i)));
    return AGG(std::move(v));
  }
  if (isa<ConstantAggregate>(C)) {
    std::vector<Reg> v;
    for (unsigned i = 0; i < C->getNumOperands(); i++) v.push_back(constReg(cast<Constant>(C->getOperand(i))));
    return AGG(std::move(v));
  }
  if (isa<ConstantTokenNone>(C)) return Reg(0);
  if (auto* ce = dyn_cast<ConstantExpr>(C)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: {
        APInt off(64, 0);
        auto* g = cast<GEPOperator>(ce);
        if (!g->accumulateConstantOffset(*DL, off)) unsupported("const gep");
        Reg b = constReg(cast<Constant>(g->getPointerOperand()));
        return Reg(b.c + off.getZExtValue());
      }
      case Instruction::BitCast:
      case Instruction::AddrSpaceCast:
      case Instruction::PtrToInt:
      case Instruction::IntToPtr: {
        Reg r = constReg(cast<Constant>(ce->getOperand(0)));
        if (!r.a && !r.e) r.c &= m64(tw(t));
        return r;
      }
      case Instruction::Trunc: {
        Reg r = constReg(cast<Constant>(ce->getOperand(0)));
        return Reg(r.c & m64(tw(t)));
      }
      case Instruction::ICmp: {
        Reg a = constReg(cast<Constant>(ce->getOperand(0)));
        Reg b = constReg(cast<Constant>(ce->getOperand(1)));
        switch (ce->getPredicate()) {
          case CmpInst::ICMP_EQ: return Reg(a.c == b.c);
          case CmpInst::ICMP_NE: return Reg(a.c != b.c);
          case CmpInst::ICMP_ULT: return Reg(a.c < b.c);
          case CmpInst::ICMP_UGT: return Reg(a.c > b.c);
          default: break;
        }
        break;
      }
      case Instruction::Add: case Instruction::Sub: case Instruction::Mul:
      case Instruction::Xor: case Instruction::Shl: {
        Reg a = constReg(cast<Constant>(ce->getOperand(0)));
        Reg b = constReg(cast<Constant>(ce->getOperand(1)));
        return binop(ce->getOpcode(), a, b, tw(t));
      }
      default: break;
    }
    std::string n;
    raw_string_ostream o(n);
    ce->print(o);
    unsupported("constexpr " + o.str());
  }
  std::string n;
  raw_string_ostream o(n);
  C->print(o);
  unsupported("constant " + o.str());
}
static void initGlobal(Object* o, u64 off, const Constant* C) {
  Type* t = C->getType();
  if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) return;
  if (auto* cd = dyn_cast<ConstantDataSequential>(C)) {
    u64 es = DL->getTypeAllocSize(cd->getElementType());
    StringRef raw = cd->getRawDataValues();
    (void)es;
    memcpy(o->d.data() + off, raw.data(), raw.size());
    return;
  }
  if (auto* st = dyn_cast<StructType>(t)) {
    auto* sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++)
      initGlobal(o, off + sl->getElementOffset(i), cast<Constant>(C->getAggregateElement(i)));
    return;
  }
  if (t->isArrayTy()) {
    u64 es = DL->getTypeAllocSize(t->getArrayElementType());
    for (u64 i = 0; i < t->getArrayNumElements(); i++)
      initGlobal(o, off + i * es, cast<Constant>(C->getAggregateElement(i)));
    return;
  }
  if (auto* vt = dyn_cast<FixedVectorType>(t)) {
    u64 es = DL->getTypeAllocSize(vt->getElementType());
    for (u64 i = 0; i < vt->getNumElements(); i++)
      initGlobal(o, off + i * es, cast<Constant>(C->getAggregateElement(i)));
    return;
  }
  if (auto* cf = dyn_cast<ConstantFP>(C)) {
    APInt b = cf->getValueAPF().bitcastToAPInt();
    for (unsigned i = 0; i < b.getBitWidth() / 8; i++)
      o->d[off + i] = (uint8_t)b.extractBitsAsZExtValue(8, i * 8);
    return;
  }
  Reg r = constReg(C);
  E e = X(r, tw(t));
  unsigned nb = (e->width + 7) / 8;
  for (unsigned i = 0; i < nb; i++) o->d[off + i] = (uint8_t)(e->c >> (8 * i));
}

// ---------------------------------------------------------------- decode
static FnInfo* fnInfo(Function* F) {
  auto it = g_fns.find(F);
  if (it != g_fns.end()) return it->second;
  FnInfo* fi = new FnInfo;
  g_fns[F] = fi;
  fi->F = F;
  fi->name = F->getName().str();
  int stt;
  char* d = abi::__cxa_demangle(fi->name.c_str(), nullptr, nullptr, &stt);
  fi->demangled = d ? d : fi->name;
  free(d);
  if (auto* sp = F->getSubprogram()) {
    fi->file = sp->getFilename().str();
    if (!fi->file.empty() && fi->file[0] != '/') fi->file = sp->getDirectory().str() + "/" + fi->file;
  }
  unsigned n = 0;
  for (auto& a : F->args()) fi->slot[&a] = n++;
  for (auto& I : instructions(F))
    if (!I.getType()->isVoidTy()) fi->slot[&I] = n++;
  fi->nslots = n;
  unsigned b = 0;
  for (auto& B : *F) fi->bidx[&B] = b++;
  for (auto& B : *F) {
    fi->blocks.emplace_back();
    for (auto& I : B) {
      DInst di;
      di.I = &I;
      di.opc = I.getOpcode();
      di.ty = I.getType();
      if (!I.getType()->isVoidTy()) di.dst = fi->slot[&I];
      if (isa<DbgInfoIntrinsic>(I)) continue;
      for (const DILocation* dl = I.getDebugLoc().get(); dl; dl = dl->getInlinedAt()) {
        if (auto* sp = dl->getScope()->getSubprogram()) {
          std::string fn = sp->getFilename().str();
          if (!fn.empty() && fn[0] != '/') fn = sp->getDirectory().str() + "/" + fn;
          if (fn.find("/repo/") == 0) {
            std::string ln = sp->getLinkageName().empty() ? sp->getName().str() : sp->getLinkageName().str();
            g_lineFns.insert(fn.substr(6) + "|" + ln);
          }
        }
      }
      auto mk = [&](Value* v) {
        Opnd o;
        auto s = fi->slot.find(v);
        if (s != fi->slot.end()) o.slot = s->second;
        else if (auto* c = dyn_cast<Constant>(v)) {
          if (isa<Function>(c)) o.cst = Reg(funcAddr(cast<Function>(c)));
          else {
            try { o.cst = constReg(c); }
            catch (Unsupported& u) { o.slot = -2; }
          }
        } else
          o.slot = -2;
        return o;
      };
      for (auto& op : I.operands()) di.ops.push_back(mk(op.get()));
      if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
        unsigned oi = 1;
        for (auto gi = gep_type_begin(g); gi != gep_type_end(g); ++gi, ++oi) {
          if (auto* st = gi.getStructTypeOrNull()) {
            unsigned f = cast<ConstantInt>(gi.getOperand())->getZExtValue();
            di.goff += DL->getStructLayout(st)->getElementOffset(f);
          } else {
            u64 sc = DL->getTypeAllocSize(gi.getIndexedType());
            if (auto* ci = dyn_cast<ConstantInt>(gi.getOperand()))
              di.goff += (i128)ci->getSExtValue() * (i128)sc;
            else
              di.gidx.push_back({oi, sc});
          }
        }
      }
      fi->blocks.back().push_back(std::move(di));
    }
  }
  return fi;
}

// ---------------------------------------------------------------- scalar ops
static Reg binop(unsigned opc, const Reg& a, const Reg& b, unsigned w) {
  if (a.conc() && b.conc() && w <= 64) {
    u64 m = m64(w), x = a.c & m, y = b.c & m;
    switch (opc) {
      case Instruction::Add: return Reg((x + y) & m);
      case Instruction::Sub: return Reg((x - y) & m);
      case Instruction::Mul: return Reg((x * y) & m);
      case Instruction::And: return Reg(x & y);
      case Instruction::Or: return Reg(x | y);
      case Instruction::Xor: return Reg(x ^ y);
      case Instruction::Shl: return Reg(y >= w ? 0 : (x << y) & m);
      case Instruction::LShr: return Reg(y >= w ? 0 : x >> y);
      default: break;
    }
  }
  Op op;
  switch (opc) {
    case Instruction::Add: op = Op::Add; break;
    case Instruction::Sub: op = Op::Sub; break;
    case Instruction::Mul: op = Op::Mul; break;
    case Instruction::UDiv: op = Op::UDiv; break;
    case Instruction::SDiv: op = Op::SDiv; break;
    case Instruction::URem: op = Op::URem; break;
    case Instruction::SRem: op = Op::SRem; break;
    case Instruction::And: op = Op::And; break;
    case Instruction::Or: op = Op::Or; break;
    case Instruction::Xor: op = Op::Xor; break;
    case Instruction::Shl: op = Op::Shl; break;
    case Instruction::LShr: op = Op::LShr; break;
    case Instruction::AShr: op = Op::AShr; break;
    default: unsupported("binop");
  }
  return R(mkBin(op, X(a, w), X(b, w)));
}
static Reg RE(E e) {
  if (e->isReal()) { Reg r; r.e = e; return r; }
  return R(e);
}
static E fpE(const Reg& a, Type* t) {
  if (g_real) {
    if (!a.e) unsupported("fp value without expression");
    return a.e;
  }
  if (t->isX86_FP80Ty()) unsupported("long double arithmetic");
  return X(a, tw(t));
}
static bool special(E e, const char* n) { return e->op == Op::RUF && ufName(e->aux) == std::string("r_") + n; }
static bool anySpecial(E e) { return special(e, "NAN") || special(e, "INF") || special(e, "NEGINF"); }
static Reg fbin(unsigned opc, const Reg& a, const Reg& b, Type* t) {
  E x = fpE(a, t), y = fpE(b, t);
  if (g_real) {
    if (special(x, "NAN")) return RE(x);
    if (special(y, "NAN")) return RE(y);
    if (anySpecial(x) || anySpecial(y)) {
      return RE(mkRUF("NAN", {}));
    }
    switch (opc) {
      case Instruction::FAdd: return RE(mkRBin(Op::RAdd, x, y));
      case Instruction::FSub: return RE(mkRBin(Op::RAdd, x, mkRNeg(y)));
      case Instruction::FMul: return RE(mkRBin(Op::RMul, x, y));
      case Instruction::FDiv:
        return RE(mkRBin(Op::RDiv, x, y));
      case Instruction::FRem: return RE(mkRUF("fmod", {x, y}));
    }
  }
  switch (opc) {
    case Instruction::FAdd: return R(mkFBin(Op::FAdd, x, y));
    case Instruction::FSub: return R(mkFBin(Op::FSub, x, y));
    case Instruction::FMul: return R(mkFBin(Op::FMul, x, y));
    case Instruction::FDiv: return R(mkFBin(Op::FDiv, x, y));
    case Instruction::FRem: return R(mkFBin(Op::FRem, x, y));
  }
  unsupported("fbin");
}
static Reg fneg(const Reg& a, Type* t) {
  if (g_real) return RE(mkRNeg(a.e));
  unsigned w = tw(t);
  return R(mkBin(Op::Xor, X(a, w), mkConst((u128)1 << (w - 1), w)));
}
static Reg fcmp(CmpInst::Predicate p, const Reg& a, const Reg& b, Type* t) {
  if (p == CmpInst::FCMP_TRUE) return Reg(1);
  if (p == CmpInst::FCMP_FALSE) return Reg(0);
  E x = fpE(a, t), y = fpE(b, t);
  bool unord = (p & 8) != 0;  // U* predicates have bit 3
  int base = p & 7;           // 1 eq, 2 gt, 4 lt; 7 = ord/uno complement
  if (g_real) {
    if (p == CmpInst::FCMP_ORD) return Reg(!(special(x, "NAN") || special(y, "NAN")));
    if (p == CmpInst::FCMP_UNO) return Reg(special(x, "NAN") || special(y, "NAN"));
    if (special(x, "NAN") || special(y, "NAN")) return Reg(unord);
    if (anySpecial(x) || anySpecial(y)) {
      auto rank = [](E e) { return special(e, "INF") ? 1 : special(e, "NEGINF") ? -1 : 0; };
      int rx = rank(x), ry = rank(y);
      return Reg(((base & 1) && rx == ry) || ((base & 2) && rx > ry) || ((base & 4) && rx < ry));
    }
    E r;
    switch (base) {
      case 1: r = mkRBin(Op::REq, x, y); break;
      case 2: r = mkRBin(Op::RLt, y, x); break;
      case 3: r = mkRBin(Op::RLe, y, x); break;
      case 4: r = mkRBin(Op::RLt, x, y); break;
      case 5: r = mkRBin(Op::RLe, x, y); break;
      case 6: r = mkNot(mkRBin(Op::REq, x, y)); break;
      default: unsupported("fcmp");
    }
    return R(r);
  }
  if (p == CmpInst::FCMP_UNO) return R(mkFBin(Op::FUno, x, y));
  if (p == CmpInst::FCMP_ORD) return R(mkNot(mkFBin(Op::FUno, x, y)));
  // predicates: unordered version = not(ordered complement)
  auto ordered = [&](int b) -> E {
    switch (b) {
      case 1: return mkFBin(Op::FEq, x, y);
      case 2: return mkFBin(Op::FLt, y, x);
      case 3: return mkFBin(Op::FLe, y, x);
      case 4: return mkFBin(Op::FLt, x, y);
      case 5: return mkFBin(Op::FLe, x, y);
      case 6: return mkOr(mkFBin(Op::FLt, x, y), mkFBin(Op::FLt, y, x));
    }
    unsupported("fcmp");
  };
  if (!unord) return R(ordered(base));
  return R(mkNot(ordered(7 & ~base)));
}
static Reg icmp(CmpInst::Predicate p, const Reg& a, const Reg& b, unsigned w) {
  E x = X(a, w), y = X(b, w);
  switch (p) {
    case CmpInst::ICMP_EQ: return R(mkCmp(Op::Eq, x, y));
    case CmpInst::ICMP_NE: return R(mkNot(mkCmp(Op::Eq, x, y)));
    case CmpInst::ICMP_ULT: return R(mkCmp(Op::Ult, x, y));
    case CmpInst::ICMP_ULE: return R(mkCmp(Op::Ule, x, y));
    case CmpInst::ICMP_UGT: return R(mkCmp(Op::Ult, y, x));
    case CmpInst::ICMP_UGE: return R(mkCmp(Op::Ule, y, x));
    case CmpInst::ICMP_SLT: return R(mkCmp(Op::Slt, x, y));
    case CmpInst::ICMP_SLE: return R(mkCmp(Op::Sle, x, y));
    case CmpInst::ICMP_SGT: return R(mkCmp(Op::Slt, y, x));
    case CmpInst::ICMP_SGE: return R(mkCmp(Op::Sle, y, x));
    default: unsupported("icmp");
  }
}
static Reg select(const Reg& c, const Reg& a, const Reg& b, Type* t) {
  if (c.conc()) return c.c ? a : b;
  if (a.a) {
    std::vector<Reg> v;
    for (size_t i = 0; i < a.a->size(); i++) {
      Type* et = t->isStructTy() ? t->getStructElementType(i)
                 : t->isArrayTy() ? t->getArrayElementType()
                                  : cast<VectorType>(t)->getElementType();
      v.push_back(select(c, (*a.a)[i], (*b.a)[i], et));
    }
    return AGG(std::move(v));
  }
  if (g_real && isFP(t)) return RE(mkIte(c.e, a.e, b.e));
  unsigned w = tw(t);
  return R(mkIte(c.e, X(a, w), X(b, w)));
}
static Reg castOp(unsigned opc, const Reg& a, Type* from, Type* to) {
  switch (opc) {
    case Instruction::Trunc:
      if (a.conc()) return Reg(a.c & m64(tw(to)));
      return R(mkExtract(X(a, tw(from)), 0, tw(to)));
    case Instruction::ZExt:
      if (a.conc() && tw(to) <= 64) return a;
      return R(mkZExt(X(a, tw(from)), tw(to)));
    case Instruction::SExt: return R(mkSExt(X(a, tw(from)), tw(to)));
    case Instruction::PtrToInt:
    case Instruction::IntToPtr: {
      unsigned f = tw(from), t = tw(to);
      if (f == t) return a;
      if (f > t) return R(mkExtract(X(a, f), 0, t));
      return R(mkZExt(X(a, f), t));
    }
    case Instruction::FPExt:
      if (g_real) return a;
      return R(mkFUn(Op::FExt, X(a, tw(from)), tw(to)));
    case Instruction::FPTrunc:
      if (g_real) return a;
      return R(mkFUn(Op::FTrunc, X(a, tw(from)), tw(to)));
    case Instruction::SIToFP:
      if (g_real) return RE(mkRFromInt(X(a, tw(from)), true));
      return R(mkFUn(Op::SIToF, X(a, tw(from)), tw(to)));
    case Instruction::UIToFP:
      if (g_real) return RE(mkRFromInt(X(a, tw(from)), false));
      return R(mkFUn(Op::UIToF, X(a, tw(from)), tw(to)));
    case Instruction::FPToSI:
      if (g_real) return R(mkRUn(Op::RToSI, a.e, tw(to)));
      return R(mkFUn(Op::FToSI, X(a, tw(from)), tw(to)));
    case Instruction::FPToUI:
      if (g_real) return R(mkRUn(Op::RToSI, a.e, tw(to)));
      return R(mkFUn(Op::FToUI, X(a, tw(from)), tw(to)));
  }
  unsupported("cast");
}
// bitcast through bits (scalars and vectors)
static Reg bitcast(const Reg& a, Type* from, Type* to) {
  if (from == to) return a;
  E bits;
  if (auto* vt = dyn_cast<FixedVectorType>(from)) {
    bits = nullptr;
    for (unsigned i = 0; i < vt->getNumElements(); i++) {
      E b = bitsOf((*a.a)[i], vt->getElementType());
      bits = bits ? mkConcat(b, bits) : b;
    }
  } else
    bits = bitsOf(a, from);
  if (auto* vt = dyn_cast<FixedVectorType>(to)) {
    unsigned ew = tw(vt->getElementType());
    std::vector<Reg> v;
    for (unsigned i = 0; i < vt->getNumElements(); i++)
      v.push_back(fromBits(mkExtract(bits, i * ew, ew), vt->getElementType()));
    return AGG(std::move(v));
  }
  return fromBits(bits, to);
}

#include "builtins.inc"

// ---------------------------------------------------------------- exec
static void pushFrame(State& s, FnInfo* fi, const std::vector<Reg>& args) {
  if (s.st.size() > 400) {
    report(s, s.model, "hang", "call depth above 400");
    throw KillPath{"recursion"};
  }
  Frame f;
  f.fn = fi;
  fi->calls++;
  f.regs.resize(fi->nslots);
  unsigned na = fi->F->arg_size();
  for (unsigned i = 0; i < na && i < args.size(); i++) f.regs[i] = args[i];
  // byval arguments get their own copy
  for (unsigned i = 0; i < na && i < args.size(); i++) {
    Argument* A = fi->F->getArg(i);
    if (A->hasByValAttr()) {
      u64 sz = DL->getTypeAllocSize(A->getParamByValType());
      u64 o = allocObj(s, sz, "byval", false);
      copyBytes(s, Reg(o), args[i], sz);
      f.allocas.push_back(o);
      f.regs[i] = Reg(o);
    }
  }
  for (unsigned i = na; i < args.size(); i++) f.varargs.push_back(args[i]);
  s.st.push_back(std::move(f));
}
static void enterBlock(State& s, Frame& f, unsigned bi) {
  const BasicBlock* from = f.fn->blocks[f.bb].back().I->getParent();
  f.prev = from;
  f.bb = bi;
  f.ii = 0;
  auto& B = f.fn->blocks[bi];
  std::vector<std::pair<int, Reg>> tmp;
  unsigned i = 0;
  for (; i < B.size() && B[i].opc == Instruction::PHI; i++) {
    auto* P = cast<PHINode>(B[i].I);
    int k = P->getBasicBlockIndex(from);
    if (k < 0) unsupported("phi without edge");
    const Opnd& o = B[i].ops[k];
    if (o.slot == -2) unsupported("phi operand constant");
    tmp.push_back({B[i].dst, o.slot >= 0 ? f.regs[o.slot] : o.cst});
  }
  for (auto& t : tmp) f.regs[t.first] = std::move(t.second);
  f.ii = i;
}
static void popFrame(State& s) {
  for (u64 a : s.st.back().allocas) s.mem.erase(a);
  s.st.pop_back();
}
static void afterCall(State& s, const Reg& ret) {
  Frame& f = s.st.back();
  DInst& d = f.fn->blocks[f.bb][f.ii];
  if (d.dst >= 0) f.regs[d.dst] = ret;
  if (auto* inv = dyn_cast<InvokeInst>(d.I))
    enterBlock(s, f, f.fn->bidx[inv->getNormalDest()]);
  else
    f.ii++;
}
// unwinding: top frame's current instruction raised exception exn/ti
static void unwind(State& s, u64 exn, u64 ti) {
  while (!s.st.empty()) {
    Frame& f = s.st.back();
    DInst& d = f.fn->blocks[f.bb][f.ii];
    if (auto* inv = dyn_cast<InvokeInst>(d.I)) {
      BasicBlock* ub = inv->getUnwindDest();
      auto* lp = ub->getLandingPadInst();
      bool take = lp->isCleanup();
      int64_t sel = 0;
      for (unsigned i = 0; i < lp->getNumClauses(); i++) {
        Constant* c = lp->getClause(i);
        if (lp->isCatch(i)) {
          if (isa<ConstantPointerNull>(c)) { sel = typeId(0); take = true; break; }
          u64 ct = constReg(c).c;
          if (tiDerives(s, ti, ct)) { sel = typeId(ct); take = true; break; }
        } else {
          // filter: only the empty filter (noexcept(true)/throw()) is expected
          report(s, s.model, "terminate", "exception escapes an exception specification");
          throw KillPath{"filter"};
        }
      }
      if (take) {
        f.exn = exn;
        f.sel = sel;
        f.exnTi = ti;
        enterBlock(s, f, f.fn->bidx[ub]);
        return;
      }
    } else if (f.fn->F->doesNotThrow()) {
      report(s, s.model, "terminate", "exception escapes noexcept function " + f.fn->demangled);
      throw KillPath{"noexcept"};
    }
    if (s.st.size() == 1) {
      report(s, s.model, "uncaught", "uncaught exception of type " + tiName(ti));
      throw KillPath{"uncaught"};
    }
    popFrame(s);
  }
}

static std::vector<Reg> callArgs(Frame& f, DInst& d, CallBase* cb) {
  std::vector<Reg> a;
  for (unsigned i = 0; i < cb->arg_size(); i++) {
    const Opnd& o = d.ops[i];
    if (o.slot >= 0) a.push_back(f.regs[o.slot]);
    else if (o.slot == -1) a.push_back(o.cst);
    else a.push_back(Reg(0));
  }
  return a;
}

static void doCall(State& s, DInst& d, CallBase* cb) {
  Frame& f = s.st.back();
  Function* callee = cb->getCalledFunction();
  if (!callee) {
    Value* cv = cb->getCalledOperand()->stripPointerCasts();
    if (auto* al = dyn_cast<GlobalAlias>(cv)) cv = al->getAliasee()->stripPointerCasts();
    callee = dyn_cast<Function>(cv);
    if (!callee) {
      if (isa<InlineAsm>(cb->getCalledOperand())) {
        auto* ia = cast<InlineAsm>(cb->getCalledOperand());
        if (ia->getAsmString().empty()) { afterCall(s, Reg(0)); return; }
        unsupported("inline asm");
      }
      const Opnd& o = d.ops.back();
      Reg t;
      // called operand is last operand
      unsigned idx = cb->arg_size();
      (void)o;
      for (unsigned i = 0; i < cb->getNumOperands(); i++)
        if (cb->getOperand(i) == cb->getCalledOperand()) idx = i;
      const Opnd& q = d.ops[idx];
      t = q.slot >= 0 ? f.regs[q.slot] : q.cst;
      u64 a = concretize(s, t, 64);
      auto it = g_fnAt.find(a);
      if (it == g_fnAt.end()) {
        report(s, s.model, "memory", "call through invalid function pointer");
        throw KillPath{"bad call"};
      }
      callee = it->second;
    }
  }
  std::vector<Reg> args = callArgs(f, d, cb);
  if (callee->isIntrinsic()) {
    Reg ret;
    if (intrinsic(s, d, cast<CallBase>(d.I), callee, args, ret)) afterCall(s, ret);
    return;
  }
  auto bit = g_builtins.find(callee->getName().str());
  if (bit != g_builtins.end() && (callee->isDeclaration() || bit->second.force)) {
    Reg ret;
    if (bit->second.fn(s, cb, args, ret)) afterCall(s, ret);
    return;
  }
  if (callee->isDeclaration()) {
    Reg ret;
    if (genericExternal(s, cb, callee, args, ret)) { afterCall(s, ret); return; }
    unsupported("external function " + callee->getName().str());
  }
  std::vector<Type*> vt;
  if (callee->isVarArg())
    for (unsigned i = callee->arg_size(); i < cb->arg_size(); i++) vt.push_back(cb->getArgOperand(i)->getType());
  pushFrame(s, fnInfo(callee), args);
  s.st.back().vaTypes = vt;
}

static void step(State& s) {
  Frame& f = s.st.back();
  DInst& d = f.fn->blocks[f.bb][f.ii];
  auto OP = [&](unsigned i) -> const Reg& {
    const Opnd& o = d.ops[i];
    if (o.slot >= 0) return f.regs[o.slot];
    if (o.slot == -2) unsupported("operand constant");
    return o.cst;
  };
  auto set = [&](Reg r) {
    f.regs[d.dst] = std::move(r);
    f.ii++;
  };
  s.steps++;
  g_steps++;
  Instruction* I = d.I;
  switch (d.opc) {
    case Instruction::Ret: {
      Reg r;
      if (!d.ops.empty()) r = OP(0);
      popFrame(s);
      if (s.st.empty()) { s.done = true; return; }
      afterCall(s, r);
      return;
    }
    case Instruction::Br: {
      auto* B = cast<BranchInst>(I);
      if (B->isUnconditional()) { enterBlock(s, f, f.fn->bidx[B->getSuccessor(0)]); return; }
      const Reg& c = OP(0);
      bool t = c.conc() ? (c.c & 1) : decide(s, c.e);
      enterBlock(s, f, f.fn->bidx[B->getSuccessor(t ? 0 : 1)]);
      return;
    }
    case Instruction::Switch: {
      auto* S = cast<SwitchInst>(I);
      const Reg& c = OP(0);
      unsigned w = tw(S->getCondition()->getType());
      if (c.conc()) {
        BasicBlock* dst = S->getDefaultDest();
        for (auto& cs : S->cases())
          if (cs.getCaseValue()->getZExtValue() == (c.c & m64(w))) { dst = cs.getCaseSuccessor(); break; }
        enterBlock(s, f, f.fn->bidx[dst]);
        return;
      }
      E e = X(c, w);
      auto v = evalBV(e, s.model);
      // group by successor
      std::map<BasicBlock*, E> cond;
      E def = mkConst(1, 1);
      std::vector<BasicBlock*> order;
      for (auto& cs : S->cases()) {
        E q = mkCmp(Op::Eq, e, mkConst(cs.getCaseValue()->getZExtValue(), w));
        auto* b = cs.getCaseSuccessor();
        if (!cond.count(b)) { cond[b] = q; order.push_back(b); }
        else cond[b] = mkOr(cond[b], q);
        def = mkAnd(def, mkNot(q));
      }
      // decide sequentially
      for (auto* b : order) {
        if (b == S->getDefaultDest()) { continue; }
        if (decide(s, cond[b])) {
          enterBlock(s, s.st.back(), s.st.back().fn->bidx[b]);
          return;
        }
      }
      enterBlock(s, s.st.back(), s.st.back().fn->bidx[S->getDefaultDest()]);
      return;
    }
    case Instruction::Unreachable:
      report(s, s.model, "unreachable", "unreachable code reached (undefined behaviour)");
      throw KillPath{"unreachable"};
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul:
    case Instruction::And: case Instruction::Or: case Instruction::Xor:
    case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
    case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem:
    case Instruction::SRem: {
      const Reg &a = OP(0), &b = OP(1);
      if (a.a) {
        Type* et = cast<VectorType>(d.ty)->getElementType();
        std::vector<Reg> v;
        for (size_t i = 0; i < a.a->size(); i++) v.push_back(binop(d.opc, (*a.a)[i], (*b.a)[i], tw(et)));
        set(AGG(std::move(v)));
        return;
      }
      unsigned w = tw(d.ty);
      if (d.opc >= Instruction::UDiv && d.opc <= Instruction::SRem) {
        E y = X(b, w);
        E z = mkCmp(Op::Eq, y, mkConst(0, w));
        Assign m;
        if (feasible(s, z, m) == Res::Sat) {
          report(s, m, "division", "integer division by zero");
          E nz = mkNot(z);
          assume(s, nz);
        }
        if (d.opc == Instruction::SDiv || d.opc == Instruction::SRem) {
          E ov = mkAnd(mkCmp(Op::Eq, y, mkConst(~(u128)0, w)),
                       mkCmp(Op::Eq, X(a, w), mkConst((u128)1 << (w - 1), w)));
          if (feasible(s, ov, m) == Res::Sat) {
            report(s, m, "division", "signed division overflow");
            assume(s, mkNot(ov));
          }
        }
      }
      set(binop(d.opc, a, b, w));
      return;
    }
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul:
    case Instruction::FDiv: case Instruction::FRem: {
      const Reg &a = OP(0), &b = OP(1);
      if (a.a) {
        Type* et = cast<VectorType>(d.ty)->getElementType();
        std::vector<Reg> v;
        for (size_t i = 0; i < a.a->size(); i++) v.push_back(fbin(d.opc, (*a.a)[i], (*b.a)[i], et));
        set(AGG(std::move(v)));
        return;
      }
      set(fbin(d.opc, a, b, d.ty));
      return;
    }
    case Instruction::FNeg: {
      const Reg& a = OP(0);
      if (a.a) {
        Type* et = cast<VectorType>(d.ty)->getElementType();
        std::vector<Reg> v;
        for (auto& x : *a.a) v.push_back(fneg(x, et));
        set(AGG(std::move(v)));
        return;
      }
      set(fneg(a, d.ty));
      return;
    }
    case Instruction::ICmp: {
      auto* C = cast<ICmpInst>(I);
      const Reg &a = OP(0), &b = OP(1);
      Type* t = C->getOperand(0)->getType();
      if (a.a) {
        Type* et = cast<VectorType>(t)->getElementType();
        std::vector<Reg> v;
        for (size_t i = 0; i < a.a->size(); i++) v.push_back(icmp(C->getPredicate(), (*a.a)[i], (*b.a)[i], tw(et)));
        set(AGG(std::move(v)));
        return;
      }
      unsigned w = tw(t);
      if (a.conc() && b.conc()) {
        u64 m = m64(w), x = a.c & m, y = b.c & m;
        int64_t sx = (int64_t)sxt(x, w), sy = (int64_t)sxt(y, w);
        bool r = false;
        switch (C->getPredicate()) {
          case CmpInst::ICMP_EQ: r = x == y; break;
          case CmpInst::ICMP_NE: r = x != y; break;
          case CmpInst::ICMP_ULT: r = x < y; break;
          case CmpInst::ICMP_ULE: r = x <= y; break;
          case CmpInst::ICMP_UGT: r = x > y; break;
          case CmpInst::ICMP_UGE: r = x >= y; break;
          case CmpInst::ICMP_SLT: r = sx < sy; break;
          case CmpInst::ICMP_SLE: r = sx <= sy; break;
          case CmpInst::ICMP_SGT: r = sx > sy; break;
          case CmpInst::ICMP_SGE: r = sx >= sy; break;
          default: break;
        }
        set(Reg(r));
        return;
      }
      set(icmp(C->getPredicate(), a, b, w));
      return;
    }
    case Instruction::FCmp: {
      auto* C = cast<FCmpInst>(I);
      const Reg &a = OP(0), &b = OP(1);
      Type* t = C->getOperand(0)->getType();
      if (a.a) {
        Type* et = cast<VectorType>(t)->getElementType();
        std::vector<Reg> v;
        for (size_t i = 0; i < a.a->size(); i++) v.push_back(fcmp(C->getPredicate(), (*a.a)[i], (*b.a)[i], et));
        set(AGG(std::move(v)));
        return;
      }
      set(fcmp(C->getPredicate(), a, b, t));
      return;
    }
    case Instruction::Select: {
      const Reg& c = OP(0);
      if (c.a) {
        Type* et = cast<VectorType>(d.ty)->getElementType();
        std::vector<Reg> v;
        for (size_t i = 0; i < c.a->size(); i++) v.push_back(select((*c.a)[i], (*OP(1).a)[i], (*OP(2).a)[i], et));
        set(AGG(std::move(v)));
        return;
      }
      if (g_forkSelect && !c.conc() && d.ty->isIntegerTy() && tw(d.ty) >= 32 && OP(1).conc() && OP(2).conc()) {
        bool t = decide(s, c.e);
        set(t ? OP(1) : OP(2));
        return;
      }
      set(select(c, OP(1), OP(2), d.ty));
      return;
    }
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt:
    case Instruction::PtrToInt: case Instruction::IntToPtr:
    case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::SIToFP:
    case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI: {
      const Reg& a = OP(0);
      Type* ft = I->getOperand(0)->getType();
      if (a.a) {
        std::vector<Reg> v;
        for (auto& x : *a.a)
          v.push_back(castOp(d.opc, x, cast<VectorType>(ft)->getElementType(), cast<VectorType>(d.ty)->getElementType()));
        set(AGG(std::move(v)));
        return;
      }
      if (!g_real && (d.opc == Instruction::FPToSI || d.opc == Instruction::FPToUI) && !g_allowUB) {
        // out-of-range conversion is undefined behaviour: report it
        unsigned w = tw(d.ty), fw = tw(ft);
        E x = X(a, fw);
        double lo = d.opc == Instruction::FPToSI ? -std::ldexp(1.0, w - 1) : 0, hi = d.opc == Instruction::FPToSI ? std::ldexp(1.0, w - 1) : std::ldexp(1.0, w);
        // valid: trunc(x) in range:  lo-1 < x < hi   (lo-1 exact only for narrow w)
        E xd = fw == 32 ? mkFUn(Op::FExt, x, 64) : x;
        auto D = [](double v) { u64 b; memcpy(&b, &v, 8); return mkConst(b, 64); };
        E ok = mkFBin(Op::FLt, xd, D(hi));
        if (w <= 32) ok = mkAnd(ok, mkFBin(Op::FLt, D(lo - 1), xd));
        else if (d.opc == Instruction::FPToUI) ok = mkAnd(ok, mkFBin(Op::FLt, D(-1.0), xd));
        else ok = mkAnd(ok, mkFBin(Op::FLe, D(lo), xd));
        Assign m;
        if (feasible(s, mkNot(ok), m) == Res::Sat) {
          report(s, m, "conversion", "floating point to integer conversion out of range");
          assume(s, ok);
        }
      }
      set(castOp(d.opc, a, ft, d.ty));
      return;
    }
    case Instruction::BitCast: set(bitcast(OP(0), I->getOperand(0)->getType(), d.ty)); return;
    case Instruction::Freeze: set(OP(0)); return;
    case Instruction::GetElementPtr: {
      const Reg& b = OP(0);
      if (b.a || d.ty->isVectorTy()) unsupported("vector gep");
      bool allc = b.conc();
      for (auto& g : d.gidx) allc = allc && OP(g.first).conc();
      if (allc) {
        u64 r = b.c + (u64)d.goff;
        for (auto& g : d.gidx) {
          unsigned w = tw(I->getOperand(g.first)->getType());
          r += (u64)sxt(OP(g.first).c, w) * g.second;
        }
        set(Reg(r));
        return;
      }
      E e = X(b, 64);
      E off = mkConst((u64)d.goff, 64);
      for (auto& g : d.gidx) {
        unsigned w = tw(I->getOperand(g.first)->getType());
        E x = X(OP(g.first), w);
        if (w < 64) x = mkSExt(x, 64);
        off = mkBin(Op::Add, off, mkBin(Op::Mul, x, mkConst(g.second, 64)));
      }
      set(R(mkBin(Op::Add, e, off)));
      return;
    }
    case Instruction::Alloca: {
      auto* A = cast<AllocaInst>(I);
      u64 n = concretize(s, OP(0), tw(A->getArraySize()->getType()));
      u64 sz = n * DL->getTypeAllocSize(A->getAllocatedType());
      u64 a = allocObj(s, sz, "stack", false);
      s.st.back().allocas.push_back(a);
      set(Reg(a));
      return;
    }
    case Instruction::Load: {
      Reg r = load(s, OP(0), d.ty);
      set(std::move(r));
      return;
    }
    case Instruction::Store:
      store(s, OP(1), OP(0), I->getOperand(0)->getType());
      f.ii++;
      return;
    case Instruction::Call:
    case Instruction::Invoke:
      doCall(s, d, cast<CallBase>(I));
      return;
    case Instruction::LandingPad:
      set(AGG({Reg(f.exn), Reg((u64)f.sel & 0xffffffffull)}));
      return;
    case Instruction::Resume: {
      u64 exn = (*OP(0).a)[0].c;
      u64 ti = s.excs[exn].ti;
      if (s.st.size() == 1) {
        report(s, s.model, "uncaught", "uncaught exception of type " + tiName(ti));
        throw KillPath{"uncaught"};
      }
      popFrame(s);
      unwind(s, exn, ti);
      return;
    }
    case Instruction::ExtractValue: {
      const Reg* r = &OP(0);
      for (unsigned i : cast<ExtractValueInst>(I)->indices()) r = &(*r->a)[i];
      set(*r);
      return;
    }
    case Instruction::InsertValue: {
      auto* iv = cast<InsertValueInst>(I);
      std::function<Reg(const Reg&, unsigned)> ins = [&](const Reg& a, unsigned k) -> Reg {
        if (k == iv->getNumIndices()) return OP(1);
        std::vector<Reg> v = *a.a;
        v[iv->getIndices()[k]] = ins(v[iv->getIndices()[k]], k + 1);
        return AGG(std::move(v));
      };
      set(ins(OP(0), 0));
      return;
    }
    case Instruction::ExtractElement: {
      const Reg& a = OP(0);
      u64 i = concretize(s, OP(1), tw(I->getOperand(1)->getType()));
      set((*a.a)[i]);
      return;
    }
    case Instruction::InsertElement: {
      std::vector<Reg> v = *OP(0).a;
      u64 i = concretize(s, OP(2), tw(I->getOperand(2)->getType()));
      v[i] = OP(1);
      set(AGG(std::move(v)));
      return;
    }
    case Instruction::ShuffleVector: {
      auto* sv = cast<ShuffleVectorInst>(I);
      const Reg &a = OP(0), &b = OP(1);
      std::vector<Reg> v;
      Type* et = cast<VectorType>(d.ty)->getElementType();
      for (int m : sv->getShuffleMask()) {
        if (m < 0) v.push_back(zeroOf(et));
        else if ((size_t)m < a.a->size()) v.push_back((*a.a)[m]);
        else v.push_back((*b.a)[m - a.a->size()]);
      }
      set(AGG(std::move(v)));
      return;
    }
    case Instruction::Fence: f.ii++; return;
    case Instruction::AtomicRMW: {
      auto* A = cast<AtomicRMWInst>(I);
      Reg addr = OP(0), v = OP(1);
      Reg old = load(s, addr, d.ty);
      Reg nv;
      unsigned w = tw(d.ty);
      switch (A->getOperation()) {
        case AtomicRMWInst::Xchg: nv = v; break;
        case AtomicRMWInst::Add: nv = binop(Instruction::Add, old, v, w); break;
        case AtomicRMWInst::Sub: nv = binop(Instruction::Sub, old, v, w); break;
        case AtomicRMWInst::And: nv = binop(Instruction::And, old, v, w); break;
        case AtomicRMWInst::Or: nv = binop(Instruction::Or, old, v, w); break;
        case AtomicRMWInst::Xor: nv = binop(Instruction::Xor, old, v, w); break;
        default: unsupported("atomicrmw");
      }
      store(s, addr, nv, d.ty);
      set(old);
      return;
    }
    case Instruction::AtomicCmpXchg: {
      auto* A = cast<AtomicCmpXchgInst>(I);
      Type* t = A->getCompareOperand()->getType();
      Reg addr = OP(0);
      Reg old = load(s, addr, t);
      Reg eq = icmp(CmpInst::ICMP_EQ, old, OP(1), tw(t));
      Reg nv = select(eq, OP(2), old, t);
      store(s, addr, nv, t);
      set(AGG({old, eq}));
      return;
    }
    default:
      unsupported(std::string("instruction ") + I->getOpcodeName());
  }
}

static void runState(State* sp, double tEnd) {
  State& s = *sp;
  try {
    u64 cnt = 0;
    while (!s.done) {
      if ((++cnt & 1023) == 0) {
        if (nowS() > tEnd) { inconclusive(s, "time budget"); return; }
        if (g_stop) return;
      }
      if (s.steps > g_maxSteps) {
        report(s, s.model, "hang", "more than " + std::to_string(g_maxSteps) + " instructions on one path");
        return;
      }
      step(s);
    }
    g_paths++;
    for (auto& r : s.reach) g_reach[r]++;
    if (g_nWitness < g_maxWitness && (g_paths <= (u64)g_maxWitness / 3 || (g_paths & (g_paths - 1)) == 0 || g_paths % 97 == 0))
      dumpCE(s, s.model, "witness", "", "");
  } catch (KillPath& k) {
    g_pruned++;
    if (g_trace) std::cerr << "kill: " << k.why << "\n";
    if (k.why == "huge allocation") inconclusive(s, "huge allocation");
  } catch (Unsupported& u) {
    inconclusive(s, "unsupported: " + u.msg);
  }
}

static std::string jesc(const std::string& s) {
  std::string o;
  for (char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}

int main(int argc, char** argv) {
  std::string bc, entry = "harness";
  g_outDir = ".";
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nxt = [&]() { return std::string(argv[++i]); };
    if (a == "--real") g_real = true;
    else if (a == "--numeric") g_real = g_numeric = true;
    else if (a == "--fork-select") g_forkSelect = true;
    else if (a == "--entry") entry = nxt();
    else if (a == "--param") g_params.push_back(std::stol(nxt()));
    else if (a == "--max-steps") g_maxSteps = std::stoull(nxt());
    else if (a == "--max-time") g_maxTime = std::stod(nxt());
    else if (a == "--max-paths") g_maxPaths = std::stoull(nxt());
    else if (a == "--max-viol") g_maxViol = std::stoi(nxt());
    else if (a == "--solver-timeout") g_solverTimeoutMs = std::stoul(nxt());
    else if (a == "--out") g_outDir = nxt();
    else if (a == "--witness") g_maxWitness = std::stoi(nxt());
    else if (a == "--trace") g_trace = true;
    else if (a == "--allow-fpconv") g_allowUB = true;
    else bc = a;
  }
  double t0 = nowS(), tEnd = t0 + g_maxTime;
  LLVMContext ctx;
  SMDiagnostic err;
  auto mod = parseIRFile(bc, err, ctx);
  if (!mod) { err.print("sx", errs()); return 2; }
  M = mod.get();
  DL = &M->getDataLayout();
  registerBuiltins();
  try {
    for (auto& F : *M) funcAddr(&F);
    for (auto& G : M->globals()) globalAddr(&G);
    for (auto& G : M->globals()) {
      if (G.hasInitializer() && G.getName() != "llvm.global_ctors" && G.getName() != "llvm.used" && G.getName() != "llvm.compiler.used") {
        Object* o = g_globals[g_addr[&G]].get();
        try { initGlobal(o, 0, G.getInitializer()); } catch (Unsupported& u) { std::cerr << "global " << G.getName().str() << ": " << u.msg << "\n"; }
        o->ro = G.isConstant();
      }
      if (G.getName() == "__libc_single_threaded") g_globals[g_addr[&G]]->d[0] = 1;
    }
  } catch (Unsupported& u) {
    std::cerr << "setup unsupported: " << u.msg << "\n";
    return 2;
  }
  Function* H = M->getFunction(entry);
  if (!H || H->isDeclaration()) { std::cerr << "no entry " << entry << "\n"; return 2; }
  State* init = new State();
  // run global constructors first (in priority order), then the entry
  std::vector<std::pair<u64, Function*>> ctors;
  if (auto* gc = M->getGlobalVariable("llvm.global_ctors")) {
    if (gc->hasInitializer()) {
      if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer()))
        for (auto& op : ca->operands()) {
          auto* cs = cast<ConstantStruct>(op.get());
          u64 pr = cast<ConstantInt>(cs->getOperand(0))->getZExtValue();
          if (auto* f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) ctors.push_back({pr, f});
        }
    }
  }
  std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
  bool ok = true;
  for (auto& c : ctors) {
    try {
      if (c.second->isDeclaration()) continue;
      init->st.clear();
      init->done = false;
      pushFrame(*init, fnInfo(c.second), {});
      while (!init->done) step(*init);
    } catch (Unsupported& u) {
      inconclusive(*init, "static initialiser " + c.second->getName().str() + " unsupported: " + u.msg);
      ok = false;
    } catch (KillPath& k) {
      inconclusive(*init, "static initialiser killed: " + k.why);
      ok = false;
    }
    if (!g_work.empty()) { inconclusive(*init, "static initialiser forked"); g_work.clear(); ok = false; }
  }
  init->done = false;
  init->steps = 0;
  init->st.clear();
  if (ok) {
    pushFrame(*init, fnInfo(H), {});
    g_work.push_back(init);
  }
  while (!g_work.empty() && !g_stop) {
    State* s = g_work.back();
    g_work.pop_back();
    if (nowS() > tEnd) { inconclusive(*s, "time budget"); break; }
    if (g_paths + g_pruned > g_maxPaths) { inconclusive(*s, "path budget"); break; }
    runState(s, tEnd);
    delete s;
  }
  // summary
  std::ofstream j(g_outDir + "/result.json");
  j << "{\"entry\":\"" << jesc(entry) << "\",\"params\":[";
  for (size_t i = 0; i < g_params.size(); i++) j << (i ? "," : "") << g_params[i];
  j << "],\"real\":" << (g_real ? "true" : "false");
  j << ",\"paths\":" << g_paths << ",\"pruned\":" << g_pruned << ",\"forks\":" << g_forks << ",\"finite_domain_decisions\":" << g_domDecided;
  j << ",\"instructions\":" << g_steps << ",\"assertions\":" << g_assertsChecked;
  j << ",\"assert_queries\":" << g_assertQueries << ",\"memory_checks\":" << g_memChecks;
  j << ",\"queries\":" << g_stats.queries << ",\"sat\":" << g_stats.sat << ",\"unsat\":" << g_stats.unsat
    << ",\"unknown\":" << g_stats.unknown << ",\"cache_hits\":" << g_stats.cacheHits
    << ",\"solver_time\":" << g_stats.time << ",\"max_query_time\":" << g_stats.maxTime
    << ",\"wall\":" << (nowS() - t0);
  j << ",\"reach\":{";
  bool first = true;
  for (auto& r : g_reach) { j << (first ? "" : ",") << "\"" << jesc(r.first) << "\":" << r.second; first = false; }
  j << "},\"discharged\":{";
  first = true;
  for (auto& r : g_asserts) { j << (first ? "" : ",") << "\"" << jesc(r.first) << "\":" << r.second; first = false; }
  j << "},\"functions\":[";
  first = true;
  for (auto& f : g_lineFns) {
    auto p = f.find('|');
    int stt;
    char* d = abi::__cxa_demangle(f.c_str() + p + 1, nullptr, nullptr, &stt);
    j << (first ? "" : ",") << "\"" << jesc(f.substr(0, p) + ": " + (d ? d : f.c_str() + p + 1)) << "\"";
    free(d);
    first = false;
  }
  j << "],\"violations\":[";
  first = true;
  for (auto& v : g_viol) {
    j << (first ? "" : ",") << "{\"kind\":\"" << jesc(v.kind) << "\",\"msg\":\"" << jesc(v.msg) << "\",\"loc\":\"" << jesc(v.loc) << "\"}";
    first = false;
  }
  j << "],\"inconclusive\":[";
  first = true;
  for (auto& v : g_inconclusive) { j << (first ? "" : ",") << "\"" << jesc(v) << "\""; first = false; }
  j << "]}\n";
  j.close();
  std::cerr << "paths=" << g_paths << " pruned=" << g_pruned << " steps=" << g_steps << " queries=" << g_stats.queries
            << " solver=" << g_stats.time << "s wall=" << (nowS() - t0) << "s asserts=" << g_assertsChecked
            << " viol=" << g_viol.size() << " inconcl=" << g_inconclusive.size() << "\n";
  std::_Exit(g_viol.size() ? 1 : g_inconclusive.size() ? 2 : 0);
}
