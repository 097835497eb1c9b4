// symex: symbolic execution of LLVM IR (bitcode/text) for bounded verification harnesses.
#include "solver.hpp"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <pthread.h>
#include <unistd.h>
#include <sys/resource.h>
#include <memory>
#include <deque>
#include <fstream>
#include <sstream>
#include <functional>
using namespace llvm;

static std::string jesc(const std::string &s) {
  std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r;
}

struct Cell { T t; uint32_t idx; };
struct Obj { uint64_t base, size; bool ro = false, win = false; char kind = 'h'; std::string name; std::vector<Cell> b; };
struct RV { T t = 0; std::shared_ptr<std::vector<RV>> agg; };
struct FnInfo { std::unordered_map<const Value *, unsigned> idx; unsigned n = 0; };
struct Frame {
  const Function *F; FnInfo *fi; std::vector<RV> regs; const BasicBlock *bb, *prev = nullptr; BasicBlock::const_iterator it;
  std::vector<uint64_t> allocas; const CallBase *site = nullptr; std::vector<RV> varargs;
};
struct SymRec { std::string name; std::vector<T> bytes; uint64_t chosen; bool isChoice; };
struct State {
  std::vector<Frame> st; std::map<uint64_t, std::shared_ptr<Obj>> mem; std::vector<T> pc; std::vector<SymRec> rec;
  std::map<std::string, unsigned> names; uint64_t next; std::string path; std::vector<T> outs; uint64_t acc = 0; unsigned steps = 0;
  std::shared_ptr<Obj> hot; // last object
  uint64_t win = 0, winSize = 0; // a huge buffer of which only the start is modelled
};

struct Abort { std::string why; };           // inconclusive
struct PathEnd {};                            // this path is finished
struct Viol { std::string kind, label; Assign m; int k; bool hasModel; };
struct Fork {};

struct Engine {
  LLVMContext C; std::unique_ptr<Module> M; const DataLayout *DL = nullptr; bool BE = false; unsigned PW = 64;
  Terms tm; Solver S{tm};
  std::unordered_map<const Function *, std::unique_ptr<FnInfo>> fns;
  std::unordered_map<const GlobalValue *, uint64_t> gaddr; std::unordered_map<uint64_t, const Function *> faddr;
  std::vector<State> work;
  std::map<std::string, T> vars;
  uint64_t instrs = 0, paths = 0, forks = 0, undefs = 0, maxInstrs = 4000000000ull, maxPaths = 200000; uint64_t solverBits = 0;
  double t0 = now(), maxTime = 1e9;
  std::set<std::string> covers, files; std::map<std::string, std::set<std::string>> funcs; std::unordered_set<const BasicBlock *> seenBB;
  std::map<std::string, uint64_t> assertsByLabel;
  unsigned shardI = 0, shardN = 1; bool concrete = false;
  struct In { std::string name; std::vector<uint8_t> bytes; bool choice; uint64_t v; };
  std::vector<In> inputs; size_t inPos = 0;
  std::vector<std::string> outLog;
  struct Found { std::string kind, label, where; std::vector<In> inputs; };
  std::vector<Found> found; unsigned maxFound = 1;
  std::vector<std::string> unknowns;
  std::vector<std::vector<In>> samples; unsigned nSamples = 0;
  State *cur = nullptr; const Instruction *curI = nullptr; std::string srcPrefix = "/repo/";

  // ---------------------------------------------------------------- memory
  std::shared_ptr<Obj> newObj(State &s, uint64_t size, uint64_t align, char kind, const std::string &name, uint64_t mis = 0) {
    auto o = std::make_shared<Obj>(); if (align < 16) align = 16;
    s.next = (s.next + align - 1) / align * align; o->base = s.next + mis; o->size = size; s.next = o->base + size + 64 + (size >> 3);
    o->kind = kind; o->name = name; o->b.assign(size, Cell{0, 0}); s.mem[o->base] = o; return o;
  }
  // A path that reads on past the modelled start of a huge buffer ends: so far it did all it should.
  static constexpr uint64_t WINSPAN = 1ull << 44;
  [[noreturn]] void readOn() { covers.insert("reads on"); paths++; throw PathEnd{}; }
  void winCheck(State &s, uint64_t a, uint64_t n) { if (s.win && a >= s.win && a + n > s.win + s.winSize && a < s.win + WINSPAN) readOn(); }
  void winAddr(State &s, T addr) {
    if (!s.win || tm.isC(addr)) return;
    T d = tm.sub(addr, pconst(s.win)); if (decide(s, tm.nary(AND, {tm.ult(pconst(s.winSize - 16), d), tm.ult(d, pconst(WINSPAN))}))) readOn();
  }
  Obj *findC(State &s, uint64_t a, uint64_t n) {
    if (s.hot && a >= s.hot->base && a + n <= s.hot->base + s.hot->size) return s.hot.get();
    auto it = s.mem.upper_bound(a); if (it == s.mem.begin()) return nullptr; --it;
    Obj *o = it->second.get(); if (a < o->base || a + n > o->base + o->size || a + n < a) return nullptr;
    s.hot = it->second; return o;
  }
  Obj *findW(State &s, uint64_t a, uint64_t n) {
    auto it = s.mem.upper_bound(a); if (it == s.mem.begin()) return nullptr; --it;
    Obj *o = it->second.get(); if (a < o->base || a + n > o->base + o->size || a + n < a) return nullptr;
    s.hot.reset();
    if (it->second.use_count() > 1) it->second = std::make_shared<Obj>(*o);
    return it->second.get();
  }
  [[noreturn]] void viol(const std::string &kind, const std::string &label, const Assign *m = nullptr, int k = -1) { Viol v; v.kind = kind; v.label = label; v.hasModel = m || k >= 0; if (m) v.m = *m; v.k = k < 0 ? 0 : k; throw v; }
  std::string hx(uint64_t v) { char b[32]; snprintf(b, 32, "0x%lx", (unsigned long)v); return b; }

  T byteAt(State &s, Obj *o, uint64_t off) {
    Cell &c = o->b[off];
    if (!c.t) { // uninitialised: an arbitrary but fixed value
      Obj *w = findW(s, o->base + off, 1); T v = tm.freshVar(8, "undef"); undefs++; w->b[off] = Cell{v, 0}; return v;
    }
    if (c.idx == 0 && tm.w(c.t) == 8) return c.t;
    return tm.extract(c.t, 8 * c.idx, 8);
  }
  T loadC(State &s, uint64_t a, unsigned bits, bool mustExist = true) {
    unsigned n = (bits + 7) / 8;
    Obj *o = findC(s, a, n);
    if (!o) { winCheck(s, a, n); viol("memory", "read of " + std::to_string(n) + " bytes at invalid address"); }
    uint64_t off = a - o->base;
    // fast path
    Cell f = o->b[BE ? off + n - 1 : off];
    if (f.t && f.idx == 0 && tm.w(f.t) == 8 * n) {
      bool ok = true; for (unsigned i = 0; i < n && ok; i++) { Cell &c = o->b[BE ? off + n - 1 - i : off + i]; ok = c.t == f.t && c.idx == i; }
      if (ok) return bits == 8 * n ? f.t : tm.extract(f.t, 0, bits);
    }
    std::vector<T> p;
    for (unsigned i = 0; i < n; i++) { uint64_t q = BE ? off + i : off + n - 1 - i; o = findC(s, a, n); p.push_back(byteAt(s, o, q)); }
    T r = n == 1 ? p[0] : tm.concat(p);
    return bits == 8 * n ? r : tm.extract(r, 0, bits);
  }
  void storeC(State &s, uint64_t a, T v) {
    unsigned bits = tm.w(v), n = (bits + 7) / 8; if (bits % 8) v = tm.zext(v, 8 * n);
    Obj *o = findW(s, a, n);
    if (!o) viol("memory", "write of " + std::to_string(n) + " bytes at invalid address");
    if (o->ro) viol("memory", "write to constant memory");
    uint64_t off = a - o->base;
    for (unsigned i = 0; i < n; i++) o->b[BE ? off + n - 1 - i : off + i] = Cell{v, i};
  }
  // all feasible values of t under pc (limit)
  std::vector<APInt> values(State &s, T t, unsigned limit) {
    std::vector<APInt> r; std::vector<T> pc = S.slice(s.pc, t);
    // candidate values from signatures first, then the solver
    std::vector<T> ex = pc;
    for (;;) {
      Assign m; std::vector<T> c = ex;
      bool got = false; APInt v;
      { int k = S.sigSat(c); if (k >= 0) { v = tm.sg(t, k); got = true; } }
      if (!got) {
        int q;
        q = S.check(c, &m, S.final_timeout_ms);
        if (q < 0) throw Abort{"solver timeout while enumerating an address or size"};
        if (q == 0) break;
        std::unordered_map<T, APInt> memo; v = S.eval(t, m, 0, memo);
        // the model may not be complete for t: verify
        if (!S.evalAll(c, m, 0, memo)) throw Abort{"model does not satisfy path condition"};
      }
      r.push_back(v);
      if (r.size() > limit) throw Abort{"too many values for a symbolic address or size"};
      T ne = tm.bnot(tm.eq(t, tm.C(v)));
      if (tm.isZero(ne)) break;
      ex.push_back(ne);
    }
    return r;
  }
  // make t concrete by forking; the current instruction is re-executed
  uint64_t concretize(State &s, T t, unsigned limit = 520) {
    if (tm.isC(t)) return tm.cv(t).getZExtValue();
    for (T c : s.pc) if (tm.op(c) == EQ && tm.arg(c, 0) == t && tm.isC(tm.arg(c, 1))) return tm.cv(tm.arg(c, 1)).getZExtValue();
    auto vs = values(s, t, limit);
    if (vs.empty()) throw PathEnd{};
    if (vs.size() > 1) forks += vs.size() - 1;
    for (size_t i = 1; i < vs.size(); i++) { State n = s; n.pc.push_back(tm.eq(t, tm.C(vs[i]))); work.push_back(std::move(n)); }
    s.pc.push_back(tm.eq(t, tm.C(vs[0])));
    return vs[0].getZExtValue();
  }
  T load(State &s, T addr, unsigned bits) {
    if (tm.isC(addr)) return loadC(s, tm.cv(addr).getZExtValue(), bits);
    for (T c : s.pc) if (tm.op(c) == EQ && tm.arg(c, 0) == addr && tm.isC(tm.arg(c, 1))) return loadC(s, tm.cv(tm.arg(c, 1)).getZExtValue(), bits);
    winAddr(s, addr);
    auto vs = values(s, addr, 1100);
    if (vs.empty()) throw PathEnd{};
    unsigned n = (bits + 7) / 8;
    for (auto &v : vs) if (!findC(s, v.getZExtValue(), n)) {
      Assign m; std::vector<T> pc = s.pc; pc.push_back(tm.eq(addr, tm.C(v)));
      if (S.check(pc, &m, S.final_timeout_ms) == 1) viol("memory", "read of " + std::to_string(n) + " bytes at invalid address (symbolic)", &m, 0);
      throw Abort{"cannot confirm invalid symbolic read"};
    }
    std::sort(vs.begin(), vs.end(), [](const APInt &a, const APInt &b) { return a.ult(b); });
    T r = loadC(s, vs.back().getZExtValue(), bits);
    for (int i = (int)vs.size() - 2; i >= 0; i--) { T x = loadC(s, vs[i].getZExtValue(), bits); T c = tm.eq(addr, tm.C(vs[i])); r = tm.ite(c, x, r); }
    return r;
  }
  void copyMem(State &s, uint64_t d, uint64_t src, uint64_t n) {
    if (n == 0) return;
    Obj *o = findC(s, src, n); if (!o) winCheck(s, src, n); if (!o) viol("memory", "memcpy/memmove reads " + std::to_string(n) + " bytes at invalid address");
    std::vector<Cell> tmp(o->b.begin() + (src - o->base), o->b.begin() + (src - o->base) + n);
    Obj *w = findW(s, d, n); if (!w) viol("memory", "memcpy/memmove writes " + std::to_string(n) + " bytes at invalid address");
    if (w->ro) viol("memory", "memcpy to constant memory");
    std::copy(tmp.begin(), tmp.end(), w->b.begin() + (d - w->base));
  }
  void setMem(State &s, uint64_t d, T v, uint64_t n) {
    if (n == 0) return;
    Obj *w = findW(s, d, n); if (!w) viol("memory", "memset writes " + std::to_string(n) + " bytes at invalid address");
    if (w->ro) viol("memory", "memset of constant memory");
    for (uint64_t i = 0; i < n; i++) w->b[d - w->base + i] = Cell{v, 0};
  }
  std::string cstr(State &s, T a) {
    uint64_t p = concretize(s, a); std::string r;
    for (;;) { T b = loadC(s, p++, 8); if (!tm.isC(b)) throw Abort{"symbolic C string"}; char c = (char)tm.cv(b).getZExtValue(); if (!c) return r; r += c; }
  }

  // ---------------------------------------------------------------- constants
  T pconst(uint64_t v) { return tm.Cm(PW, v); }
  uint64_t fnAddr(const Function *F) { auto it = gaddr.find(F); if (it != gaddr.end()) return it->second; uint64_t a = 0x1000 + 16 * gaddr.size(); gaddr[F] = a; faddr[a] = F; return a; }
  RV constant(const llvm::Constant *c) {
    RV r; Type *ty = c->getType();
    if (auto *ci = dyn_cast<ConstantInt>(c)) { r.t = tm.C(ci->getValue()); return r; }
    if (auto *cf = dyn_cast<ConstantFP>(c)) { r.t = tm.C(cf->getValueAPF().bitcastToAPInt()); return r; }
    if (isa<ConstantPointerNull>(c)) { r.t = pconst(0); return r; }
    if (auto *f = dyn_cast<Function>(c)) { r.t = pconst(fnAddr(f)); return r; }
    if (auto *g = dyn_cast<GlobalVariable>(c)) { auto it = gaddr.find(g); if (it == gaddr.end()) throw Abort{"unknown global " + g->getName().str()}; r.t = pconst(it->second); return r; }
    if (auto *ga = dyn_cast<GlobalAlias>(c)) return constant(ga->getAliasee());
    if (isa<UndefValue>(c)) {
      if (ty->isStructTy() || ty->isArrayTy() || ty->isVectorTy()) {
        r.agg = std::make_shared<std::vector<RV>>(); unsigned n = numElts(ty);
        for (unsigned i = 0; i < n; i++) r.agg->push_back(constant(UndefValue::get(eltTy(ty, i)))); return r;
      }
      undefs++; r.t = tm.freshVarCached(bitsOf(ty), "undefval"); return r;
    }
    if (ty->isStructTy() || ty->isArrayTy() || ty->isVectorTy()) {
      r.agg = std::make_shared<std::vector<RV>>(); unsigned n = numElts(ty);
      for (unsigned i = 0; i < n; i++) { llvm::Constant *e = c->getAggregateElement(i); if (!e) throw Abort{"aggregate constant"}; r.agg->push_back(constant(e)); }
      return r;
    }
    if (auto *ce = dyn_cast<ConstantExpr>(c)) {
      auto op = [&](unsigned i) { return constant(ce->getOperand(i)).t; };
      switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: { APInt off(PW, 0); if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) throw Abort{"constexpr gep"}; T b = op(0); r.t = tm.add(b, tm.C(off.sextOrTrunc(PW))); return r; }
      case Instruction::PtrToInt: { T x = op(0); unsigned W = bitsOf(ty); r.t = W == PW ? x : W < PW ? tm.extract(x, 0, W) : tm.zext(x, W); return r; }
      case Instruction::IntToPtr: { T x = op(0); unsigned W = tm.w(x); r.t = W == PW ? x : W < PW ? tm.zext(x, PW) : tm.extract(x, 0, PW); return r; }
      case Instruction::BitCast: case Instruction::AddrSpaceCast: r.t = op(0); return r;
      case Instruction::Add: r.t = tm.add(op(0), op(1)); return r;
      case Instruction::Sub: r.t = tm.sub(op(0), op(1)); return r;
      case Instruction::Xor: r.t = tm.nary(XOR, {op(0), op(1)}); return r;
      case Instruction::Mul: r.t = tm.mul(op(0), op(1)); return r;
      case Instruction::Trunc: r.t = tm.extract(op(0), 0, bitsOf(ty)); return r;
      default: break;
      }
      if (ce->isCompare()) { r.t = icmp((CmpInst::Predicate)ce->getPredicate(), op(0), op(1)); return r; }
    }
    std::string s; raw_string_ostream os(s); c->print(os); throw Abort{"unsupported constant " + s};
  }
  unsigned numElts(Type *t) { if (auto *s = dyn_cast<StructType>(t)) return s->getNumElements(); if (auto *a = dyn_cast<ArrayType>(t)) return a->getNumElements(); return cast<FixedVectorType>(t)->getNumElements(); }
  Type *eltTy(Type *t, unsigned i) { if (auto *s = dyn_cast<StructType>(t)) return s->getElementType(i); if (auto *a = dyn_cast<ArrayType>(t)) return a->getElementType(); return cast<FixedVectorType>(t)->getElementType(); }
  uint64_t eltOff(Type *t, unsigned i) { if (auto *s = dyn_cast<StructType>(t)) return DL->getStructLayout(s)->getElementOffset(i); return i * DL->getTypeAllocSize(eltTy(t, i)); }
  unsigned bitsOf(Type *t) { if (t->isPointerTy()) return PW; if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isFloatTy()) return 32; if (t->isDoubleTy()) return 64; throw Abort{"unsupported type"}; }
  bool isAgg(Type *t) { return t->isStructTy() || t->isArrayTy() || t->isVectorTy(); }

  RV loadTy(State &s, T addr, Type *ty) {
    RV r;
    if (isAgg(ty)) { r.agg = std::make_shared<std::vector<RV>>(); unsigned n = numElts(ty); for (unsigned i = 0; i < n; i++) r.agg->push_back(loadTy(s, tm.add(addr, pconst(eltOff(ty, i))), eltTy(ty, i))); return r; }
    r.t = load(s, addr, bitsOf(ty)); return r;
  }
  void storeTy(State &s, uint64_t addr, Type *ty, const RV &v) {
    if (isAgg(ty)) { unsigned n = numElts(ty); for (unsigned i = 0; i < n; i++) storeTy(s, addr + eltOff(ty, i), eltTy(ty, i), (*v.agg)[i]); return; }
    storeC(s, addr, v.t);
  }
  void initMem(State &s, uint64_t addr, const llvm::Constant *c) {
    Type *ty = c->getType();
    if (isa<UndefValue>(c)) return;
    if (c->isNullValue()) { setMem(s, addr, tm.Cm(8, 0), DL->getTypeStoreSize(ty)); return; }
    if (isAgg(ty)) { unsigned n = numElts(ty); for (unsigned i = 0; i < n; i++) initMem(s, addr + eltOff(ty, i), c->getAggregateElement(i)); return; }
    RV v = constant(c); storeC(s, addr, v.t);
  }

  // ---------------------------------------------------------------- execution
  FnInfo *info(const Function *F) {
    auto &p = fns[F]; if (p) return p.get(); p = std::make_unique<FnInfo>();
    for (auto &a : F->args()) p->idx[&a] = p->n++;
    for (auto &b : *F) for (auto &i : b) if (!i.getType()->isVoidTy()) p->idx[&i] = p->n++;
    return p.get();
  }
  RV val(Frame &f, const Value *v) {
    if (auto *c = dyn_cast<llvm::Constant>(v)) return constant(c);
    auto it = f.fi->idx.find(v); if (it == f.fi->idx.end()) throw Abort{"unknown value"};
    return f.regs[it->second];
  }
  T tv(Frame &f, const Value *v) { return val(f, v).t; }
  void set(Frame &f, const Instruction *i, RV v) { f.regs[f.fi->idx[i]] = std::move(v); }
  void setT(Frame &f, const Instruction *i, T t) { RV r; r.t = t; set(f, i, r); }

  T icmp(CmpInst::Predicate p, T a, T b) {
    switch (p) {
    case CmpInst::ICMP_EQ: return tm.eq(a, b);
    case CmpInst::ICMP_NE: return tm.bnot(tm.eq(a, b));
    case CmpInst::ICMP_ULT: return tm.ult(a, b);
    case CmpInst::ICMP_ULE: return tm.ule(a, b);
    case CmpInst::ICMP_UGT: return tm.ult(b, a);
    case CmpInst::ICMP_UGE: return tm.ule(b, a);
    case CmpInst::ICMP_SLT: return tm.slt(a, b);
    case CmpInst::ICMP_SLE: return tm.sle(a, b);
    case CmpInst::ICMP_SGT: return tm.slt(b, a);
    case CmpInst::ICMP_SGE: return tm.sle(b, a);
    default: throw Abort{"icmp predicate"};
    }
  }
  T binop(unsigned opc, T a, T b) {
    switch (opc) {
    case Instruction::Add: return tm.add(a, b);
    case Instruction::Sub: return tm.sub(a, b);
    case Instruction::Mul: return tm.mul(a, b);
    case Instruction::And: return tm.nary(AND, {a, b});
    case Instruction::Or: return tm.nary(OR, {a, b});
    case Instruction::Xor: return tm.nary(XOR, {a, b});
    case Instruction::Shl: return tm.shl(a, b);
    case Instruction::LShr: return tm.lshr(a, b);
    case Instruction::AShr: return tm.ashr(a, b);
    case Instruction::UDiv: return tm.bin(UDIV, a, b);
    case Instruction::SDiv: return tm.bin(SDIV, a, b);
    case Instruction::URem: return tm.bin(UREM, a, b);
    case Instruction::SRem: return tm.bin(SREM, a, b);
    case Instruction::FAdd: return tm.fbin(FADD, a, b);
    case Instruction::FSub: return tm.fbin(FSUB, a, b);
    case Instruction::FMul: return tm.fbin(FMUL, a, b);
    case Instruction::FDiv: return tm.fbin(FDIV, a, b);
    default: throw Abort{"binary operator"};
    }
  }
  RV lift2(const RV &a, const RV &b, const std::function<T(T, T)> &f) {
    RV r; if (!a.agg) { r.t = f(a.t, b.t); return r; }
    r.agg = std::make_shared<std::vector<RV>>(); for (size_t i = 0; i < a.agg->size(); i++) r.agg->push_back(lift2((*a.agg)[i], (*b.agg)[i], f)); return r;
  }
  RV lift1(const RV &a, const std::function<T(T)> &f) {
    RV r; if (!a.agg) { r.t = f(a.t); return r; }
    r.agg = std::make_shared<std::vector<RV>>(); for (size_t i = 0; i < a.agg->size(); i++) r.agg->push_back(lift1((*a.agg)[i], f)); return r;
  }
  RV selectRV(T c, const RV &a, const RV &b) { return lift2(a, b, [&](T x, T y) { return tm.ite(c, x, y); }); }

  // decide a condition on this path; forks when both are possible
  bool decide(State &s, T c) {
    if (tm.isC(c)) return !tm.cv(c).isZero();
    T nc = tm.bnot(c);
    for (T x : s.pc) { if (x == c) return true; if (x == nc) return false; }
    int a = S.feasible(s.pc, c), b = a == 0 ? 1 : S.feasible(s.pc, nc);
    if (a < 0 || b < 0) throw Abort{"solver timeout on branch feasibility"};
    if (a && b) { State n = s; n.pc.push_back(nc); n.hot.reset(); work.push_back(std::move(n)); forks++; s.pc.push_back(c); return true; }
    return a != 0;
  }
  void enterBB(const BasicBlock *b) {
    if (!seenBB.insert(b).second) return;
    for (auto &i : *b) {
      const DILocation *l = i.getDebugLoc().get();
      while (l) {
        if (auto *sp = l->getScope()->getSubprogram()) {
          std::string f = l->getFilename().str(); if (f.size() && f[0] != '/' ) f = l->getDirectory().str() + "/" + f;
          if (f.compare(0, srcPrefix.size(), srcPrefix) == 0) { std::string nm = sp->getLinkageName().empty() ? sp->getName().str() : demangle(sp->getLinkageName().str()); funcs[f.substr(srcPrefix.size())].insert(nm); }
        }
        l = l->getInlinedAt();
      }
    }
  }
  void jump(State &s, Frame &f, const BasicBlock *to) {
    const BasicBlock *from = f.bb; f.prev = from; f.bb = to; enterBB(to);
    auto it = to->begin(); std::vector<std::pair<const Instruction *, RV>> ph;
    for (; isa<PHINode>(it); ++it) { auto *p = cast<PHINode>(&*it); ph.push_back({p, val(f, p->getIncomingValueForBlock(from))}); }
    for (auto &q : ph) set(f, q.first, q.second);
    f.it = it;
  }
  void pushCall(State &s, const Function *F, const std::vector<RV> &args, const CallBase *site) {
    if (s.st.size() > 400) throw Abort{"call depth"};
    Frame n; n.F = F; n.fi = info(F); n.regs.resize(n.fi->n); n.site = site;
    unsigned i = 0; 
    for (auto &a : F->args()) {
      RV v = args[i];
      if (a.hasByValAttr()) { uint64_t sz = DL->getTypeAllocSize(a.getParamByValType()); auto o = newObj(s, sz, 16, 's', "byval"); n.allocas.push_back(o->base); uint64_t ob = o->base; o.reset(); copyMem(s, ob, concretize(s, v.t), sz); v.t = pconst(ob); }
      n.regs[i++] = v;
    }
    n.bb = &F->getEntryBlock(); n.it = n.bb->begin(); enterBB(n.bb);
    s.st.push_back(std::move(n));
  }
  void ret(State &s, RV v) {
    Frame &f = s.st.back(); s.hot.reset(); for (uint64_t a : f.allocas) s.mem.erase(a);
    const CallBase *site = f.site; s.st.pop_back();
    if (s.st.empty()) throw PathEnd{};
    if (!site) return; // a static constructor: the next frame starts
    Frame &g = s.st.back(); if (!site->getType()->isVoidTy()) set(g, site, v);
    if (auto *inv = dyn_cast<InvokeInst>(site)) jump(s, g, inv->getNormalDest()); else ++g.it;
  }
  T var(const std::string &name, unsigned w) { auto it = vars.find(name); if (it != vars.end()) return it->second; T v = tm.freshVar(w, name); vars[name] = v; return v; }

  void assertTrue(State &s, T c, const std::string &label) {
    assertsByLabel[label]++;
    if (tm.isC(c)) { S.st.asserts++; if (!tm.cv(c).isZero()) { S.st.eq_struct++; return; } viol("assert", label); }
    S.st.asserts++;
    T nc = tm.bnot(c);
    // quick counterexample
    { std::vector<T> q = s.pc; q.push_back(nc); int k = S.sigSat(q); if (k >= 0) { S.st.sigcex++; Assign e; viol("assert", label, &e, k); } }
    Solver::Sweep sw(S); S.applyPC(sw, s.pc); T sc = sw.simp(c);
    if (tm.isOnes(sc)) { S.st.eq_sweep++; return; }
    std::vector<T> q = S.slice(s.pc, nc); std::vector<T> qs = q; q.push_back(nc);
    Assign m; int r = S.check(q, &m, S.final_timeout_ms);
    if (r == 0) { S.st.eq_solver++; return; }
    if (r == 1) { Assign fm; std::vector<T> full = s.pc; full.push_back(nc); if (full.size() != q.size()) { if (S.check(full, &fm, S.final_timeout_ms) == 1) m = fm; } viol("assert", label, &m, 0); }
    // second attempt on the simplified term
    std::vector<T> q2 = qs; q2.push_back(tm.bnot(sc)); r = S.check(q2, &m, S.final_timeout_ms);
    if (r == 0) { S.st.eq_solver++; return; }
    if (r == 1) viol("assert", label, &m, 0);
    unknowns.push_back("assert " + label);
  }

  std::vector<In> materialise(State &s, const Assign &m, int k) {
    std::vector<In> r; std::unordered_map<T, APInt> memo;
    for (auto &x : s.rec) {
      In i; i.name = x.name; i.choice = x.isChoice; i.v = x.chosen;
      for (T b : x.bytes) i.bytes.push_back((uint8_t)S.eval(b, m, k, memo).getZExtValue());
      r.push_back(i);
    }
    return r;
  }
  void addSample(State &s) {
    if (concrete || samples.size() >= nSamples) return;
    // a concrete input following this path, for co-simulation with the native code
    int k = S.sigSat(s.pc); Assign m; 
    if (k < 0) { if (S.check(s.pc, &m, 5000) != 1) return; k = 0; }
    samples.push_back(materialise(s, m, k));
  }

  // ---- calls
  bool callExternal(State &s, Frame &f, const CallBase *I, const Function *F, std::vector<RV> &a);
  void execCall(State &s, Frame &f, const CallBase *I);
  void step(State &s);
  void runPath(State &&s0);
  void report(State &s, const Viol &v);
  int main(int argc, char **argv);
};

static bool starts(StringRef s, const char *p) { return s.starts_with(p); }

void Engine::execCall(State &s, Frame &f, const CallBase *I) {
  const Function *F = dyn_cast<Function>(I->getCalledOperand()->stripPointerCasts());
  if (!F) {
    if (isa<InlineAsm>(I->getCalledOperand())) { if (I->getType()->isVoidTy()) { ++f.it; return; } throw Abort{"inline asm"}; }
    uint64_t a = concretize(s, tv(f, I->getCalledOperand())); auto it = faddr.find(a); if (it == faddr.end()) viol("memory", "indirect call to invalid address"); F = it->second;
  }
  std::vector<RV> args; for (auto &u : I->args()) { if (u->getType()->isMetadataTy()) args.push_back(RV()); else args.push_back(val(f, u.get())); }
  if (callExternal(s, f, I, F, args)) return;
  if (F->isDeclaration()) throw Abort{"call of external function " + demangle(F->getName().str())};
  pushCall(s, F, args, I);
}

// returns true when handled (the instruction pointer has been advanced)
bool Engine::callExternal(State &s, Frame &f, const CallBase *I, const Function *F, std::vector<RV> &a) {
  StringRef n = F->getName();
  auto done = [&]() { if (auto *inv = dyn_cast<InvokeInst>(I)) jump(s, f, inv->getNormalDest()); else ++f.it; return true; };
  auto ret1 = [&](T t) { setT(f, I, t); return done(); };
  auto retv = [&](const RV &r) { set(f, I, r); return done(); };
  if (F->isIntrinsic()) {
    switch (F->getIntrinsicID()) {
    case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end:
    case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::donothing: case Intrinsic::prefetch:
      return done();
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
      uint64_t n = concretize(s, a[2].t); if (n) { uint64_t d = concretize(s, a[0].t), q = concretize(s, a[1].t);
        if (F->getIntrinsicID() != Intrinsic::memmove && d != q && d < q + n && q < d + n) viol("ub", "memcpy with overlapping ranges");
        copyMem(s, d, q, n); } return done(); }
    case Intrinsic::memset: case Intrinsic::memset_inline: { uint64_t n = concretize(s, a[2].t); if (n) setMem(s, concretize(s, a[0].t), a[1].t, n); return done(); }
    case Intrinsic::fshl: case Intrinsic::fshr: {
      bool L = F->getIntrinsicID() == Intrinsic::fshl; unsigned W = tm.w(a[0].t);
      if (tm.isC(a[2].t)) {
        unsigned k = tm.cv(a[2].t).urem(W); T r;
        if (k == 0) r = L ? a[0].t : a[1].t;
        else { unsigned l = L ? k : W - k; r = tm.concat({tm.extract(a[0].t, 0, W - l), tm.extract(a[1].t, W - l, l)}); }
        return ret1(r);
      }
      T k = tm.bin(UREM, a[2].t, tm.Cm(W, W)); T c = tm.concat({a[0].t, a[1].t}); T k2 = tm.zext(k, 2 * W);
      T r = L ? tm.extract(tm.shl(c, k2), W, W) : tm.extract(tm.lshr(c, k2), 0, W);
      return ret1(r); }
    case Intrinsic::bswap: return retv(lift1(a[0], [&](T t) { unsigned W = tm.w(t); std::vector<T> p; for (unsigned i = 0; i < W; i += 8) p.push_back(tm.extract(t, i, 8)); return tm.concat(p); }));
    case Intrinsic::bitreverse: return retv(lift1(a[0], [&](T t) { unsigned W = tm.w(t); std::vector<T> p; for (unsigned i = 0; i < W; i++) p.push_back(tm.extract(t, i, 1)); return tm.concat(p); }));
    case Intrinsic::umin: return retv(lift2(a[0], a[1], [&](T x, T y) { return tm.ite(tm.ult(x, y), x, y); }));
    case Intrinsic::umax: return retv(lift2(a[0], a[1], [&](T x, T y) { return tm.ite(tm.ult(x, y), y, x); }));
    case Intrinsic::smin: return retv(lift2(a[0], a[1], [&](T x, T y) { return tm.ite(tm.slt(x, y), x, y); }));
    case Intrinsic::smax: return retv(lift2(a[0], a[1], [&](T x, T y) { return tm.ite(tm.slt(x, y), y, x); }));
    case Intrinsic::abs: return ret1(tm.ite(tm.extract(a[0].t, tm.w(a[0].t) - 1, 1), tm.sub(tm.Cm2(tm.w(a[0].t)), a[0].t), a[0].t));
    case Intrinsic::usub_sat: return retv(lift2(a[0], a[1], [&](T x, T y) { return tm.ite(tm.ult(x, y), tm.Cm2(tm.w(x)), tm.sub(x, y)); }));
    case Intrinsic::uadd_sat: return retv(lift2(a[0], a[1], [&](T x, T y) { T z = tm.add(x, y); return tm.ite(tm.ult(z, x), tm.C(APInt::getAllOnes(tm.w(x))), z); }));
    case Intrinsic::ctpop: { unsigned W = tm.w(a[0].t); T r = tm.Cm2(W); for (unsigned i = 0; i < W; i++) r = tm.add(r, tm.zext(tm.extract(a[0].t, i, 1), W)); return ret1(r); }
    case Intrinsic::ctlz: { unsigned W = tm.w(a[0].t); T r = tm.Cm(W, W); for (unsigned i = 0; i < W; i++) r = tm.ite(tm.extract(a[0].t, i, 1), tm.Cm(W, W - 1 - i), r); return ret1(r); }
    case Intrinsic::cttz: { unsigned W = tm.w(a[0].t); T r = tm.Cm(W, W); for (int i = W - 1; i >= 0; i--) r = tm.ite(tm.extract(a[0].t, i, 1), tm.Cm(W, i), r); return ret1(r); }
    case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: {
      T x = a[0].t, y = a[1].t; unsigned W = tm.w(x); T v, o; auto id = F->getIntrinsicID();
      bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
      bool mul = id == Intrinsic::umul_with_overflow || id == Intrinsic::smul_with_overflow, sub = id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow;
      unsigned W2 = mul ? 2 * W : W + 2;
      T X = sg ? tm.sext(x, W2) : tm.zext(x, W2), Y = sg ? tm.sext(y, W2) : tm.zext(y, W2);
      v = mul ? tm.mul(x, y) : sub ? tm.sub(x, y) : tm.add(x, y);
      if (!mul && !sg) o = sub ? tm.ult(x, y) : tm.ult(v, x);
      else { T w = mul ? tm.mul(X, Y) : sub ? tm.sub(X, Y) : tm.add(X, Y); o = tm.bnot(tm.eq(w, sg ? tm.sext(v, W2) : tm.zext(v, W2))); }
      RV r; r.agg = std::make_shared<std::vector<RV>>(2); (*r.agg)[0].t = v; (*r.agg)[1].t = o; return retv(r); }
    case Intrinsic::threadlocal_address: return retv(a[0]);
    case Intrinsic::expect_with_probability: case Intrinsic::expect: return retv(a[0]);
    case Intrinsic::is_constant: return ret1(tm.Cm(1, 0));
    case Intrinsic::objectsize: return ret1(tm.C(APInt::getAllOnes(bitsOf(I->getType()))));
    case Intrinsic::trap: viol("ub", "trap");
    case Intrinsic::ubsantrap: { static const char *names[] = {"add_overflow","builtin_unreachable","cfi_check_fail","divrem_overflow","dynamic_type_cache_miss","float_cast_overflow","function_type_mismatch","implicit_conversion","invalid_builtin","invalid_objc_cast","load_invalid_value","missing_return","mul_overflow","negate_overflow","nullability_arg","nullability_return","nonnull_arg","nonnull_return","out_of_bounds","pointer_overflow","shift_out_of_bounds","sub_overflow","type_mismatch","alignment_assumption","vla_bound_not_positive"};
      uint64_t k = tm.cv(a[0].t).getZExtValue(); viol("ub", std::string("undefined behaviour: ") + (k < sizeof(names) / sizeof(*names) ? names[k] : "?")); }
    case Intrinsic::stacksave: return ret1(pconst(0));
    case Intrinsic::stackrestore: return done();
    case Intrinsic::fabs: return ret1(tm.zext(tm.extract(a[0].t, 0, tm.w(a[0].t) - 1), tm.w(a[0].t)));
    default: break;
    }
    if (starts(n, "llvm.is.fpclass")) {
      T x = a[0].t; unsigned W = tm.w(x); uint64_t mask = tm.cv(a[1].t).getZExtValue();
      unsigned E = W == 32 ? 8 : 11, Mb = W == 32 ? 23 : 52; T sgn = tm.extract(x, W - 1, 1), ex = tm.extract(x, Mb, E), ma = tm.extract(x, 0, Mb);
      T ez = tm.eq(ex, tm.Cm2(E)), eo = tm.eq(ex, tm.C(APInt::getAllOnes(E))), mz = tm.eq(ma, tm.Cm2(Mb)), q = tm.extract(x, Mb - 1, 1);
      auto A = [&](std::vector<T> v) { return tm.nary(AND, v); }; T ns = tm.bnot(sgn); T r = tm.Cm(1, 0);
      auto put = [&](unsigned b, T c) { if (mask >> b & 1) r = tm.nary(OR, {r, c}); };
      put(0, A({eo, tm.bnot(mz), tm.bnot(q)})); put(1, A({eo, tm.bnot(mz), q})); put(2, A({sgn, eo, mz})); put(3, A({sgn, tm.bnot(ez), tm.bnot(eo)})); put(4, A({sgn, ez, tm.bnot(mz)})); put(5, A({sgn, ez, mz}));
      put(6, A({ns, ez, mz})); put(7, A({ns, ez, tm.bnot(mz)})); put(8, A({ns, tm.bnot(ez), tm.bnot(eo)})); put(9, A({ns, eo, mz}));
      return ret1(r);
    }
    if (starts(n, "llvm.load.relative")) { T q = tm.add(a[0].t, tm.sext(a[1].t, PW)); uint64_t ad = concretize(s, q); return ret1(tm.add(a[0].t, tm.sext(loadC(s, ad, 32), PW))); }
    throw Abort{"intrinsic " + n.str()};
  }
  if (starts(n, "vf_")) {
    auto str = [&](unsigned i) { return cstr(s, a[i].t); };
    if (n == "vf_symbolic" || n == "vf_choose") {
      bool ch = n == "vf_choose"; std::string nm = str(ch ? 0 : 2); unsigned c = s.names[nm];
      if (concrete) {
        if (inPos >= inputs.size() || inputs[inPos].name != nm) throw Abort{"input file does not match harness at " + nm};
        In &in = inputs[inPos];
        if (ch) { inPos++; s.names[nm]++; s.rec.push_back({nm, {}, in.v, true}); return ret1(tm.Cm(32, in.v)); }
        uint64_t p = concretize(s, a[0].t), len = concretize(s, a[1].t); inPos++; s.names[nm]++;
        if (in.bytes.size() != len) throw Abort{"input size mismatch"};
        SymRec r{nm, {}, 0, false};
        for (uint64_t i = 0; i < len; i++) { T b = tm.Cm(8, in.bytes[i]); storeC(s, p + i, b); r.bytes.push_back(b); }
        s.rec.push_back(r); return done();
      }
      if (ch) {
        uint64_t lo = concretize(s, a[1].t), hi = concretize(s, a[2].t);
        if (hi < lo || hi - lo > 100000) throw Abort{"vf_choose range"};
        s.names[nm]++;
        for (uint64_t v = hi; v > lo; v--) {
          State q = s; q.hot.reset(); q.acc = q.acc * (hi - lo + 1) + (v - lo); q.rec.push_back({nm, {}, v, true}); Frame &g = q.st.back(); set(g, I, RV{tm.Cm(32, v), nullptr}); ++g.it; work.push_back(std::move(q));
        }
        s.acc = s.acc * (hi - lo + 1); s.rec.push_back({nm, {}, lo, true});
        return ret1(tm.Cm(32, lo));
      }
      uint64_t p = concretize(s, a[0].t), len = concretize(s, a[1].t); s.names[nm]++;
      SymRec r{nm, {}, 0, false};
      for (uint64_t i = 0; i < len; i++) { T b = var(nm + "#" + std::to_string(c) + "[" + std::to_string(i) + "]", 8); storeC(s, p + i, b); r.bytes.push_back(b); }
      s.rec.push_back(r); return done();
    }
    if (n == "vf_shard") { if (!concrete && shardN > 1 && s.acc % shardN != shardI) throw PathEnd{}; return done(); }
    if (n == "vf_assume") {
      T c = a[0].t; if (tm.w(c) > 1) c = tm.bnot(tm.eq(tm.extract(c, 0, tm.w(c)), tm.Cm2(tm.w(c))));
      if (tm.isC(c)) { if (tm.cv(c).isZero()) throw PathEnd{}; return done(); }
      int r = S.feasible(s.pc, c); if (r < 0) throw Abort{"solver timeout on assumption"}; if (r == 0) throw PathEnd{};
      s.pc.push_back(c); return done();
    }
    if (n == "vf_assert") {
      std::string l = str(1); T c = a[0].t; if (tm.w(c) > 1) c = tm.bnot(tm.eq(c, tm.Cm2(tm.w(c))));
      assertTrue(s, c, l); return done();
    }
    if (n == "vf_valid") { // does the condition hold for every remaining input? recorded like a choice
      std::string nm = str(0); T c = a[1].t; if (tm.w(c) > 1) c = tm.bnot(tm.eq(c, tm.Cm2(tm.w(c)))); uint64_t v;
      if (concrete) { if (inPos >= inputs.size() || inputs[inPos].name != nm) throw Abort{"input file does not match harness at " + nm}; v = inputs[inPos++].v; }
      else { Assign m; int sk = 0; int r = tm.isC(c) ? (tm.cv(c).isZero() ? 1 : 0) : tm.op(c) == EQ ? S.proveEqual(s.pc, {{tm.arg(c, 0), tm.arg(c, 1)}}, &m, &sk) : [&] { std::vector<T> q = s.pc; q.push_back(tm.bnot(c)); if (S.sigSat(q) >= 0) return 1; return S.check(q, &m, S.final_timeout_ms); }(); v = r == 0; }
      s.names[nm]++; s.rec.push_back({nm, {}, v, true}); return ret1(tm.Cm(32, v));
    }
    if (n == "vf_assert_eq") {
      std::string l = str(3); uint64_t p = concretize(s, a[0].t), q = concretize(s, a[1].t), len = concretize(s, a[2].t);
      std::vector<std::pair<T, T>> ps;
      assertsByLabel[l]++;
      for (uint64_t i = 0; i < len;) { unsigned k = 1; while (k < 8 && i + 2 * k <= len) k *= 2; if (len - i < k) k = 1; T x = loadC(s, p + i, 8 * k), y = loadC(s, q + i, 8 * k);
        ps.push_back({x, y}); i += k; }
      Assign m; int sk = 0; int r = S.proveEqual(s.pc, ps, &m, &sk);
      if (r == 1) viol("assert", l, &m, sk);
      if (r < 0) unknowns.push_back("assert_eq " + l);
      return done();
    }
    if (n == "vf_assert_distinct") { // not all bytes equal
      std::string l = str(3); uint64_t p = concretize(s, a[0].t), q = concretize(s, a[1].t), len = concretize(s, a[2].t);
      T c = tm.Cm(1, 0);
      for (uint64_t i = 0; i < len;) { unsigned k = 1; while (k < 8 && i + 2 * k <= len) k *= 2; T x = loadC(s, p + i, 8 * k), y = loadC(s, q + i, 8 * k); c = tm.nary(OR, {c, tm.bnot(tm.eq(x, y))}); i += k; }
      assertTrue(s, c, l); return done();
    }
    if (n == "vf_assert_defined") { // the bytes do not depend on uninitialised memory
      std::string l = str(2); uint64_t p = concretize(s, a[0].t), len = concretize(s, a[1].t); assertsByLabel[l]++; S.st.asserts++;
      bool syn = true;
      for (uint64_t i = 0; i < len; i++) {
        T x = loadC(s, p + i, 8); std::unordered_map<T, T> sub; bool any = false;
        for (T v : S.vars(x)) if (tm.varname[tm.N[v].aux].compare(0, 5, "undef") == 0) { any = true; sub[v] = tm.freshVar(tm.w(v), "other"); }
        if (!any) continue;
        syn = false; std::function<T(T)> go = [&](T t) -> T { auto it = sub.find(t); if (it != sub.end()) return it->second; auto as = tm.args(t); bool ch = false; for (T &y : as) { T z = go(y); if (z != y) ch = true; y = z; } T r = ch ? tm.rebuild(t, as) : t; sub[t] = r; return r; };
        Assign m; int sk = 0; int r = S.proveEqual(s.pc, {{x, go(x)}}, &m, &sk); if (r == 1) viol("uninit", l, &m, sk); if (r < 0) unknowns.push_back("defined " + l);
      }
      if (syn) S.st.eq_struct++;
      return done();
    }
    if (n == "vf_assert_noleak") { // obj, n, in, m, label: no object byte is an input byte xor a constant
      std::string l = str(4); uint64_t p = concretize(s, a[0].t), len = concretize(s, a[1].t), q = concretize(s, a[2].t), m = concretize(s, a[3].t);
      assertsByLabel[l]++;
      for (uint64_t i = 0; i < len; i++) { Obj *o = findC(s, p + i, 1); if (!o) viol("memory", "vf_assert_noleak range"); if (!o->b[p + i - o->base].t) continue; T x = loadC(s, p + i, 8);
        for (uint64_t j = 0; j < m; j++) { T y = loadC(s, q + j, 8); if (tm.isC(y)) continue; T d = tm.nary(XOR, {x, y}), e = tm.sub(x, y); S.st.asserts++;
          bool dc = true, ec = true; for (int k = 1; k < NSIG; k++) { if (tm.sg(d, k) != tm.sg(d, 0)) dc = false; if (tm.sg(e, k) != tm.sg(e, 0)) ec = false; }
          if (!dc && !ec) { S.st.eq_struct++; continue; } // two concrete inputs already show that it is no copy
          Assign mm; std::vector<T> qd = s.pc; T t = dc ? d : e; APInt c0 = tm.sg(t, 0); qd.push_back(tm.bnot(tm.eq(t, tm.C(c0)))); int r = S.check(qd, &mm, S.final_timeout_ms);
          if (r == 0) { Assign em; viol("leak", l, &em, 0); } if (r < 0) unknowns.push_back("noleak " + l); } }
      return done();
    }
    if (n == "vf_cover") { covers.insert(str(0)); return done(); }
    if (n == "vf_note") { return done(); }
    if (n == "vf_out") {
      uint64_t p = concretize(s, a[0].t), len = concretize(s, a[1].t);
      if (concrete) { std::string h; for (uint64_t i = 0; i < len; i++) { T b = loadC(s, p + i, 8); char t[4]; if (tm.isC(b)) snprintf(t, 4, "%02x", (unsigned)tm.cv(b).getZExtValue()); else strcpy(t, "??"); h += t; } outLog.push_back(h); }
      return done();
    }
    if (n == "vf_alloc") { uint64_t sz = concretize(s, a[0].t), mis = concretize(s, a[1].t); auto o = newObj(s, sz, 64, 'h', "buf", mis); return ret1(pconst(o->base)); }
    if (n == "vf_window") { uint64_t sz = concretize(s, a[0].t); auto o = newObj(s, sz, 64, 'h', "huge", 0); o->win = true; for (uint64_t i = 0; i < sz; i++) o->b[i] = Cell{tm.Cm2(8), 0}; s.win = o->base; s.winSize = sz; s.next = o->base + WINSPAN + (1ull << 43); return ret1(pconst(o->base)); }
    if (n == "vf_is_engine") return ret1(tm.Cm(32, 1));
    if (n == "vf_is_concrete") return ret1(tm.Cm(1, tm.isC(a[0].t)));
    if (n == "vf_fork_value") { return ret1(tm.Cm(64, concretize(s, a[0].t))); }
    if (F->isDeclaration()) throw Abort{"unknown harness function " + n.str()};
    return false;
  }
  // iostream output is routed to the harness
  if (n == "_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc" || n == "_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l" || n == "_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_i" || n == "_ZNSo5writeEPKcl" || n == "_ZNSo5writeEPKci") {
    const Function *g = M->getFunction(n[3] == 't' && n[4] == 'l' ? "vf_capture" : "vf_capture_n");
    if (n == "_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc") g = M->getFunction("vf_capture"); else g = M->getFunction("vf_capture_n");
    if (!g || g->isDeclaration()) throw Abort{"ostream output without capture function"};
    // the capture function returns its first argument
    pushCall(s, g, a, I); return true;
  }
  if (!F->isDeclaration() && n != "memcpy" && n != "memset" && n != "memmove") {
    if (starts(n, "_Zn") || starts(n, "_Zd")) {} else return false;
  }
  if (n == "memcpy" || n == "memmove") { winAddr(s, a[1].t); uint64_t k = concretize(s, a[2].t); if (k) copyMem(s, concretize(s, a[0].t), concretize(s, a[1].t), k); return retv(a[0]); }
  if (n == "memset") { uint64_t k = concretize(s, a[2].t); if (k) setMem(s, concretize(s, a[0].t), tm.extract(a[1].t, 0, 8), k); return retv(a[0]); }
  if (n == "memcmp" || n == "bcmp") {
    uint64_t k = concretize(s, a[2].t), p = k ? concretize(s, a[0].t) : 0, q = k ? concretize(s, a[1].t) : 0; T r = tm.Cm(32, 0);
    for (uint64_t i = k; i-- > 0;) { T x = loadC(s, p + i, 8), y = loadC(s, q + i, 8); r = tm.ite(tm.eq(x, y), r, n == "bcmp" ? tm.Cm(32, 1) : tm.ite(tm.ult(x, y), tm.C(APInt::getAllOnes(32)), tm.Cm(32, 1))); }
    return ret1(r);
  }
  if (n == "strlen") {
    uint64_t p = concretize(s, a[0].t), k = 0;
    for (;; k++) { T b = loadC(s, p + k, 8); T z = tm.eq(b, tm.Cm2(8)); if (tm.isC(z)) { if (!tm.cv(z).isZero()) break; continue; } if (S.feasible(s.pc, z) == 0) continue; if (decide(s, z)) break; }
    return ret1(pconst(k));
  }
  if (n == "memchr") {
    uint64_t p = concretize(s, a[0].t), k = concretize(s, a[2].t); T ch = tm.extract(a[1].t, 0, 8);
    for (uint64_t i = 0; i < k; i++) { if (decide(s, tm.eq(loadC(s, p + i, 8), ch))) return ret1(pconst(p + i)); }
    return ret1(pconst(0));
  }
  if (n == "malloc" || starts(n, "_Znw") || starts(n, "_Zna")) { uint64_t k = concretize(s, a[0].t); if (k > (1ull << 24)) throw Abort{"huge allocation"}; auto o = newObj(s, k, 16, 'h', "new"); return ret1(pconst(o->base)); }
  if (n == "free" || starts(n, "_Zdl") || starts(n, "_Zda")) { uint64_t p = concretize(s, a[0].t); if (p) { auto it = s.mem.find(p); if (it == s.mem.end() || it->second->kind != 'h') viol("memory", "free of invalid pointer"); s.hot.reset(); s.mem.erase(it); } return done(); }
  if (n == "abort" || n == "__assert_fail" || n == "_ZSt9terminatev" || n == "exit" || n == "_exit") viol("ub", "call of " + n.str());
  if (starts(n, "_ZSt") && n.contains("__throw_")) viol("throw", "exception thrown: " + demangle(n.str()));
  if (n == "__cxa_guard_release") { storeC(s, concretize(s, a[0].t), tm.Cm(8, 1)); return done(); }
  if (n == "__cxa_atexit") { if (!I->getType()->isVoidTy()) return ret1(tm.Cm(32, 0)); return done(); }
  if (n == "__cxa_guard_acquire") return ret1(tm.Cm(32, 1));
  // bswap-like or math helpers
  return false;
}

void Engine::step(State &s) {
  Frame &f = s.st.back(); const Instruction *I = &*f.it; curI = I; instrs++; s.steps++;
  if (instrs > maxInstrs) throw Abort{"instruction limit"};
  if ((instrs & 0xfff) == 0 && now() - t0 > maxTime) throw Abort{"time limit"};
  switch (I->getOpcode()) {
  case Instruction::Ret: { RV v; if (I->getNumOperands()) v = val(f, I->getOperand(0)); ret(s, v); return; }
  case Instruction::Br: { auto *b = cast<BranchInst>(I); if (b->isUnconditional()) { jump(s, f, b->getSuccessor(0)); return; } bool c = decide(s, tv(f, b->getCondition())); jump(s, s.st.back(), b->getSuccessor(c ? 0 : 1)); return; }
  case Instruction::Switch: {
    auto *w = cast<SwitchInst>(I); T c = tv(f, w->getCondition());
    for (auto &cs : w->cases()) { T e = tm.eq(c, tm.C(cs.getCaseValue()->getValue())); if (decide(s, e)) { jump(s, s.st.back(), cs.getCaseSuccessor()); return; } }
    jump(s, s.st.back(), w->getDefaultDest()); return; }
  case Instruction::Unreachable: viol("ub", "unreachable code reached");
  case Instruction::Alloca: {
    auto *al = cast<AllocaInst>(I); uint64_t n = concretize(s, tv(f, al->getArraySize())) * DL->getTypeAllocSize(al->getAllocatedType());
    auto o = newObj(s, n, al->getAlign().value(), 's', al->getName().str()); f.allocas.push_back(o->base); setT(f, I, pconst(o->base)); break; }
  case Instruction::Load: {
    auto *l = cast<LoadInst>(I); T a = tv(f, l->getPointerOperand());
    if (tm.isC(a) && tm.cv(a).getZExtValue() % l->getAlign().value()) viol("ub", "misaligned load");
    set(f, I, loadTy(s, a, l->getType())); break; }
  case Instruction::Store: {
    auto *st = cast<StoreInst>(I); T a = tv(f, st->getPointerOperand()); uint64_t ad = concretize(s, a);
    if (ad % st->getAlign().value()) viol("ub", "misaligned store");
    storeTy(s, ad, st->getValueOperand()->getType(), val(s.st.back(), st->getValueOperand())); break; }
  case Instruction::GetElementPtr: {
    T p = tv(f, I->getOperand(0)); auto *g = cast<GetElementPtrInst>(I);
    if (I->getType()->isVectorTy()) throw Abort{"vector gep"};
    std::vector<std::pair<T, APInt>> ts = {{p, APInt(PW, 1)}}; APInt c(PW, 0);
    for (auto ti = gep_type_begin(g), te = gep_type_end(g); ti != te; ++ti) {
      Value *ix = ti.getOperand();
      if (StructType *st = ti.getStructTypeOrNull()) c += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
      else { uint64_t sz = DL->getTypeAllocSize(ti.getIndexedType()); T x = tv(f, ix); x = tm.w(x) < PW ? tm.sext(x, PW) : tm.extract(x, 0, PW); ts.push_back({x, APInt(PW, sz)}); }
    }
    setT(f, I, tm.lin(ts, c)); break; }
  case Instruction::ICmp: { auto *c = cast<ICmpInst>(I); RV a = val(f, I->getOperand(0)), b = val(f, I->getOperand(1)); set(f, I, lift2(a, b, [&](T x, T y) { return icmp(c->getPredicate(), x, y); })); break; }
  case Instruction::FCmp: {
    auto *c = cast<FCmpInst>(I); unsigned p = c->getPredicate(); // LLVM encodes U L G E as bits 3 2 1 0
    setT(f, I, tm.fcmp(((p & 1) ? 1 : 0) | ((p & 2) ? 2 : 0) | ((p & 4) ? 4 : 0) | ((p & 8) ? 8 : 0), tv(f, I->getOperand(0)), tv(f, I->getOperand(1)))); break; }
  case Instruction::FNeg: { T x = tv(f, I->getOperand(0)); unsigned W = tm.w(x); setT(f, I, tm.nary(XOR, {x, tm.C(APInt::getSignMask(W))})); break; }
  case Instruction::FPExt: setT(f, I, tm.fconv(FPEXT, tv(f, I->getOperand(0)))); break;
  case Instruction::FPTrunc: setT(f, I, tm.fconv(FPTRUNC, tv(f, I->getOperand(0)))); break;
  case Instruction::Select: {
    RV a = val(f, I->getOperand(1)), b = val(f, I->getOperand(2)); RV c = val(f, I->getOperand(0));
    if (c.agg) { RV r; r.agg = std::make_shared<std::vector<RV>>(); for (size_t i = 0; i < c.agg->size(); i++) r.agg->push_back(selectRV((*c.agg)[i].t, (*a.agg)[i], (*b.agg)[i])); set(f, I, r); }
    else set(f, I, selectRV(c.t, a, b)); break; }
  case Instruction::PHI: throw Abort{"phi"};
  case Instruction::ZExt: { unsigned W = bitsOf(I->getType()->getScalarType()); set(f, I, lift1(val(f, I->getOperand(0)), [&](T t) { return tm.zext(t, W); })); break; }
  case Instruction::SExt: { unsigned W = bitsOf(I->getType()->getScalarType()); set(f, I, lift1(val(f, I->getOperand(0)), [&](T t) { return tm.sext(t, W); })); break; }
  case Instruction::Trunc: { unsigned W = bitsOf(I->getType()->getScalarType()); set(f, I, lift1(val(f, I->getOperand(0)), [&](T t) { return tm.extract(t, 0, W); })); break; }
  case Instruction::PtrToInt: { T x = tv(f, I->getOperand(0)); unsigned W = bitsOf(I->getType()); setT(f, I, W <= PW ? tm.extract(x, 0, W) : tm.zext(x, W)); break; }
  case Instruction::IntToPtr: { T x = tv(f, I->getOperand(0)); unsigned W = tm.w(x); setT(f, I, W >= PW ? tm.extract(x, 0, PW) : tm.zext(x, PW)); break; }
  case Instruction::BitCast: {
    Type *a = I->getOperand(0)->getType(), *b = I->getType(); RV v = val(f, I->getOperand(0));
    if (!a->isVectorTy() && !b->isVectorTy()) { set(f, I, v); break; }
    // via bits: element 0 is at the lowest address
    std::vector<T> parts; if (v.agg) for (auto &e : *v.agg) parts.push_back(e.t); else parts.push_back(v.t);
    if (!BE) std::reverse(parts.begin(), parts.end()); T all = tm.concat(parts); RV r;
    if (b->isVectorTy()) { unsigned n = numElts(b), W = bitsOf(eltTy(b, 0)); r.agg = std::make_shared<std::vector<RV>>(n); for (unsigned i = 0; i < n; i++) (*r.agg)[i].t = tm.extract(all, BE ? (n - 1 - i) * W : i * W, W); }
    else r.t = all;
    set(f, I, r); break; }
  case Instruction::ExtractValue: { auto *e = cast<ExtractValueInst>(I); RV v = val(f, e->getAggregateOperand()); for (unsigned i : e->indices()) { RV x = (*v.agg)[i]; v = x; } set(f, I, v); break; }
  case Instruction::InsertValue: {
    auto *e = cast<InsertValueInst>(I); RV v = val(f, e->getAggregateOperand()), x = val(f, e->getInsertedValueOperand()); auto ix = e->getIndices();
    std::function<RV(RV, unsigned)> ins = [&](RV b, unsigned d) -> RV { if (d == ix.size()) return x; RV r; r.agg = std::make_shared<std::vector<RV>>(*b.agg); (*r.agg)[ix[d]] = ins((*b.agg)[ix[d]], d + 1); return r; };
    set(f, I, ins(v, 0)); break; }
  case Instruction::ExtractElement: { RV v = val(f, I->getOperand(0)); uint64_t k = concretize(s, tv(f, I->getOperand(1))); set(s.st.back(), I, (*v.agg)[k]); break; }
  case Instruction::InsertElement: { RV v = val(f, I->getOperand(0)), x = val(f, I->getOperand(1)); uint64_t k = concretize(s, tv(f, I->getOperand(2))); RV r; r.agg = std::make_shared<std::vector<RV>>(*v.agg); (*r.agg)[k] = x; set(f, I, r); break; }
  case Instruction::ShuffleVector: {
    auto *sv = cast<ShuffleVectorInst>(I); RV a = val(f, I->getOperand(0)), b = val(f, I->getOperand(1)); RV r; r.agg = std::make_shared<std::vector<RV>>(); unsigned n = a.agg->size();
    for (int m : sv->getShuffleMask()) { if (m < 0) r.agg->push_back(constant(UndefValue::get(eltTy(I->getType(), 0)))); else r.agg->push_back((unsigned)m < n ? (*a.agg)[m] : (*b.agg)[m - n]); }
    set(f, I, r); break; }
  case Instruction::Freeze: set(f, I, val(f, I->getOperand(0))); break;
  case Instruction::Fence: break;
  case Instruction::Call: execCall(s, f, cast<CallBase>(I)); return;
  case Instruction::Invoke: execCall(s, f, cast<CallBase>(I)); return;
  default:
    if (I->isBinaryOp()) {
      RV a = val(f, I->getOperand(0)), b = val(f, I->getOperand(1)); unsigned op = I->getOpcode();
      if (!a.agg && (op == Instruction::UDiv || op == Instruction::SDiv || op == Instruction::URem || op == Instruction::SRem)) { T z = tm.eq(b.t, tm.Cm2(tm.w(b.t))); if (decide(s, z)) viol("ub", "division by zero"); }
      if (!a.agg && (op == Instruction::Shl || op == Instruction::LShr || op == Instruction::AShr) && tm.isC(b.t) && tm.cv(b.t).uge(tm.w(b.t))) viol("ub", "shift amount out of range");
      set(s.st.back(), I, lift2(a, b, [&](T x, T y) { return binop(op, x, y); })); break;
    }
    { std::string t; raw_string_ostream os(t); I->print(os); throw Abort{"instruction " + t}; }
  }
  ++s.st.back().it;
}

void Engine::report(State &s, const Viol &v) {
  Found fd; fd.kind = v.kind; fd.label = v.label;
  Assign m = v.m; int k = v.k;
  if (!v.hasModel) { // any input on this path
    k = S.sigSat(s.pc); if (k < 0) { k = 0; int r = S.check(s.pc, &m, S.final_timeout_ms); if (r == 0) return; if (r < 0) { unknowns.push_back("violation without model: " + v.label); return; } }
  } else {
    std::unordered_map<T, APInt> memo; if (!S.evalAll(s.pc, m, k, memo)) { // complete the model for the path condition
      Assign m2; std::vector<T> c = s.pc; for (auto &q : v.m) c.push_back(tm.eq(q.first, tm.C(q.second))); if (S.check(c, &m2, S.final_timeout_ms) == 1) m = m2; }
  }
  fd.inputs = materialise(s, m, k);
  std::string w; for (auto it = s.st.rbegin(); it != s.st.rend(); ++it) { w += demangle(it->F->getName().str()); w += " < "; if (w.size() > 600) break; }
  if (curI && curI->getDebugLoc()) { const DILocation *l = curI->getDebugLoc().get(); w = (l->getFilename() + ":" + std::to_string(l->getLine()) + " in ").str() + w; }
  fd.where = w;
  found.push_back(fd);
}

void Engine::runPath(State &&s0) {
  State s = std::move(s0); cur = &s;
  try { for (;;) step(s); }
  catch (PathEnd &) { if (s.st.empty()) { paths++; addSample(s); } }
  catch (Viol &v) { paths++; report(s, v); }
}

static void parseInputs(const char *fn, std::vector<Engine::In> &v) {
  std::ifstream in(fn); std::string ln;
  while (std::getline(in, ln)) {
    std::istringstream is(ln); std::string kind, name, val; is >> kind >> name >> val; if (kind.empty()) continue;
    Engine::In i; i.name = name; i.choice = kind == "choose"; i.v = 0;
    if (i.choice) i.v = strtoull(val.c_str(), 0, 10);
    else if (val != "-") for (size_t q = 0; q + 1 < val.size(); q += 2) i.bytes.push_back((uint8_t)strtoul(val.substr(q, 2).c_str(), 0, 16));
    v.push_back(i);
  }
}
static void writeInputs(std::ostream &o, const std::vector<Engine::In> &v) {
  for (auto &i : v) { if (i.choice) o << "choose " << i.name << " " << i.v << "\n"; else { o << "sym " << i.name << " "; if (i.bytes.empty()) o << "-"; for (auto b : i.bytes) { char t[4]; snprintf(t, 4, "%02x", b); o << t; } o << "\n"; } }
}

int Engine::main(int argc, char **argv) {
  std::string entry = "harness", outp, pfx; std::vector<std::string> fs; const char *conc = nullptr;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&]() -> std::string { return argv[++i]; };
    if (a == "--shard") { std::string v = nx(); sscanf(v.c_str(), "%u/%u", &shardI, &shardN); }
    else if (a == "--entry") entry = nx();
    else if (a == "--out") outp = nx();
    else if (a == "--prefix") pfx = nx();
    else if (a == "--concrete") { concrete = true; conc = argv[++i]; }
    else if (a == "--seed") tm.seed = strtoull(nx().c_str(), 0, 10);
    else if (a == "--timeout-ms") S.final_timeout_ms = atoi(nx().c_str());
    else if (a == "--max-time") maxTime = atof(nx().c_str());
    else if (a == "--samples") nSamples = atoi(nx().c_str());
    else if (a == "--max-found") maxFound = atoi(nx().c_str());
    else if (a == "--src") srcPrefix = nx();
    else fs.push_back(a);
  }
  for (auto &file : fs) {
    SMDiagnostic err; auto m2 = parseIRFile(file, err, C);
    if (!m2) { fprintf(stderr, "cannot parse %s: %s\n", file.c_str(), err.getMessage().str().c_str()); return 3; }
    if (!M) M = std::move(m2); else if (Linker::linkModules(*M, std::move(m2))) { fprintf(stderr, "cannot link %s\n", file.c_str()); return 3; }
  }
  if (!M) { fprintf(stderr, "no input\n"); return 3; }
  DL = &M->getDataLayout(); BE = DL->isBigEndian(); PW = DL->getPointerSizeInBits(0);
  if (conc) parseInputs(conc, inputs);
  std::string status = "ok", why;
  try {
    State s; s.next = 0x100000;
    for (auto &F : *M) fnAddr(&F);
    for (auto &g : M->globals()) {
      uint64_t sz = g.hasInitializer() || g.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(g.getValueType()) : 64; if (sz == 0) sz = 0;
      uint64_t al = g.getAlign() ? g.getAlign()->value() : 16; auto o = newObj(s, sz, al, 'g', g.getName().str()); gaddr[&g] = o->base;
    }
    for (auto &g : M->globals()) if (g.hasInitializer() && !g.getName().starts_with("llvm.")) initMem(s, gaddr[&g], g.getInitializer());
    for (auto &g : M->globals()) if (g.isConstant()) s.mem[gaddr[&g]]->ro = true;
    std::vector<std::pair<uint64_t, const Function *>> ctors;
    if (auto *ct = M->getGlobalVariable("llvm.global_ctors")) if (ct->hasInitializer()) if (auto *ar = dyn_cast<ConstantArray>(ct->getInitializer())) for (auto &e : ar->operands()) if (auto *cs = dyn_cast<ConstantStruct>(e)) { // run before the harness, lowest priority value first
      auto *cf = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts()); if (!cf || cf->isDeclaration()) throw Abort{"static constructor"}; ctors.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), cf}); }
    const Function *F = M->getFunction(entry); if (!F || F->isDeclaration()) throw Abort{"no entry function " + entry};
    pushCall(s, F, {}, nullptr);
    std::stable_sort(ctors.begin(), ctors.end(), [](auto &a, auto &b) { return a.first < b.first; });
    for (auto it = ctors.rbegin(); it != ctors.rend(); ++it) pushCall(s, it->second, {}, nullptr);
    work.push_back(std::move(s));
    while (!work.empty()) {
      State n = std::move(work.back()); work.pop_back();
      runPath(std::move(n));
      if (found.size() >= maxFound) break;
      if (paths > maxPaths) throw Abort{"path limit"};
    }
  } catch (Abort &a) { status = "inconclusive"; why = a.why; if (curI && curI->getDebugLoc()) why += (" at " + curI->getDebugLoc()->getFilename() + ":" + std::to_string(curI->getDebugLoc().getLine())).str(); }
  catch (z3::exception &e) { status = "inconclusive"; why = std::string("z3: ") + e.msg(); }
  if (!found.empty()) status = "violation";
  else if (status == "ok" && !unknowns.empty()) { status = "inconclusive"; why = "solver unknown: " + unknowns[0]; }
  std::ostringstream o;
  o << "{\"status\":\"" << status << "\",\"why\":\"" << jesc(why) << "\",\"paths\":" << paths << ",\"instrs\":" << instrs << ",\"forks\":" << forks << ",\"terms\":" << tm.N.size() << ",\"undefs\":" << undefs
    << ",\"queries\":" << S.st.queries << ",\"sat\":" << S.st.sat << ",\"unsat\":" << S.st.unsat << ",\"unknown\":" << S.st.unknown << ",\"feasibility\":" << S.st.feas << ",\"lemmas\":" << S.st.lemmas << ",\"lemmas_proved\":" << S.st.lemmas_ok
    << ",\"asserts\":" << S.st.asserts << ",\"by_rewriting\":" << S.st.eq_struct << ",\"by_sweeping\":" << S.st.eq_sweep << ",\"by_query\":" << S.st.eq_solver << ",\"solver_s\":" << S.st.solver_s << ",\"max_query_s\":" << S.st.maxq << ",\"wall_s\":" << now() - t0;
  o << ",\"covers\":["; bool c1 = false; for (auto &x : covers) { o << (c1 ? "," : "") << "\"" << jesc(x) << "\""; c1 = true; } o << "]";
  o << ",\"labels\":{"; c1 = false; for (auto &x : assertsByLabel) { o << (c1 ? "," : "") << "\"" << jesc(x.first) << "\":" << x.second; c1 = true; } o << "}";
  o << ",\"functions\":{"; c1 = false; for (auto &x : funcs) { o << (c1 ? "," : "") << "\"" << jesc(x.first) << "\":["; bool c2 = false; for (auto &y : x.second) { o << (c2 ? "," : "") << "\"" << jesc(y) << "\""; c2 = true; } o << "]"; c1 = true; } o << "}";
  o << ",\"out\":["; c1 = false; for (auto &x : outLog) { o << (c1 ? "," : "") << "\"" << x << "\""; c1 = true; } o << "]";
  o << ",\"found\":["; c1 = false; int fi = 0;
  for (auto &x : found) { std::string fn = pfx + "cex" + std::to_string(fi++) + ".txt"; if (!pfx.empty()) { std::ofstream q(fn); writeInputs(q, x.inputs); } o << (c1 ? "," : "") << "{\"kind\":\"" << jesc(x.kind) << "\",\"label\":\"" << jesc(x.label) << "\",\"where\":\"" << jesc(x.where) << "\",\"file\":\"" << jesc(fn) << "\"}"; c1 = true; }
  o << "],\"samples\":["; c1 = false; int si = 0;
  for (auto &x : samples) { std::string fn = pfx + "sample" + std::to_string(si++) + ".txt"; if (!pfx.empty()) { std::ofstream q(fn); writeInputs(q, x); } o << (c1 ? "," : "") << "\"" << jesc(fn) << "\""; c1 = true; }
  o << "]}\n";
  if (outp.empty()) fputs(o.str().c_str(), stdout); else { std::ofstream q(outp); q << o.str(); }
  return status == "ok" ? 0 : status == "violation" ? 1 : 2;
}

struct Arg { int c; char **v; int r; };
static void *thr(void *p) { Arg *a = (Arg *)p; Engine *e = new Engine; a->r = e->main(a->c, a->v); fflush(stdout); _exit(a->r); return nullptr; }
int main(int c, char **v) {
  Arg a{c, v, 0}; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 2ull << 30); pthread_t t;
  if (pthread_create(&t, &at, thr, &a)) { perror("thread"); return 3; }
  pthread_join(t, nullptr); return a.r;
}
