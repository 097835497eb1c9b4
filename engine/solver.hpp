// z3 back end, model evaluation, and word-level SAT sweeping for equivalence.
#pragma once
#include "term.hpp"
#include <llvm/ADT/SmallString.h>
#include <z3++.h>
#include <map>
#include <set>
#include <chrono>
#include <unordered_set>
#include <memory>

static inline double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

struct Stats {
  uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, feas = 0, lemmas = 0, lemmas_ok = 0, merged = 0, eq_struct = 0, eq_sweep = 0, eq_solver = 0, asserts = 0, sigcex = 0, cubes = 0, atomq = 0, simcut = 0;
  double solver_s = 0, maxq = 0;
};

typedef std::unordered_map<T, APInt> Assign; // VAR term -> value

struct Solver {
  Terms &tm;
  z3::context ctx;
  Stats st;
  unsigned final_timeout_ms = 60000;
  std::unordered_map<T, z3::expr> cache;
  Solver(Terms &t) : tm(t) {}

  z3::expr bvc(const APInt &v) {
    if (v.getBitWidth() <= 64) return ctx.bv_val((uint64_t)v.getZExtValue(), v.getBitWidth());
    llvm::SmallString<64> s; v.toStringUnsigned(s, 10);
    return ctx.bv_val(s.c_str(), v.getBitWidth());
  }
  z3::expr b2v(const z3::expr &b) { return z3::ite(b, ctx.bv_val(1, 1), ctx.bv_val(0, 1)); }
  z3::expr fp(const z3::expr &e, unsigned w) {
    z3::sort s = w == 32 ? ctx.fpa_sort(8, 24) : ctx.fpa_sort(11, 53);
    return z3::expr(ctx, Z3_mk_fpa_to_fp_bv(ctx, e, s));
  }
  z3::expr unfp(const z3::expr &e) { return z3::expr(ctx, Z3_mk_fpa_to_ieee_bv(ctx, e)); }

  // leaf(t) true -> introduce a free variable for t
  template <class L> z3::expr emit(T t, std::unordered_map<T, z3::expr> &c, L &leaf) {
    auto it = c.find(t); if (it != c.end()) return it->second;
    z3::expr r = emit1(t, c, leaf);
    c.emplace(t, r);
    return r;
  }
  template <class L> z3::expr emit1(T t, std::unordered_map<T, z3::expr> &c, L &leaf) {
    const Node d = tm.N[t];
    if (d.op == CONST) { APInt v = tm.cv(t); return bvc(v); }
    if (d.op == VAR || leaf(t)) return ctx.bv_const(("v" + std::to_string(t)).c_str(), d.w);
    auto as = tm.args(t);
    std::vector<z3::expr> a; for (T x : as) a.push_back(emit(x, c, leaf));
    switch (d.op) {
    case LIN: {
      APInt c0 = tm.l0(t); bool has = false; z3::expr r(ctx);
      for (unsigned i = 0; i < as.size(); i++) {
        APInt k = tm.lc(t, i);
        if (k.isOne()) { r = has ? r + a[i] : a[i]; has = true; }
      }
      for (unsigned i = 0; i < as.size(); i++) {
        APInt k = tm.lc(t, i);
        if (k.isOne()) continue;
        APInt nk = -k;
        if (nk.isOne()) r = has ? r - a[i] : -a[i];
        else { z3::expr m = k.isPowerOf2() ? z3::shl(a[i], bvc(APInt(d.w, k.logBase2()))) : a[i] * bvc(k); r = has ? r + m : m; }
        has = true;
      }
      if (!c0.isZero()) r = r + bvc(c0);
      return r; }
    case MUL: return a[0] * a[1];
    case UDIV: return z3::udiv(a[0], a[1]);
    case SDIV: return a[0] / a[1];
    case UREM: return z3::urem(a[0], a[1]);
    case SREM: return z3::srem(a[0], a[1]);
    case AND: { z3::expr r = a[0]; for (unsigned i = 1; i < a.size(); i++) r = r & a[i]; return r; }
    case OR: { z3::expr r = a[0]; for (unsigned i = 1; i < a.size(); i++) r = r | a[i]; return r; }
    case XOR: { z3::expr r = a[0]; for (unsigned i = 1; i < a.size(); i++) r = r ^ a[i]; return r; }
    case CONCAT: { z3::expr r = a[0]; for (unsigned i = 1; i < a.size(); i++) r = z3::concat(r, a[i]); return r; }
    case EXTRACT: return a[0].extract(d.aux + d.w - 1, d.aux);
    case SEXT: return z3::sext(a[0], d.w - tm.w(as[0]));
    case SHL: return z3::shl(a[0], a[1]);
    case LSHR: return z3::lshr(a[0], a[1]);
    case ASHR: return z3::ashr(a[0], a[1]);
    case EQ: return b2v(a[0] == a[1]);
    case ULT: return b2v(z3::ult(a[0], a[1]));
    case SLT: return b2v(z3::slt(a[0], a[1]));
    case ITE: return z3::ite(a[0] == ctx.bv_val(1, 1), a[1], a[2]);
    case FADD: case FSUB: case FMUL: case FDIV: {
      ctx.set_rounding_mode(z3::RNE);
      z3::expr x = fp(a[0], d.w), y = fp(a[1], d.w);
      return unfp(d.op == FADD ? x + y : d.op == FSUB ? x - y : d.op == FMUL ? x * y : x / y); }
    case FCMP: {
      unsigned w = tm.w(as[0]); z3::expr x = fp(a[0], w), y = fp(a[1], w);
      z3::expr e(ctx, Z3_mk_fpa_eq(ctx, x, y)), g(ctx, Z3_mk_fpa_gt(ctx, x, y)), l(ctx, Z3_mk_fpa_lt(ctx, x, y));
      z3::expr r = ctx.bool_val(false);
      if (d.aux & 1) r = r || e; if (d.aux & 2) r = r || g; if (d.aux & 4) r = r || l; if (d.aux & 8) r = r || (!e && !g && !l);
      return b2v(r); }
    case FPEXT: case FPTRUNC: {
      z3::expr x = fp(a[0], tm.w(as[0])); z3::sort s = d.op == FPEXT ? ctx.fpa_sort(11, 53) : ctx.fpa_sort(8, 24);
      return unfp(z3::expr(ctx, Z3_mk_fpa_to_fp_float(ctx, Z3_mk_fpa_rne(ctx), x, s))); }
    default: abort();
    }
  }
  z3::expr full(T t) { auto leaf = [](T) { return false; }; return emit(t, cache, leaf); }

  bool hasFP(T t, std::unordered_set<T> &seen) {
    if (!seen.insert(t).second) return false;
    Op o = tm.op(t); if (o >= FADD) return true;
    for (T x : tm.args(t)) if (hasFP(x, seen)) return true;
    return false;
  }
  // conj: list of width-1 terms. returns 1 sat 0 unsat -1 unknown
  struct Known { int r; Assign m; };
  std::map<std::vector<T>, Known> asked; // conjunctions decided before, without residual goals
  std::vector<Assign> recent; size_t rnext = 0;
  void keep(const Assign &m) { if (recent.size() < 16) recent.push_back(m); else recent[rnext++ % 16] = m; }
  int checkCached(const std::vector<T> &conj, Assign *model, unsigned timeout_ms) {
    std::vector<T> k(conj); std::sort(k.begin(), k.end()); k.erase(std::unique(k.begin(), k.end()), k.end());
    auto it = asked.find(k);
    if (it == asked.end()) { Known q; q.r = check(k, &q.m, timeout_ms); if (q.r == 1) keep(q.m); if (q.r < 0) return q.r; if (asked.size() > 20000) asked.clear(); it = asked.emplace(k, q).first; }
    if (it->second.r == 1 && model) *model = it->second.m;
    return it->second.r;
  }
  int check(const std::vector<T> &conj, Assign *model, unsigned timeout_ms) {
    std::unordered_set<T> seen; bool f = false; for (T t : conj) f = f || hasFP(t, seen);
    z3::solver s = f ? z3::solver(ctx) : z3::solver(ctx, "QF_BV");
    z3::params p(ctx); p.set("timeout", timeout_ms); s.set(p);
    for (T t : conj) s.add(full(t) == ctx.bv_val(1, 1));
    int r = run(s);
    if (r == 1 && model) {
      z3::model m = s.get_model();
      for (T t : seen) addvars(t, m, *model);
      if (seen.empty()) {}
    }
    return r;
  }
  void addvars(T t, z3::model &m, Assign &as) {
    if (tm.op(t) != VAR) return;
    z3::expr e = m.eval(full(t), true);
    as[t] = numeral(e, tm.w(t));
  }
  APInt numeral(const z3::expr &e, unsigned w) {
    std::string s = Z3_get_numeral_string(ctx, e);
    return APInt(w, s, 10);
  }
  int run(z3::solver &s) {
    double t0 = now(); st.queries++;
    z3::check_result r = z3::unknown;
    try { r = s.check(); } catch (z3::exception &e) { fprintf(stderr, "z3: %s\n", e.msg()); }
    double dt = now() - t0; st.solver_s += dt; if (dt > st.maxq) st.maxq = dt;
    if (r == z3::sat) { st.sat++; return 1; }
    if (r == z3::unsat) { st.unsat++; return 0; }
    st.unknown++; return -1;
  }

  // ---- evaluation under an assignment; missing variables take signature k
  APInt eval(T t, const Assign &as, int k, std::unordered_map<T, APInt> &memo) {
    auto it = memo.find(t); if (it != memo.end()) return it->second;
    const Node d = tm.N[t]; APInt r;
    if (d.op == VAR) { auto q = as.find(t); r = q == as.end() ? tm.sg(t, k) : q->second; }
    else if (d.op == CONST) r = tm.cv(t);
    else { std::vector<APInt> v; for (T x : tm.args(t)) v.push_back(eval(x, as, k, memo)); r = tm.evalNode(d, [&](unsigned i) -> const APInt & { return v[i]; }); }
    memo.emplace(t, r); return r;
  }
  bool evalAll(const std::vector<T> &c, const Assign &as, int k, std::unordered_map<T, APInt> &memo) {
    for (T t : c) if (eval(t, as, k, memo).isZero()) return false;
    return true;
  }
  // is the conjunction satisfied by one of the stored random assignments?
  int sigSat(const std::vector<T> &c) {
    for (int k = 0; k < NSIG; k++) { bool ok = true; for (T t : c) if (tm.sg(t, k).isZero()) { ok = false; break; } if (ok) return k; }
    return -1;
  }
  void varsOf(T t, std::unordered_set<T> &seen) { if (!seen.insert(t).second) return; for (T x : tm.args(t)) varsOf(x, seen); }
  // conjuncts connected to t through shared variables
  std::unordered_map<T, std::shared_ptr<std::vector<T>>> vcache;
  const std::vector<T> &vars(T t) {
    auto it = vcache.find(t); if (it != vcache.end()) return *it->second;
    std::unordered_set<T> s; varsOf(t, s); auto v = std::make_shared<std::vector<T>>(); for (T x : s) if (tm.op(x) == VAR) v->push_back(x);
    vcache[t] = v; return *v;
  }
  std::vector<T> slice(const std::vector<T> &pc, T t) {
    std::unordered_set<T> vs(vars(t).begin(), vars(t).end()); std::vector<char> in(pc.size(), 0); bool ch = true;
    while (ch) { ch = false; for (size_t i = 0; i < pc.size(); i++) if (!in[i]) { bool hit = false; for (T v : vars(pc[i])) if (vs.count(v)) { hit = true; break; } if (hit) { in[i] = 1; ch = true; for (T v : vars(pc[i])) vs.insert(v); } } }
    std::vector<T> r; for (size_t i = 0; i < pc.size(); i++) if (in[i]) r.push_back(pc[i]);
    return r;
  }
  // pc is known satisfiable; can t also hold?  1 / 0 / -1
  int feasible(const std::vector<T> &pc, T t, Assign *model = nullptr) {
    if (tm.isC(t)) return tm.cv(t).isZero() ? 0 : 1;
    for (T c : pc) { if (c == t) { if (!model) return 1; } if (c == tm.bnot(t)) return 0; }
    std::vector<T> c = slice(pc, t); c.push_back(t);
    if (!model) { if (sigSat(c) >= 0) return 1; for (auto &m : recent) { std::unordered_map<T, APInt> memo; if (evalAll(c, m, 0, memo)) return 1; } }
    st.feas++;
    return checkCached(c, model, final_timeout_ms);
  }

  // ---- sweeping
  struct Sweep {
    Solver &S; Terms &tm;
    std::unordered_map<T, T> memo;   // original -> simplified
    std::unordered_map<T, T> rep;    // canonical node -> representative
    std::unordered_map<uint64_t, std::vector<T>> cls;
    unsigned failed = 0;
    double deadline;
    // the goal: a lemma that fails may exhibit inputs on which the goal itself fails
    const std::vector<T> *gpc = nullptr; const std::vector<std::pair<T, T>> *gps = nullptr;
    bool found = false; Assign cex; int cexk = 0; unsigned tried = 0;
    void tryGoal(const Assign &m) {
      if (found || !gps || m.empty() || tried++ > 400) return;
      for (int k = 0; k < NSIG && k < 3; k++) {
        std::unordered_map<T, APInt> memo;
        if (!S.evalAll(*gpc, m, k, memo)) continue;
        for (auto &p : *gps) if (S.eval(p.first, m, k, memo) != S.eval(p.second, m, k, memo)) { found = true; cex = m; cexk = k; deadline = 0; return; }
      }
    }
    Sweep(Solver &s) : S(s), tm(s.tm), deadline(now() + 300) {}
    uint64_t key(T t) { uint64_t h = tm.w(t); for (int k = 0; k < NSIG; k++) { const APInt &v = tm.sg(t, k); for (unsigned i = 0; i < v.getNumWords(); i++) h = mix64(h * 31 + v.getRawData()[i]); } return h; }
    bool sameSig(T a, T b) { if (tm.w(a) != tm.w(b)) return false; for (int k = 0; k < NSIG; k++) if (tm.sg(a, k) != tm.sg(b, k)) return false; return true; }
    void assume(T t, T c) { rep[t] = c; memo[t] = c; }
    T simp(T t) {
      auto it = memo.find(t); if (it != memo.end()) return it->second;
      std::vector<T> as = tm.args(t); bool ch = false;
      for (T &x : as) { T y = simp(x); if (y != x) ch = true; x = y; }
      T u = ch ? tm.rebuild(t, as) : t;
      T v = canon(u);
      memo[t] = v; memo[u] = v;
      return v;
    }
    T canon(T u) {
      auto it = rep.find(u); if (it != rep.end()) return it->second == u ? u : canon(it->second);
      T v = u; unsigned W = tm.w(u);
      Op o = tm.op(u);
      if (o != CONST && o != VAR && W >= 8) {
        bool same = true; for (int k = 1; k < NSIG && same; k++) same = tm.sg(u, k) == tm.sg(u, 0);
        if (same) { APInt cvv = tm.sg(u, 0); T c = tm.C(cvv); if (prove(u, c)) { rep[u] = c; S.st.merged++; return c; } }
        auto &b = cls[key(u)];
        int tries = 0;
        for (T cand : b) {
          if (cand == u || !sameSig(cand, u)) continue;
          if (tries++ >= 3) break;
          if (prove(u, cand)) { v = cand; S.st.merged++; break; }
        }
        if (v == u) b.push_back(u);
      } else if (o == VAR) cls[key(u)].push_back(u);
      rep[u] = v;
      return v;
    }
    void cone(T t, int d, std::unordered_map<T, int> &m) {
      auto it = m.find(t); if (it != m.end() && it->second >= d) return;
      m[t] = d; if (d == 0) return;
      for (T x : tm.args(t)) cone(x, d - 1, m);
    }
    // common summands / xor members cancel
    void cancel(T &a, T &b) {
      if (tm.op(a) == LIN && tm.op(b) == LIN) {
        unsigned W = tm.w(a); std::map<T, APInt> m; auto cu = [&](T t) { std::vector<std::pair<T, APInt>> v; for (unsigned i = 0; i < tm.nargs(t); i++) v.push_back({tm.arg(t, i), tm.lc(t, i)}); return v; };
        auto va = cu(a), vb = cu(b); for (auto &p : va) m.emplace(p.first, p.second);
        std::vector<std::pair<T, APInt>> ra, rb; APInt ca = tm.l0(a), cb = tm.l0(b); size_t common = 0;
        std::map<T, APInt> mb; for (auto &p : vb) mb.emplace(p.first, p.second);
        for (auto &p : va) { auto it = mb.find(p.first); if (it != mb.end() && it->second == p.second) common++; else ra.push_back(p); }
        for (auto &p : vb) { auto it = m.find(p.first); if (it != m.end() && it->second == p.second) {} else rb.push_back(p); }
        if (ca == cb) { ca = cb = APInt(W, 0); } else { cb -= ca; ca = APInt(W, 0); }
        if (!common && tm.l0(a) != tm.l0(b)) return;
        a = tm.lin(ra, ca); b = tm.lin(rb, cb);
      } else if (tm.op(a) == XOR && tm.op(b) == XOR) {
        auto va = tm.args(a), vb = tm.args(b); std::vector<T> ra, rb; unsigned W = tm.w(a);
        for (T t : va) if (!std::count(vb.begin(), vb.end(), t)) ra.push_back(t);
        for (T t : vb) if (!std::count(va.begin(), va.end(), t)) rb.push_back(t);
        if (ra.size() == va.size()) return;
        if (ra.empty()) ra.push_back(tm.Cm2(W)); if (rb.empty()) rb.push_back(tm.Cm2(W));
        a = tm.nary(XOR, ra); b = tm.nary(XOR, rb);
      }
    }
    bool prove(T a, T b) {
      if (tm.linEqual(a, b)) return true;
      cancel(a, b); if (a == b) return true;
      static const int depths[] = {3, 6, 12};
      if (failed > 200 || now() > deadline) return false;
      std::unordered_map<T, int> ca, cb;
      size_t last = 0;
      for (int d : depths) {
        ca.clear(); cb.clear(); cone(a, d, ca); cone(b, d, cb);
        if (ca.size() + cb.size() > 6000) break;
        if (ca.size() + cb.size() == last) continue;
        last = ca.size() + cb.size();
        // cut at shared nodes
        if (ask(a, b, [&](T t) { if (t == a || t == b) return false; bool ia = ca.count(t), ib = cb.count(t); if (ia && ib) return true; return ia ? ca[t] == 0 : ib ? cb[t] == 0 : true; }, 2000) == 0) return true;
        // cut at depth only
        if (d <= 6 && ask(a, b, [&](T t) { auto x = ca.find(t); if (x != ca.end() && x->second > 0) return false; auto y = cb.find(t); if (y != cb.end() && y->second > 0) return false; return true; }, 2000) == 0) return true;
      }
      failed++;
      if (getenv("SYMEX_DEBUG")) fprintf(stderr, "lemma failed:\n  %s\n  %s\n", tm.str(a, 5).c_str(), tm.str(b, 5).c_str());
      return false;
    }
    // random simulation of the cut: most lemmas that do not hold are refuted here
    uint64_t rs = 0x1234567;
    template <class L> APInt sim(T t, std::unordered_map<T, APInt> &m, L &leaf, int round) {
      auto it = m.find(t); if (it != m.end()) return it->second;
      const Node d = tm.N[t]; APInt r(d.w, 0);
      if (d.op == CONST) r = tm.cv(t);
      else if (d.op == VAR || leaf(t)) {
        for (unsigned i = 0; i < d.w; i += 64) { unsigned nb = std::min(64u, d.w - i); rs += 0x9e3779b97f4a7c15ull; uint64_t x = mix64(rs); if (round & 1) { rs += 77; x &= mix64(rs); } if (nb < 64) x &= (1ull << nb) - 1; r.insertBits(APInt(nb, x), i); }
      } else { std::vector<APInt> v; for (T x : tm.args(t)) v.push_back(sim(x, m, leaf, round)); r = tm.evalNode(d, [&](unsigned i) -> const APInt & { return v[i]; }); }
      m.emplace(t, r); return r;
    }
    template <class L> int ask(T a, T b, L leaf, unsigned ms) {
      for (int round = 0; round < 8; round++) { std::unordered_map<T, APInt> m; APInt x = sim(a, m, leaf, round), y = sim(b, m, leaf, round); if (x != y) { S.st.simcut++; return 1; } }
      S.st.lemmas++;
      std::unordered_map<T, z3::expr> c;
      z3::expr ea = S.emit(a, c, leaf), eb = S.emit(b, c, leaf);
      z3::solver s(S.ctx, "QF_BV"); z3::params p(S.ctx); p.set("timeout", ms); s.set(p);
      s.add(ea != eb);
      double t0 = now(); int r = S.run(s);
      static const bool dbg = getenv("SYMEX_DEBUG") != nullptr;
      if (dbg) fprintf(stderr, "lemma r=%d t=%.3f\n  %s\n  %s\n", r, now() - t0, tm.str(a, 4).c_str(), tm.str(b, 4).c_str());
      if (r == 0) S.st.lemmas_ok++;
      if (r == 1 && gps && !found) {
        z3::model m = s.get_model(); Assign as;
        for (auto &e : c) if (tm.op(e.first) == VAR) as[e.first] = S.numeral(m.eval(e.second, true), tm.w(e.first));
        tryGoal(as);
      }
      return r;
    }
  };

  // equalities implied by the path condition, applied as substitutions
  void applyPC(Sweep &sw, const std::vector<T> &pc) {
    for (T t : pc) {
      sw.assume(t, tm.Cm(1, 1));
      if (tm.op(t) == EQ) { T a = tm.arg(t, 0), b = tm.arg(t, 1); if (tm.isC(b)) sw.assume(a, b); else if (tm.isC(a)) sw.assume(b, a); else if (tm.op(b) == VAR) sw.assume(b, a); else if (tm.op(a) == VAR) sw.assume(a, b); }
      if (tm.op(t) == XOR && tm.nargs(t) == 2 && tm.isOnes(tm.arg(t, 0))) sw.assume(tm.arg(t, 1), tm.Cm(1, 0));
      if (tm.op(t) == AND) for (T x : tm.args(t)) sw.assume(x, tm.Cm(1, 1));
    }
  }

  // Prove that under pc all pairs are equal. 0 proved, 1 counterexample (model filled), -1 unknown
  int proveEqual(const std::vector<T> &pc, const std::vector<std::pair<T, T>> &pairs, Assign *model, int *sigk) {
    std::vector<std::pair<T, T>> ps; for (auto &p : pairs) if (p.first != p.second) ps.push_back(p);
    st.asserts++;
    if (ps.empty()) { st.eq_struct++; return 0; }
    // quick counterexamples
    for (int k = 0; k < NSIG; k++) {
      bool ok = true; for (T t : pc) if (tm.sg(t, k).isZero()) { ok = false; break; }
      if (!ok) continue;
      for (auto &p : ps) if (tm.sg(p.first, k) != tm.sg(p.second, k)) { st.sigcex++; *sigk = k; model->clear(); return 1; }
    }
    if (!pc.empty() && sigSat(pc) < 0) {
      Assign m; int r = checkCached(pc, &m, final_timeout_ms);
      if (r == 0) return 0; // dead path
      if (r == 1) for (int k = 0; k < NSIG; k++) {
        std::unordered_map<T, APInt> memo;
        if (!evalAll(pc, m, k, memo)) continue;
        for (auto &p : ps) if (eval(p.first, m, k, memo) != eval(p.second, m, k, memo)) { *model = m; *sigk = k; st.sigcex++; return 1; }
      }
    }
    if (getenv("SYMEX_DEBUG")) { // the first terms that only one side has
      std::unordered_set<T> c[2]; std::vector<T> w; for (int q = 0; q < 2; q++) { w.assign(1, q ? ps[0].second : ps[0].first); while (!w.empty()) { T t = w.back(); w.pop_back(); if (c[q].insert(t).second) for (T x : tm.args(t)) w.push_back(x); } }
      for (int q = 0; q < 2; q++) { std::vector<T> o; for (T t : c[q]) if (!c[!q].count(t)) o.push_back(t); std::sort(o.begin(), o.end()); for (size_t i = 0; i < o.size() && i < 3; i++) fprintf(stderr, "only %d: %s\n", q, tm.str(o[i], 3).c_str()); } }
    Sweep sw(*this); sw.gpc = &pc; sw.gps = &ps;
    applyPC(sw, pc);
    std::vector<T> bad;
    for (auto &p : ps) { if (sw.found) { *model = sw.cex; *sigk = sw.cexk; st.sigcex++; return 1; } T a = sw.simp(p.first), b = sw.simp(p.second); if (a != b) bad.push_back(tm.bnot(tm.eq(a, b))); }
    if (sw.found) { *model = sw.cex; *sigk = sw.cexk; st.sigcex++; return 1; }
    bad.erase(std::remove_if(bad.begin(), bad.end(), [&](T t) { return tm.isZero(t); }), bad.end());
    if (bad.empty()) { st.eq_sweep++; return 0; }
    if (getenv("SYMEX_DEBUG")) fprintf(stderr, "residual %zu of %zu, lemmas %lu ok %lu failed %u\n", bad.size(), ps.size(), (unsigned long)st.lemmas, (unsigned long)st.lemmas_ok, sw.failed);
    // residual: one query per pair, with the path condition
    bool unk = false;
    for (T b : bad) {
      std::vector<T> c = pc; c.push_back(b);
      Assign m; int r = check(c, &m, final_timeout_ms);
      if (r == 1) { *model = m; *sigk = 0; return 1; }
      if (r < 0) unk = true;
    }
    if (unk) return -1;
    st.eq_solver++;
    return 0;
  }
};
