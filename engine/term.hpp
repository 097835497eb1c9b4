// Hash-consed bit-vector terms with canonicalising constructors and eager
// evaluation under NSIG random assignments (signatures).
#pragma once
#include <llvm/ADT/APInt.h>
#include <llvm/ADT/APFloat.h>
#include <llvm/ADT/SmallString.h>
#include <vector>
#include <map>
#include <string>
#include <unordered_map>
#include <cstdint>
#include <algorithm>
#include <cstdio>
#include <cstdlib>

using llvm::APInt;
using T = uint32_t;
static const int NSIG = 8;

enum Op : uint8_t {
  CONST, VAR, LIN, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, CONCAT, EXTRACT, SEXT,
  SHL, LSHR, ASHR, EQ, ULT, SLT, ITE, FADD, FSUB, FMUL, FDIV, FCMP, FPEXT, FPTRUNC
};

struct Node {
  Op op; uint8_t form; uint32_t w; uint32_t aux; uint32_t nargs; uint32_t args; // args: index in pool; aux: op specific; form (LIN): 0 coefficients in cpool, 1 in kpool, 2 constant in kpool and all coefficients 1
};

static inline uint64_t mix64(uint64_t x) {
  x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ull; x ^= x >> 27; x *= 0x94d049bb133111ebull; x ^= x >> 31; return x;
}

struct Terms {
  std::vector<Node> N;
  std::vector<T> pool;                 // arguments
  std::vector<APInt> cpool;            // constants / LIN coefficients
  std::vector<uint64_t> kpool;         // the same for LIN of at most 64 bits
  std::vector<APInt> sig;              // NSIG per node
  std::vector<std::string> varname;    // VAR aux -> name
  std::vector<char> used;              // LIN terms with a use other than in another LIN
  std::unordered_multimap<uint64_t, T> table;
  uint64_t seed = 1;

  Terms() { Node z{CONST, 0, 0, 0, 0, 0}; N.push_back(z); cpool.push_back(APInt(1, 0)); used.push_back(0); for (int i = 0; i < NSIG; i++) sig.push_back(APInt(1, 0)); }

  const Node &n(T t) const { return N[t]; }
  uint32_t w(T t) const { return N[t].w; }
  Op op(T t) const { return N[t].op; }
  T arg(T t, unsigned i) const { return pool[N[t].args + i]; }
  unsigned nargs(T t) const { return N[t].nargs; }
  std::vector<T> args(T t) const { return std::vector<T>(pool.begin() + N[t].args, pool.begin() + N[t].args + N[t].nargs); }
  bool isC(T t) const { return N[t].op == CONST; }
  const APInt &cv(T t) const { return cpool[N[t].aux]; }
  bool isZero(T t) const { return isC(t) && cv(t).isZero(); }
  bool isOnes(T t) const { return isC(t) && cv(t).isAllOnes(); }
  static uint64_t maskW(unsigned w) { return w >= 64 ? ~0ull : (1ull << w) - 1; }
  uint64_t kc(T t, unsigned i) const { return N[t].form == 2 ? 1 : kpool[N[t].aux + 1 + i]; } // forms 1 and 2
  APInt lc(T t, unsigned i) const { return N[t].form ? APInt(N[t].w, kc(t, i)) : cpool[N[t].aux + 1 + i]; } // LIN coefficient i
  APInt l0(T t) const { return N[t].form ? APInt(N[t].w, kpool[N[t].aux]) : cpool[N[t].aux]; }               // LIN constant
  const APInt &sg(T t, int k) const { return sig[(size_t)t * NSIG + k]; }

  // ---- raw evaluation
  static APInt fbits(const llvm::APFloat &f) { return f.bitcastToAPInt(); }
  static llvm::APFloat tof(const APInt &v) {
    return v.getBitWidth() == 32 ? llvm::APFloat(llvm::APFloat::IEEEsingle(), v) : llvm::APFloat(llvm::APFloat::IEEEdouble(), v);
  }
  // get(i) returns the value of argument i
  template <class F> APInt evalNode(const Node &d, F get) const {
    unsigned w = d.w;
    switch (d.op) {
    case CONST: return cpool[d.aux];
    case VAR: abort();
    case LIN: if (d.form) { uint64_t r = kpool[d.aux]; for (unsigned i = 0; i < d.nargs; i++) r += (d.form == 2 ? 1 : kpool[d.aux + 1 + i]) * get(i).getZExtValue(); return APInt(w, r & maskW(w)); }
      { APInt r = cpool[d.aux]; for (unsigned i = 0; i < d.nargs; i++) r += cpool[d.aux + 1 + i] * get(i); return r; }
    case MUL: return get(0) * get(1);
    case UDIV: { APInt b = get(1); return b.isZero() ? APInt::getAllOnes(w) : get(0).udiv(b); }
    case UREM: { APInt b = get(1); return b.isZero() ? get(0) : get(0).urem(b); }
    case SDIV: { APInt b = get(1), a = get(0); if (b.isZero()) return a.isNegative() ? APInt(w, 1) : APInt::getAllOnes(w); return a.sdiv(b); }
    case SREM: { APInt b = get(1); return b.isZero() ? get(0) : get(0).srem(b); }
    case AND: { APInt r = get(0); for (unsigned i = 1; i < d.nargs; i++) r &= get(i); return r; }
    case OR: { APInt r = get(0); for (unsigned i = 1; i < d.nargs; i++) r |= get(i); return r; }
    case XOR: { APInt r = get(0); for (unsigned i = 1; i < d.nargs; i++) r ^= get(i); return r; }
    case CONCAT: { // args[0] is the most significant
      APInt r(w, 0); unsigned pos = w;
      for (unsigned i = 0; i < d.nargs; i++) { APInt a = get(i); pos -= a.getBitWidth(); r.insertBits(a, pos); }
      return r; }
    case EXTRACT: return get(0).extractBits(w, d.aux);
    case SEXT: return get(0).sext(w);
    case SHL: { APInt b = get(1); return b.uge(w) ? APInt(w, 0) : get(0).shl(b); }
    case LSHR: { APInt b = get(1); return b.uge(w) ? APInt(w, 0) : get(0).lshr(b); }
    case ASHR: { APInt b = get(1); return b.uge(w) ? get(0).ashr(w - 1).ashr(w > 1 ? 1 : 0) : get(0).ashr(b); }
    case EQ: return APInt(1, get(0) == get(1));
    case ULT: return APInt(1, get(0).ult(get(1)));
    case SLT: return APInt(1, get(0).slt(get(1)));
    case ITE: return get(0).getBoolValue() ? get(1) : get(2);
    case FADD: { auto a = tof(get(0)); a.add(tof(get(1)), llvm::APFloat::rmNearestTiesToEven); return fbits(a); }
    case FSUB: { auto a = tof(get(0)); a.subtract(tof(get(1)), llvm::APFloat::rmNearestTiesToEven); return fbits(a); }
    case FMUL: { auto a = tof(get(0)); a.multiply(tof(get(1)), llvm::APFloat::rmNearestTiesToEven); return fbits(a); }
    case FDIV: { auto a = tof(get(0)); a.divide(tof(get(1)), llvm::APFloat::rmNearestTiesToEven); return fbits(a); }
    case FCMP: { // aux: bitmask 1=eq 2=gt 4=lt 8=uno
      auto r = tof(get(0)).compare(tof(get(1)));
      unsigned m = r == llvm::APFloat::cmpEqual ? 1 : r == llvm::APFloat::cmpGreaterThan ? 2 : r == llvm::APFloat::cmpLessThan ? 4 : 8;
      return APInt(1, (d.aux & m) != 0); }
    case FPEXT: { auto a = tof(get(0)); bool li; a.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &li); return fbits(a); }
    case FPTRUNC: { auto a = tof(get(0)); bool li; a.convert(llvm::APFloat::IEEEsingle(), llvm::APFloat::rmNearestTiesToEven, &li); return fbits(a); }
    }
    abort();
  }

  // ---- hash consing
  T intern(Op op, unsigned w, const std::vector<T> &a, uint32_t aux, const APInt *c0 = nullptr, const std::vector<APInt> *cs = nullptr) {
    uint64_t h = mix64(op * 1315423911u + w * 2654435761ull);
    for (T x : a) h = mix64(h ^ (x + 0x9e3779b97f4a7c15ull));
    auto hc = [&](const APInt &v) { for (unsigned i = 0; i < v.getNumWords(); i++) h = mix64(h ^ (v.getRawData()[i] + 0x632be59bd9b4e019ull)); };
    if (c0) hc(*c0); else h = mix64(h ^ aux);
    if (cs) for (auto &c : *cs) hc(c);
    auto rg = table.equal_range(h);
    for (auto it = rg.first; it != rg.second; ++it) {
      const Node &d = N[it->second];
      if (d.op != op || d.w != w || d.nargs != a.size()) continue;
      bool ok = true;
      for (unsigned i = 0; ok && i < a.size(); i++) ok = pool[d.args + i] == a[i];
      if (!ok) continue;
      if (c0) { ok = cpool[d.aux] == *c0; if (ok && cs) for (unsigned i = 0; ok && i < cs->size(); i++) ok = cpool[d.aux + 1 + i] == (*cs)[i]; }
      else ok = d.aux == aux;
      if (ok) return it->second;
    }
    Node d; d.op = op; d.form = 0; d.w = w; d.nargs = a.size(); d.args = pool.size();
    for (T x : a) pool.push_back(x);
    if (c0) { d.aux = cpool.size(); cpool.push_back(*c0); if (cs) for (auto &c : *cs) cpool.push_back(c); }
    else d.aux = aux;
    T id = N.size(); N.push_back(d); used.push_back(0);
    if (op != LIN) for (T x : a) used[x] = 1;
    if (op == VAR) {
      for (int k = 0; k < NSIG; k++) {
        APInt v(w, 0); uint64_t base = mix64(seed * 1000003 + aux * 7919 + k * 104729 + 12345);
        for (unsigned i = 0; i < w; i += 64) { unsigned nb = std::min(64u, w - i); uint64_t x = mix64(base + i); if (nb < 64) x &= (1ull << nb) - 1; v.insertBits(APInt(nb, x), i); }
        sig.push_back(v);
      }
    } else {
      for (int k = 0; k < NSIG; k++) sig.push_back(evalNode(d, [&](unsigned i) -> const APInt & { return sig[(size_t)pool[d.args + i] * NSIG + k]; }));
    }
    table.emplace(h, id);
    return id;
  }

  std::vector<std::pair<T, uint64_t>> linA, linB; // scratch
  // a linear combination of at most 64 bits; g is sorted by term
  T internLin(unsigned w, const std::vector<std::pair<T, uint64_t>> &g, uint64_t c) {
    bool ones = true; uint64_t h = mix64(LIN * 1315423911u + w * 2654435761ull) ^ c;
    for (auto &p : g) { h = (h ^ p.first) * 0x9e3779b97f4a7c15ull; h ^= h >> 29; if (p.second != 1) { ones = false; h ^= p.second * 0xbf58476d1ce4e5b9ull; } }
    h = mix64(h);
    auto rg = table.equal_range(h);
    for (auto it = rg.first; it != rg.second; ++it) {
      const Node &d = N[it->second];
      if (d.op != LIN || d.w != w || d.nargs != g.size() || d.form != (ones ? 2 : 1) || kpool[d.aux] != c) continue;
      bool ok = true;
      for (unsigned i = 0; ok && i < g.size(); i++) ok = pool[d.args + i] == g[i].first && (ones || kpool[d.aux + 1 + i] == g[i].second);
      if (ok) return it->second;
    }
    Node d; d.op = LIN; d.form = ones ? 2 : 1; d.w = w; d.nargs = g.size(); d.args = pool.size(); d.aux = kpool.size();
    kpool.push_back(c); for (auto &p : g) { pool.push_back(p.first); if (!ones) kpool.push_back(p.second); }
    T id = N.size(); N.push_back(d); used.push_back(0);
    uint64_t r[NSIG]; for (int k = 0; k < NSIG; k++) r[k] = c;
    for (auto &p : g) { const APInt *q = &sig[(size_t)p.first * NSIG]; for (int k = 0; k < NSIG; k++) r[k] += p.second * *q[k].getRawData(); }
    for (int k = 0; k < NSIG; k++) sig.push_back(APInt(w, r[k] & maskW(w)));
    table.emplace(h, id);
    return id;
  }

  T C(const APInt &v) { return intern(CONST, v.getBitWidth(), {}, 0, &v); }
  T C(unsigned w, uint64_t v) { return C(APInt(w, v, false)); } // truncates silently for w < 64 via mask below
  T Cm(unsigned w, uint64_t v) { if (w < 64) v &= (1ull << w) - 1; return C(APInt(w, v)); }
  T freshVar(unsigned w, const std::string &name) { varname.push_back(name); return intern(VAR, w, {}, varname.size() - 1); }

  std::unordered_map<std::string, T> named;
  T freshVarCached(unsigned w, const std::string &name) { std::string k = name + ":" + std::to_string(w); auto it = named.find(k); if (it != named.end()) return it->second; T v = freshVar(w, k); named[k] = v; return v; }

  // ---- slices: pieces from least significant to most significant
  struct Piece { T t; unsigned lo, w; };  // bits [lo,lo+w) of t; t constant folded lazily
  void pieces(T t, std::vector<Piece> &out) {
    if (op(t) == CONCAT) { for (int i = nargs(t) - 1; i >= 0; i--) { T a = arg(t, i); out.push_back({a, 0, w(a)}); } }
    else out.push_back({t, 0, w(t)});
  }

  // a concatenation of byte data; rotations stay whole
  bool byteCut(T t) { unsigned pos = 0; if (nargs(t) == 2 && op(arg(t, 0)) == EXTRACT && op(arg(t, 1)) == EXTRACT && arg(arg(t, 0), 0) == arg(arg(t, 1), 0)) return false; for (int i = nargs(t) - 1; i > 0; i--) { pos += w(arg(t, i)); if (pos % 8) return false; } return true; }
  T extract(T t, unsigned lo, unsigned wd) {
    unsigned W = w(t);
    if (lo + wd > W || wd == 0) { fprintf(stderr, "extract range\n"); abort(); }
    if (lo == 0 && wd == W) return t;
    switch (op(t)) {
    case CONST: return C(cv(t).extractBits(wd, lo));
    case EXTRACT: return extract(arg(t, 0), lo + N[t].aux, wd);
    case CONCAT: {
      std::vector<T> r; unsigned pos = 0;
      auto as = args(t);
      for (int i = (int)as.size() - 1; i >= 0; i--) {
        unsigned aw = w(as[i]); unsigned a0 = std::max(pos, lo), a1 = std::min(pos + aw, lo + wd);
        if (a0 < a1) r.push_back(extract(as[i], a0 - pos, a1 - a0));
        pos += aw;
      }
      std::reverse(r.begin(), r.end());
      return concat(r); }
    case SEXT: {
      T x = arg(t, 0); unsigned xw = w(x);
      if (lo + wd <= xw) return extract(x, lo, wd);
      if (lo >= xw) return sext(extract(x, xw - 1, 1), wd);
      return sext(extract(x, lo, xw - lo), wd); }
    case ITE: {
      T a = arg(t, 1), b = arg(t, 2);
      if (isC(a) || isC(b) || op(a) == CONCAT || op(b) == CONCAT) { T c = arg(t, 0); T ea = extract(a, lo, wd), eb = extract(b, lo, wd); return ite(c, ea, eb); }
      break; }
    case AND: case OR: case XOR: {
      // narrow when every argument is a constant or a concatenation or an extract-friendly one (byte-wise data)
      bool all = lo % 8 == 0 && (wd % 8 == 0 || lo + wd == W); auto as = args(t);
      for (T a : as) if (!(isC(a) || op(a) == SEXT || (op(a) == CONCAT && byteCut(a)))) { all = false; break; }
      if (all) { Op o = op(t); std::vector<T> r; for (T a : as) r.push_back(extract(a, lo, wd)); return nary(o, r); }
      break; }
    case LIN: if (unsigned z = lo + wd > 1 ? leadingZeros(t) : 0; z && lo + wd > W - z) { if (lo >= W - z) return Cm2(wd); return concat({Cm2(lo + wd - (W - z)), extract(t, lo, W - z - lo)}); }
      if (lo == 0) {
      bool all = true; unsigned k = nargs(t);
      for (unsigned i = 0; i < k && all; i++) { T a = arg(t, i); all = leadingZeros(a) >= W - wd && W - wd > 0; }
      if (all) {
        std::vector<std::pair<T, APInt>> ts; APInt c = l0(t).trunc(wd);
        auto as = args(t); std::vector<APInt> co; for (unsigned i = 0; i < k; i++) co.push_back(lc(t, i).trunc(wd));
        for (unsigned i = 0; i < k; i++) ts.push_back({extract(as[i], 0, wd), co[i]});
        return lin(ts, c);
      } }
      break;
    default: break;
    }
    return intern(EXTRACT, wd, {t}, lo);
  }

  T concat(const std::vector<T> &in) { // most significant first
    std::vector<T> f;
    for (T t : in) { if (op(t) == CONCAT) { auto a = args(t); f.insert(f.end(), a.begin(), a.end()); } else f.push_back(t); }
    std::vector<T> r; unsigned tw = 0;
    for (T t : f) {
      tw += w(t);
      if (!r.empty()) {
        T p = r.back();
        if (isC(p) && isC(t)) { APInt v = cv(p).concat(cv(t)); r.back() = C(v); continue; }
        T bp = p, bt = t; unsigned lp = 0, lt = 0;
        if (op(p) == EXTRACT) { bp = arg(p, 0); lp = N[p].aux; }
        if (op(t) == EXTRACT) { bt = arg(t, 0); lt = N[t].aux; }
        if (bp == bt && lp == lt + w(t)) { r.back() = extract(bp, lt, w(p) + w(t)); continue; }
        if (op(t) == LIN && lp == w(t) && op(bp) == LIN && extract(bp, 0, lp) == t) { r.back() = extract(bp, 0, w(p) + w(t)); continue; } // the low part had been narrowed
      }
      r.push_back(t);
    }
    if (r.size() == 1) return r[0];
    return intern(CONCAT, tw, r, 0);
  }
  T zext(T t, unsigned wd) { return wd == w(t) ? t : concat({Cm(wd - w(t), 0), t}); }
  T sext(T t, unsigned wd) {
    if (wd == w(t)) return t;
    if (isC(t)) return C(cv(t).sext(wd));
    if (op(t) == SEXT) return sext(arg(t, 0), wd);
    if (op(t) == CONCAT && isC(arg(t, 0)) && !cv(arg(t, 0)).isNegative()) return zext(t, wd);
    return intern(SEXT, wd, {t}, 0);
  }
  unsigned leadingZeros(T t) {
    if (isC(t)) return cv(t).countl_zero();
    if (op(t) == CONCAT && isC(arg(t, 0))) { T a = arg(t, 0); unsigned z = cv(a).countl_zero(); return z; }
    if (op(t) == LIN && w(t) <= 64 && nargs(t) <= 6) { // a sum that cannot wrap
      unsigned __int128 m = kpool[N[t].aux]; unsigned W = w(t);
      for (unsigned i = 0; i < nargs(t); i++) { T a = arg(t, i); unsigned z = op(a) == LIN ? 0 : leadingZeros(a); if (!z) return 0; m += (unsigned __int128)kc(t, i) * maskW(W - z); }
      if (m >> W) return 0;
      unsigned z = 0; while (z < W && !((m >> (W - 1 - z)) & 1)) z++; return z;
    }
    return 0;
  }
  unsigned trailingZeros(T t) {
    if (isC(t)) return cv(t).countr_zero();
    if (op(t) == CONCAT) { T a = arg(t, nargs(t) - 1); if (isC(a)) return cv(a).countr_zero(); }
    return 0;
  }

  T shlC(T t, unsigned k) { unsigned W = w(t); if (k == 0) return t; if (k >= W) return Cm2(W); return concat({extract(t, 0, W - k), Cm2(k)}); }
  T lshrC(T t, unsigned k) { unsigned W = w(t); if (k == 0) return t; if (k >= W) return Cm2(W); return concat({Cm2(k), extract(t, k, W - k)}); }
  T Cm2(unsigned w) { return C(APInt(w, 0)); }

  // try to see a set of terms as disjoint slices; succeeds when at each bit at most one is nonzero
  bool disjoint(const std::vector<T> &a, T &res) {
    if (a.size() > 16) return false;
    bool any = false;
    for (T t : a) { if (op(t) == CONCAT) { for (unsigned i = 0; i < nargs(t); i++) if (isZero(arg(t, i))) any = true; } else if (!isC(t)) return false; }
    if (!any) return false;
    unsigned W = w(a[0]);
    std::vector<unsigned> cuts = {0, W};
    std::vector<std::vector<Piece>> ps(a.size());
    for (size_t i = 0; i < a.size(); i++) {
      pieces(a[i], ps[i]); unsigned pos = 0;
      for (auto &p : ps[i]) {
        if (isC(p.t) && !cv(p.t).isZero()) { // split runs of zeros inside constants
          const APInt v = cv(p.t);
          for (unsigned b = 1; b < v.getBitWidth(); b++) if (v[b] != v[b - 1]) cuts.push_back(pos + b);
        }
        pos += p.w; cuts.push_back(pos);
      }
    }
    std::sort(cuts.begin(), cuts.end()); cuts.erase(std::unique(cuts.begin(), cuts.end()), cuts.end());
    if (cuts.size() > 40) return false;
    std::vector<T> out;
    for (size_t s = 0; s + 1 < cuts.size(); s++) {
      T nz = 0;
      for (T t : a) { T e = extract(t, cuts[s], cuts[s + 1] - cuts[s]); if (isZero(e)) continue; if (nz) return false; nz = e; }
      out.push_back(nz ? nz : Cm2(cuts[s + 1] - cuts[s]));
    }
    std::reverse(out.begin(), out.end());
    res = concat(out);
    return true;
  }

  // A sum that is also rotated, masked or stored stays one summand of later sums: otherwise the
  // sums of a compression function would contain all those of the rounds before.
  bool opaqueLin(T t) const { return used[t] && N[t].nargs > 8; }
  // a == b by expanding such summands, latest first
  bool linEqual(T a, T b) {
    unsigned W = w(a); if (W > 64 || (op(a) != LIN && op(b) != LIN)) return false;
    uint64_t M = maskW(W), c = 0; std::map<T, uint64_t> m; unsigned steps = 0;
    auto put = [&](T t, uint64_t k) { if (isC(t)) { c += k * cv(t).getZExtValue(); return; } auto &q = m[t]; q = (q + k) & M; if (!q) m.erase(t); };
    put(a, 1); put(b, M);
    while (!m.empty()) {
      auto it = m.end(); do { --it; } while (it != m.begin() && op(it->first) != LIN);
      if (op(it->first) != LIN || steps++ > 200) return false;
      T t = it->first; uint64_t k = it->second; m.erase(it); c += k * kpool[N[t].aux];
      for (unsigned i = 0; i < nargs(t); i++) put(arg(t, i), k * kc(t, i));
    }
    return (c & M) == 0;
  }
  // merge k * (sorted list of t's atoms) into acc
  struct KP { T t; uint64_t k; };
  void linAdd(unsigned W, uint64_t &c, std::vector<std::pair<T, uint64_t>> &acc, std::vector<std::pair<T, uint64_t>> &tmp, T t, uint64_t k) {
    k &= maskW(W); if (k == 0) return;
    if (isC(t)) { c += k * cv(t).getZExtValue(); return; }
    if (op(t) == LIN && !opaqueLin(t)) {
      c += k * kpool[N[t].aux]; unsigned m = nargs(t), a0 = N[t].args; const Node &d = N[t];
      tmp.clear(); tmp.reserve(acc.size() + m); size_t i = 0; unsigned j = 0; uint64_t M = maskW(W);
      while (i < acc.size() || j < m) {
        if (j == m || (i < acc.size() && acc[i].first < pool[a0 + j])) { tmp.push_back(acc[i++]); continue; }
        T x = pool[a0 + j]; uint64_t q = (k * (d.form == 2 ? 1 : kpool[d.aux + 1 + j])) & M; j++;
        if (i < acc.size() && acc[i].first == x) { q = (q + acc[i].second) & M; i++; }
        if (q) tmp.push_back({x, q});
      }
      acc.swap(tmp); return;
    }
    if (op(t) == XOR && isOnes(arg(t, 0))) { std::vector<T> r(args(t)); r.erase(r.begin()); std::vector<std::pair<T, uint64_t>> sa, sb; T x; { sa.swap(acc); sb.swap(tmp); x = nary(XOR, r); acc.swap(sa); tmp.swap(sb); } c -= k; linAdd(W, c, acc, tmp, x, 0 - k); return; }
    if (op(t) == CONCAT && nargs(t) == 2 && isZero(arg(t, 0)) && op(arg(t, 1)) == LIN && __builtin_ctzll(k) >= w(arg(t, 0)) && !opaqueLin(arg(t, 1))) {
      // k * zext(sum), where k shifts the carries of the sum out
      T l = arg(t, 1); unsigned m = nargs(l); c += k * kpool[N[l].aux];
      std::vector<std::pair<T, uint64_t>> sa, sb; sa.swap(acc); sb.swap(tmp);
      std::vector<std::pair<T, uint64_t>> q; for (unsigned i = 0; i < m; i++) { T x = arg(l, i); uint64_t kk = kc(l, i); q.push_back({zext(x, W), kk}); }
      acc.swap(sa); tmp.swap(sb);
      for (auto &p : q) linAdd(W, c, acc, tmp, p.first, k * p.second);
      return;
    }
    if (op(t) == CONCAT) { T l = arg(t, nargs(t) - 1); if (isC(l) && !isZero(l)) { // constant low bits are a constant summand
      std::vector<T> r(args(t)); r.back() = Cm2(w(l)); uint64_t v = cv(l).getZExtValue(); c += k * v;
      std::vector<std::pair<T, uint64_t>> sa, sb; sa.swap(acc); sb.swap(tmp); T x = concat(r); acc.swap(sa); tmp.swap(sb);
      linAdd(W, c, acc, tmp, x, k); return; } }
    if (op(t) == CONCAT) {
      unsigned z = trailingZeros(t);
      if (z > 0) {
        std::vector<std::pair<T, uint64_t>> sa, sb; sa.swap(acc); sb.swap(tmp);
        T x = extract(t, z, W - z);
        if (op(x) == EXTRACT && N[x].aux == 0 && w(arg(x, 0)) == W) x = arg(x, 0); else x = zext(x, W);
        acc.swap(sa); tmp.swap(sb);
        linAdd(W, c, acc, tmp, x, k << z); return;
      }
    }
    auto it = std::lower_bound(acc.begin(), acc.end(), t, [](auto &a, T b) { return a.first < b; });
    if (it != acc.end() && it->first == t) { it->second = (it->second + k) & maskW(W); if (!it->second) acc.erase(it); }
    else acc.insert(it, {t, k});
  }
  T lin(const std::vector<std::pair<T, APInt>> &in, const APInt &c) {
    if (c.getBitWidth() > 64) return linWide(in, c);
    std::vector<KP> q; for (auto &p : in) q.push_back({p.first, p.second.getZExtValue()});
    return lin64(c.getBitWidth(), q.data(), q.size(), c.getZExtValue());
  }
  T lin64(unsigned W, const KP *in, size_t n, uint64_t c) {
    std::vector<std::pair<T, uint64_t>> acc, tmp; acc.swap(linA); tmp.swap(linB); acc.clear();
    for (size_t i = 0; i < n; i++) linAdd(W, c, acc, tmp, in[i].t, in[i].k);
    uint64_t M = maskW(W); c &= M;
    auto fin = [&](T r) { linA.swap(acc); linB.swap(tmp); return r; };
    for (size_t i = 0; i < acc.size(); i++) if (op(acc[i].first) == AND) for (size_t j = 0; j < acc.size(); j++)
      if (j != i && acc[j].second == acc[i].second && (compAnd(acc[i].first, acc[j].first) || disjointBool(acc[i].first, acc[j].first))) {
        T o = nary(OR, {acc[i].first, acc[j].first}); std::vector<KP> r; for (size_t k = 0; k < acc.size(); k++) if (k != i && k != j) r.push_back({acc[k].first, acc[k].second});
        r.push_back({o, acc[i].second}); return fin(lin64(W, r.data(), r.size(), c)); }
    if (acc.empty()) return fin(C(APInt(W, c)));
    auto p2 = [](uint64_t k) { return k && !(k & (k - 1)); };
    if (acc.size() == 1) {
      if (c == 0 && acc[0].second == 1) return fin(acc[0].first);
      if (c == M && acc[0].second == M) return fin(nary(XOR, {C(APInt::getAllOnes(W)), acc[0].first}));
      if (c == 0 && p2(acc[0].second)) return fin(shlC(acc[0].first, __builtin_ctzll(acc[0].second)));
    }
    if (acc.size() <= 16) { // disjoint sums are concatenations
      bool ok = true; for (auto &p : acc) if (!p2(p.second) || op(p.first) != CONCAT) { ok = p2(p.second) && leadingZeros(p.first) > 0; if (!ok) break; }
      if (ok) {
        std::vector<T> ts; for (auto &p : acc) ts.push_back(shlC(p.first, __builtin_ctzll(p.second)));
        if (c) ts.push_back(C(APInt(W, c)));
        T r; if (disjoint(ts, r)) return fin(r);
      }
    }
    return fin(internLin(W, acc, c));
  }
  T linWide(const std::vector<std::pair<T, APInt>> &in, APInt c) {
    unsigned W = c.getBitWidth();
    std::vector<std::pair<T, APInt>> f;
    auto add = [&](auto &&self, T t, APInt k) -> void {
      if (k.isZero()) return;
      if (isC(t)) { c += k * cv(t); return; }
      if (op(t) == LIN) {
        c += k * l0(t); unsigned m = nargs(t);
        for (unsigned i = 0; i < m; i++) f.push_back({arg(t, i), k * lc(t, i)});
        return;
      }
      if (op(t) == XOR && isOnes(arg(t, 0))) { // canonical order: constant first
        std::vector<T> r(args(t)); r.erase(r.begin()); T x = nary(XOR, r); c -= k; self(self, x, -k); return;
      }
      if (op(t) == CONCAT) {
        unsigned z = trailingZeros(t);
        if (z > 0) {
          T x = extract(t, z, W - z);
          if (op(x) == EXTRACT && N[x].aux == 0 && w(arg(x, 0)) == W) x = arg(x, 0);
          else x = zext(x, W);
          self(self, x, k.shl(z)); return;
        }
      }
      f.push_back({t, k});
    };
    for (auto &p : in) add(add, p.first, p.second);
    std::sort(f.begin(), f.end(), [](auto &a, auto &b) { return a.first < b.first; });
    std::vector<std::pair<T, APInt>> g;
    for (auto &p : f) { if (!g.empty() && g.back().first == p.first) g.back().second += p.second; else g.push_back(p); }
    g.erase(std::remove_if(g.begin(), g.end(), [](auto &p) { return p.second.isZero(); }), g.end());
    for (size_t i = 0; i < g.size(); i++) if (op(g[i].first) == AND) for (size_t j = 0; j < g.size(); j++)
      if (j != i && g[j].second == g[i].second && (compAnd(g[i].first, g[j].first) || disjointBool(g[i].first, g[j].first))) {
        T o = nary(OR, {g[i].first, g[j].first}); std::vector<std::pair<T, APInt>> r; for (size_t k = 0; k < g.size(); k++) if (k != i && k != j) r.push_back(g[k]);
        r.push_back({o, g[i].second}); return linWide(r, c); }
    if (g.empty()) return C(c);
    if (g.size() == 1) {
      if (c.isZero() && g[0].second.isOne()) return g[0].first;
      if (c.isAllOnes() && g[0].second.isAllOnes()) return nary(XOR, {C(APInt::getAllOnes(W)), g[0].first});
      if (c.isZero() && g[0].second.isPowerOf2()) return shlC(g[0].first, g[0].second.logBase2());
    }
    // disjoint sums are concatenations
    if (g.size() <= 16) {
      bool ok = true; for (auto &p : g) if (!p.second.isPowerOf2() || op(p.first) != CONCAT) { ok = p.second.isPowerOf2() && leadingZeros(p.first) > 0; if (!ok) break; }
      if (ok) {
        std::vector<T> ts; for (auto &p : g) ts.push_back(shlC(p.first, p.second.logBase2()));
        if (!c.isZero()) ts.push_back(C(c));
        T r; if (disjoint(ts, r)) return r;
      }
    }
    std::vector<T> a; std::vector<APInt> cs;
    for (auto &p : g) { a.push_back(p.first); cs.push_back(p.second); }
    return intern(LIN, W, a, 0, &c, &cs);
  }
  T add(T a, T b) { if (w(a) == 1) return nary(XOR, {a, b}); unsigned W = w(a); if (W <= 64) { KP q[2] = {{a, 1}, {b, 1}}; return lin64(W, q, 2, 0); } return lin({{a, APInt(W, 1)}, {b, APInt(W, 1)}}, APInt(W, 0)); }
  T sub(T a, T b) { if (w(a) == 1) return nary(XOR, {a, b}); unsigned W = w(a); if (W <= 64) { KP q[2] = {{a, 1}, {b, maskW(W)}}; return lin64(W, q, 2, 0); } return lin({{a, APInt(W, 1)}, {b, APInt::getAllOnes(W)}}, APInt(W, 0)); }
  T mul(T a, T b) {
    unsigned W = w(a);
    if (W == 1) return nary(AND, {a, b});
    if (isC(a)) std::swap(a, b);
    if (isC(b)) { APInt k = cv(b); return lin({{a, k}}, APInt(W, 0)); }
    if (a > b) std::swap(a, b);
    return intern(MUL, W, {a, b}, 0);
  }
  T bnot(T a) { return nary(XOR, {C(APInt::getAllOnes(w(a))), a}); }
  bool isComp(T s, T t) { // s == ~t, syntactically
    for (int r = 0; r < 2; r++, std::swap(s, t)) if (op(s) == XOR && isOnes(arg(s, 0))) {
      if (nargs(s) == 2) { if (arg(s, 1) == t) return true; continue; }
      if (op(t) == XOR && nargs(t) + 1 == nargs(s)) { bool ok = true; for (unsigned i = 0; i < nargs(t) && ok; i++) ok = arg(t, i) == arg(s, i + 1); if (ok) return true; }
    }
    return false;
  }
  bool compAnd(T a, T b) { // conjunctions with complementary members
    if (op(a) != AND && op(b) != AND) return false;
    unsigned na = op(a) == AND ? nargs(a) : 1, nb = op(b) == AND ? nargs(b) : 1; if (na * nb > 64) return false;
    for (unsigned i = 0; i < na; i++) for (unsigned j = 0; j < nb; j++) if (isComp(op(a) == AND ? arg(a, i) : a, op(b) == AND ? arg(b, j) : b)) return true;
    return false;
  }
  // Bitwise functions of at most five leaves are identified by their truth table.
  static uint32_t ttv(unsigned i) { static const uint32_t v[5] = {0xaaaaaaaau, 0xccccccccu, 0xf0f0f0f0u, 0xff00ff00u, 0xffff0000u}; return v[i]; }
  bool boolLeaves(T t, std::vector<T> &lv, unsigned &budget) {
    if (isC(t)) return isZero(t) || isOnes(t);
    if (op(t) == AND || op(t) == OR || op(t) == XOR) { if (budget == 0) return false; budget--; for (unsigned i = 0; i < nargs(t); i++) if (!boolLeaves(arg(t, i), lv, budget)) return false; return true; }
    if (std::find(lv.begin(), lv.end(), t) != lv.end()) return true;
    if (lv.size() == 5) return false;
    lv.push_back(t); return true;
  }
  uint32_t boolTable(T t, const std::vector<T> &lv) {
    if (isC(t)) return isZero(t) ? 0 : ~0u;
    auto it = std::find(lv.begin(), lv.end(), t); if (it != lv.end()) return ttv(it - lv.begin());
    uint32_t r = op(t) == AND ? ~0u : 0;
    for (unsigned i = 0; i < nargs(t); i++) { uint32_t x = boolTable(arg(t, i), lv); if (op(t) == AND) r &= x; else if (op(t) == OR) r |= x; else r ^= x; }
    return r;
  }
  std::map<std::pair<std::vector<T>, uint32_t>, T> boolRep;
  bool canonBool(Op o, const std::vector<T> &a, T &res) {
    std::vector<T> lv; unsigned budget = 24;
    if (a.size() > 8) return false;
    for (T t : a) if (!boolLeaves(t, lv, budget)) return false;
    if (budget == 24 && lv.size() + (o == XOR && isOnes(a[0])) == a.size()) { // a flat operation: its own form
      if (lv.size() < 2) return false;
    }
    std::sort(lv.begin(), lv.end());
    uint32_t r = o == AND ? ~0u : 0;
    for (T t : a) { uint32_t x = boolTable(t, lv); if (o == AND) r &= x; else if (o == OR) r |= x; else r ^= x; }
    for (size_t i = 0; i < lv.size();) { // drop what does not matter
      uint32_t v = ttv(i), c1 = r & v, c0 = r & ~v; unsigned sh = 1u << i;
      if ((c1 >> sh) == c0) { // independent of leaf i: remove it and compact
        uint32_t q = 0; unsigned n = 1u << (lv.size() - 1);
        for (unsigned k = 0; k < n; k++) { unsigned lo = k & (sh - 1), hi = k >> i; unsigned src = (hi << (i + 1)) | lo; if (r >> src & 1) q |= 1u << k; }
        lv.erase(lv.begin() + i); for (unsigned k = n; k < 32; k *= 2) q |= q << k; r = q;
      } else i++;
    }
    unsigned W = w(a[0]);
    if (r == 0) { res = Cm2(W); return true; }
    if (r == ~0u) { res = C(APInt::getAllOnes(W)); return true; }
    if (lv.size() == 1) { if (r == ttv(0)) { res = lv[0]; return true; } if (o == XOR && a.size() == 2 && isOnes(a[0]) && a[1] == lv[0]) return false; res = bnot(lv[0]); return true; }
    auto k = std::make_pair(lv, r); auto it = boolRep.find(k);
    if (it != boolRep.end()) { res = it->second; return true; }
    res = intern(o, W, a, 0); boolRep.emplace(std::move(k), res); return true;
  }
  bool disjointBool(T a, T b) { // a & b == 0 by truth table
    auto bw = [&](T t) { return op(t) == AND || op(t) == OR || op(t) == XOR; }; if (!bw(a) && !bw(b)) return false;
    std::vector<T> lv; unsigned budget = 24; if (!boolLeaves(a, lv, budget) || !boolLeaves(b, lv, budget)) return false;
    return (boolTable(a, lv) & boolTable(b, lv)) == 0;
  }
  T nary(Op o, const std::vector<T> &in) { // AND OR XOR
    unsigned W = w(in[0]);
    std::vector<T> f; APInt c = o == AND ? APInt::getAllOnes(W) : APInt(W, 0);
    auto put = [&](T t) { if (isC(t)) { if (o == AND) c &= cv(t); else if (o == OR) c |= cv(t); else c ^= cv(t); } else f.push_back(t); };
    for (T t : in) { if (op(t) == o) for (T x : args(t)) put(x); else put(t); }
    std::sort(f.begin(), f.end());
    if (o == XOR) {
      std::vector<T> g; for (T t : f) { if (!g.empty() && g.back() == t) g.pop_back(); else g.push_back(t); } f.swap(g);
      if (f.empty()) return C(c);
      if (f.size() == 1 && c.isZero()) return f[0];
      if (W > 1) {
        // d ^ (b & (c ^ d)) selects; disjoint conjunctions are joined by OR
        for (size_t i = 0; i < f.size(); i++) if (op(f[i]) == AND && nargs(f[i]) == 2) for (int k = 0; k < 2; k++) {
          T x = arg(f[i], k), b = arg(f[i], 1 - k); if (op(x) != XOR || nargs(x) != 2) continue;
          for (int q = 0; q < 2; q++) { T d = arg(x, q), cc = arg(x, 1 - q); if (isC(d) || isC(cc)) continue; auto it = std::find(f.begin(), f.end(), d); if (it == f.end()) continue;
            T fi = f[i]; std::vector<T> r; for (T t : f) if (t != fi && t != d) r.push_back(t);
            T m1 = nary(AND, {b, cc}), m2 = nary(AND, {bnot(b), d}); r.push_back(nary(OR, {m1, m2})); r.push_back(C(c)); return nary(XOR, r); }
        }
        for (size_t i = 0; i < f.size(); i++) for (size_t j = i + 1; j < f.size(); j++) if (compAnd(f[i], f[j])) {
          std::vector<T> r; for (size_t k = 0; k < f.size(); k++) if (k != i && k != j) r.push_back(f[k]); r.push_back(nary(OR, {f[i], f[j]})); r.push_back(C(c)); return nary(XOR, r); }
      }
    } else {
      f.erase(std::unique(f.begin(), f.end()), f.end());
      if (o == AND && c.isZero()) return C(c);
      if (o == OR && c.isAllOnes()) return C(c);
      // x op ~x
      for (T t : f) if (op(t) == XOR && nargs(t) == 2 && isOnes(arg(t, 0)) && std::binary_search(f.begin(), f.end(), arg(t, 1))) return o == AND ? Cm2(W) : C(APInt::getAllOnes(W));
      if (f.empty()) return C(c);
      bool neutral = o == AND ? c.isAllOnes() : c.isZero();
      if (f.size() == 1 && neutral) return f[0];
      if (!neutral && W > 1) { // constant masks with few runs become slices
        std::vector<unsigned> cuts = {0}; for (unsigned b = 1; b < W; b++) if (c[b] != c[b - 1]) cuts.push_back(b); cuts.push_back(W);
        bool bytes = true; for (unsigned b : cuts) if (b % 8 && b != W) bytes = false;
        if (cuts.size() <= 4 || bytes) {
          T rest = f.size() == 1 ? f[0] : nary(o, f); std::vector<T> out;
          for (size_t s = 0; s + 1 < cuts.size(); s++) {
            unsigned lo = cuts[s], wd = cuts[s + 1] - lo; bool bit = c[lo];
            out.push_back(o == AND ? (bit ? extract(rest, lo, wd) : Cm2(wd)) : (bit ? C(APInt::getAllOnes(wd)) : extract(rest, lo, wd)));
          }
          std::reverse(out.begin(), out.end());
          return concat(out);
        }
      }
    }
    bool neutral = o == AND ? c.isAllOnes() : c.isZero();
    std::vector<T> a; if (!neutral) a.push_back(C(c)); a.insert(a.end(), f.begin(), f.end());
    if (W > 1) {
      // common leading zeros
      unsigned z = o == AND ? 0 : W;
      for (T t : a) { unsigned l = leadingZeros(t); if (o == AND && isC(t) && l < W) l &= ~7u; z = o == AND ? std::max(z, l) : std::min(z, l); }
      if (z >= W) return Cm2(W);
      if (z > 0) { std::vector<T> r; for (T t : a) r.push_back(extract(t, 0, W - z)); return concat({Cm2(z), nary(o, r)}); }
      if (o == AND) { unsigned tz = 0; for (T t : a) { unsigned l = trailingZeros(t); if (isC(t) && l < W) l &= ~7u; tz = std::max(tz, l); } if (tz > 0 && tz < W) { std::vector<T> r; for (T t : a) r.push_back(extract(t, tz, W - tz)); return concat({nary(o, r), Cm2(tz)}); } }
      if (o != AND) { T r; if (disjoint(a, r)) return r; }
      // byte-wise data: all arguments have identical piece boundaries -> split
      if (a.size() >= 2) {
        bool all = true; for (T t : a) if (!(isC(t) || (op(t) == CONCAT && byteCut(t)))) { all = false; break; }
        if (all) {
          std::vector<unsigned> ref; bool same = true;
          for (T t : a) if (!isC(t)) { std::vector<Piece> p; pieces(t, p); std::vector<unsigned> b; unsigned pos = 0; for (auto &q : p) b.push_back(pos += q.w); if (ref.empty()) ref = b; else if (ref != b) { same = false; break; } }
          if (same && ref.size() > 1) {
            std::vector<T> out; unsigned pos = 0;
            for (unsigned e : ref) { std::vector<T> r; for (T t : a) r.push_back(extract(t, pos, e - pos)); out.push_back(nary(o, r)); pos = e; }
            std::reverse(out.begin(), out.end());
            return concat(out);
          }
        }
      }
    }
    // the constant is kept first
    T r; if (W > 1 && canonBool(o, a, r)) return r;
    return intern(o, W, a, 0);
  }
  T shl(T a, T b) { unsigned W = w(a); if (isC(b)) { return cv(b).uge(W) ? Cm2(W) : shlC(a, cv(b).getZExtValue()); } if (isZero(a)) return a; return intern(SHL, W, {a, b}, 0); }
  T lshr(T a, T b) { unsigned W = w(a); if (isC(b)) { return cv(b).uge(W) ? Cm2(W) : lshrC(a, cv(b).getZExtValue()); } if (isZero(a)) return a; return intern(LSHR, W, {a, b}, 0); }
  T ashr(T a, T b) {
    unsigned W = w(a);
    if (isC(b)) { unsigned k = cv(b).uge(W) ? W - 1 : cv(b).getZExtValue(); return k == 0 ? a : sext(extract(a, k, W - k), W); }
    return intern(ASHR, W, {a, b}, 0);
  }
  T bin(Op o, T a, T b) { // UDIV SDIV UREM SREM
    unsigned W = w(a);
    if (isC(b) && cv(b).isPowerOf2() && o == UDIV) return lshrC(a, cv(b).logBase2());
    if (isC(b) && cv(b).isPowerOf2() && o == UREM) { unsigned k = cv(b).logBase2(); return k == 0 ? Cm2(W) : zext(extract(a, 0, k), W); }
    if (isC(a) && isC(b) && !cv(b).isZero()) { Node d{o, 0, W, 0, 2, 0}; APInt x = cv(a), y = cv(b); return C(evalNode(d, [&](unsigned i) -> APInt { return i ? y : x; })); }
    return intern(o, W, {a, b}, 0);
  }
  T eq(T a, T b) {
    if (a == b) return C(APInt(1, 1));
    if (isC(a) && isC(b)) return C(APInt(1, 0));
    if (w(a) == 1) return bnot(nary(XOR, {a, b}));
    if (isC(a)) std::swap(a, b);
    if (isC(b)) {
      APInt k = cv(b);
      if (op(a) == CONCAT) {
        std::vector<T> as = args(a), rest, kr; unsigned pos = w(a); bool dropped = false;
        for (T x : as) { pos -= w(x); APInt kk = k.extractBits(w(x), pos); if (isC(x)) { if (cv(x) != kk) return C(APInt(1, 0)); dropped = true; } else { rest.push_back(x); kr.push_back(C(kk)); } }
        if (dropped) { if (rest.empty()) return C(APInt(1, 1)); T x = concat(rest), y = concat(kr); return eq(x, y); }
      }
      if (op(a) == LIN && nargs(a) == 1 && lc(a, 0).isOne()) { APInt d = k - l0(a); return eq(arg(a, 0), C(d)); }
      if (op(a) == XOR && isC(arg(a, 0))) { std::vector<T> r(args(a)); r.erase(r.begin()); APInt d = k ^ cv(arg(a, 0)); return eq(nary(XOR, r), C(d)); }
      if (op(a) == ITE && (isC(arg(a, 1)) || isC(arg(a, 2)))) { T c = arg(a, 0), x = arg(a, 1), y = arg(a, 2); T ex = eq(x, b), ey = eq(y, b); return ite(c, ex, ey); }
      if (op(a) == SEXT) { T x = arg(a, 0); unsigned xw = w(x); APInt lowk = k.trunc(xw); if (lowk.sext(w(a)) != k) return C(APInt(1, 0)); return eq(x, C(lowk)); }
      return intern(EQ, 1, {a, b}, 0);
    }
    // cancel common parts of sums
    if (op(a) == LIN || op(b) == LIN) {
      T d = sub(a, b);
      if (isC(d)) return C(APInt(1, cv(d).isZero()));
    }
    if (a > b) std::swap(a, b);
    return intern(EQ, 1, {a, b}, 0);
  }
  T ult(T a, T b) {
    if (a == b) return C(APInt(1, 0));
    if (isC(a) && isC(b)) return C(APInt(1, cv(a).ult(cv(b))));
    if (isZero(b)) return C(APInt(1, 0));
    if (isZero(a)) return bnot(eq(b, a));
    if (isOnes(a)) return C(APInt(1, 0));
    if (w(a) == 1) return nary(AND, {bnot(a), b});
    unsigned z = std::min(leadingZeros(a), leadingZeros(b));
    if (z > 0) { unsigned W = w(a); return ult(extract(a, 0, W - z), extract(b, 0, W - z)); }
    if (isC(b) && cv(b).isOne()) return eq(a, Cm2(w(a)));
    if (isC(b)) { unsigned za = leadingZeros(a); if (za > 0 && cv(b).uge(APInt::getOneBitSet(w(a), w(a) - za))) return C(APInt(1, 1)); if (cv(b).isPowerOf2()) { unsigned k = cv(b).logBase2(); if (k > 0) return eq(extract(a, k, w(a) - k), Cm2(w(a) - k)); } }
    return intern(ULT, 1, {a, b}, 0);
  }
  T ule(T a, T b) { return bnot(ult(b, a)); }
  T slt(T a, T b) {
    if (a == b) return C(APInt(1, 0));
    if (isC(a) && isC(b)) return C(APInt(1, cv(a).slt(cv(b))));
    if (leadingZeros(a) > 0 && leadingZeros(b) > 0) return ult(a, b);
    if (isZero(b)) return extract(a, w(a) - 1, 1);
    if (isC(b) && leadingZeros(a) > 0 && cv(b).isNegative()) return C(APInt(1, 0));
    if (isC(a) && leadingZeros(b) > 0 && cv(a).isNegative()) return C(APInt(1, 1));
    if (isOnes(a)) return bnot(extract(b, w(b) - 1, 1));
    return intern(SLT, 1, {a, b}, 0);
  }
  T sle(T a, T b) { return bnot(slt(b, a)); }
  T ite(T c, T a, T b) {
    if (isC(c)) return cv(c).isZero() ? b : a;
    if (a == b) return a;
    if (op(c) == XOR && nargs(c) == 2 && isOnes(arg(c, 0))) return ite(arg(c, 1), b, a);
    if (w(a) == 1) {
      if (isC(a)) return cv(a).isZero() ? nary(AND, {bnot(c), b}) : nary(OR, {c, b});
      if (isC(b)) return cv(b).isZero() ? nary(AND, {c, a}) : nary(OR, {bnot(c), a});
      if (a == c) return nary(OR, {c, b});
      if (b == c) return nary(AND, {c, a});
    }
    if (op(a) == ITE && arg(a, 0) == c) a = arg(a, 1);
    if (op(b) == ITE && arg(b, 0) == c) b = arg(b, 2);
    if (a == b) return a;
    return intern(ITE, w(a), {c, a, b}, 0);
  }
  T fbin(Op o, T a, T b) {
    unsigned W = w(a);
    if (isC(a) && isC(b)) { Node d{o, 0, W, 0, 2, 0}; APInt x = cv(a), y = cv(b); return C(evalNode(d, [&](unsigned i) -> APInt { return i ? y : x; })); }
    if (o == FADD && isC(a)) std::swap(a, b);
    if (o == FADD && isC(b) && (cv(b).isZero() || cv(b).isSignMask())) {
      // exact: x + (+0): -0 -> +0, NaN -> quieted, everything else unchanged; x + (-0): only NaN changes
      APInt ex = W == 32 ? APInt(32, 0x7f800000u) : APInt(64, 0x7ff0000000000000ull);
      APInt q = W == 32 ? APInt(32, 0x00400000u) : APInt(64, 0x0008000000000000ull);
      T mag = zext(extract(a, 0, W - 1), W);
      T nan = ult(C(ex), mag);
      T r = ite(nan, nary(OR, {a, C(q)}), a);
      if (cv(b).isZero()) r = ite(eq(a, C(APInt::getSignMask(W))), Cm2(W), r);
      return r;
    }
    return intern(o, W, {a, b}, 0);
  }
  T fcmp(unsigned mask, T a, T b) {
    if (mask == 0) return C(APInt(1, 0)); if (mask == 15) return C(APInt(1, 1));
    if (isC(a) && isC(b)) { Node d{FCMP, 0, 1, mask, 2, 0}; APInt x = cv(a), y = cv(b); return C(evalNode(d, [&](unsigned i) -> APInt { return i ? y : x; })); }
    return intern(FCMP, 1, {a, b}, mask);
  }
  T fconv(Op o, T a) {
    unsigned W = o == FPEXT ? 64 : 32;
    if (isC(a)) { Node d{o, 0, W, 0, 1, 0}; APInt x = cv(a); return C(evalNode(d, [&](unsigned) -> APInt { return x; })); }
    return intern(o, W, {a}, 0);
  }
  std::string str(T t, int d) {
    static const char *nm[] = {"const","var","lin","mul","udiv","sdiv","urem","srem","and","or","xor","cat","ext","sext","shl","lshr","ashr","eq","ult","slt","ite","fadd","fsub","fmul","fdiv","fcmp","fpext","fptrunc"};
    if (op(t) == CONST) { llvm::SmallString<64> s; cv(t).toStringUnsigned(s, 16); return std::string(s.c_str()) + ":" + std::to_string(w(t)); }
    if (op(t) == VAR) return varname[N[t].aux];
    if (d == 0) return "#" + std::to_string(t);
    std::string r = "(" + std::string(nm[op(t)]) + "#" + std::to_string(t);
    if (op(t) == EXTRACT) r += "[" + std::to_string(N[t].aux) + "+" + std::to_string(w(t)) + "]";
    if (op(t) == LIN) { llvm::SmallString<64> s; l0(t).toStringUnsigned(s, 16); r += " c=" + std::string(s.c_str()); }
    for (unsigned i = 0; i < nargs(t); i++) { r += " "; if (op(t) == LIN) { llvm::SmallString<64> s; lc(t, i).toStringSigned(s, 10); r += std::string(s.c_str()) + "*"; } r += str(arg(t, i), d - 1); }
    return r + ")";
  }
  // rebuild node t with new arguments through the canonicalising constructors
  T rebuild(T t, const std::vector<T> &a) {
    const Node d = N[t];
    switch (d.op) {
    case CONST: case VAR: return t;
    case LIN: { std::vector<std::pair<T, APInt>> ts; for (unsigned i = 0; i < a.size(); i++) ts.push_back({a[i], lc(t, i)}); APInt c = l0(t); return lin(ts, c); }
    case MUL: return mul(a[0], a[1]);
    case UDIV: case SDIV: case UREM: case SREM: return bin(d.op, a[0], a[1]);
    case AND: case OR: case XOR: return nary(d.op, a);
    case CONCAT: return concat(a);
    case EXTRACT: return extract(a[0], d.aux, d.w);
    case SEXT: return sext(a[0], d.w);
    case SHL: return shl(a[0], a[1]);
    case LSHR: return lshr(a[0], a[1]);
    case ASHR: return ashr(a[0], a[1]);
    case EQ: return eq(a[0], a[1]);
    case ULT: return ult(a[0], a[1]);
    case SLT: return slt(a[0], a[1]);
    case ITE: return ite(a[0], a[1], a[2]);
    case FADD: case FSUB: case FMUL: case FDIV: return fbin(d.op, a[0], a[1]);
    case FCMP: return fcmp(d.aux, a[0], a[1]);
    case FPEXT: case FPTRUNC: return fconv(d.op, a[0]);
    }
    abort();
  }
};
