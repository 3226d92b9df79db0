// Boolean-ring (GF(2) polynomial, "algebraic normal form") terms.
//
// Every symbolic bit of the executed program is a polynomial over GF(2) in
// boolean variables with x*x = x, kept in canonical form and hash-consed, so two
// bits that are equal as boolean functions of the *base* variables have the same
// id.  Variables are
//   BASE  - symbolic inputs / uninitialised memory / environment results
//   DEF   - names for a polynomial that grew over the size limit
//   NOR   - z <=> (all of a list of polynomials are 0)   (big equality tests)
// DEF and NOR variables are defined to the SMT solver by equations.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <string>
#include <map>
#include <unordered_map>
#include <algorithm>
#include <stdexcept>

typedef uint32_t P;   // polynomial id; 0 and 1 are the constants
typedef uint32_t Mn;  // monomial id; 0 is the empty monomial (constant one)
typedef uint32_t Vr;  // variable id
static const uint32_t NONE = 0xffffffffu;
static const int NS = 4; // sample words: 64*NS sample assignments

struct OutOfBudget : std::runtime_error { using std::runtime_error::runtime_error; };

enum VarKind : uint8_t { V_BASE, V_DEF, V_NOR };
struct Sample { uint64_t w[NS]; };

struct NorInfo {
  std::vector<P> args;                   // z = AND (1+arg)
  std::vector<P> cur;                    // the arguments under the current substitution, sorted
  std::vector<std::pair<Vr, P>> rules;   // z*v = z*affine
};
struct VarInfo {
  VarKind kind;
  P def = NONE;      // V_DEF
  int nor = -1;      // V_NOR
  P subst = NONE;    // value fixed by the path condition
  Sample s;
};

static inline uint64_t mix64(uint64_t x) {
  x ^= x >> 33; x *= 0xff51afd7ed558ccdULL; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ULL; x ^= x >> 33; return x;
}

struct PolyCtx {
  // monomials
  std::vector<uint32_t> mdata; struct MI { uint32_t off; uint16_t len; uint16_t z; };
  std::vector<MI> monos;
  std::unordered_multimap<uint64_t, Mn> mtab;
  // polys
  std::vector<uint32_t> pdata; struct PI { uint64_t off; uint32_t len; uint8_t z; };
  std::vector<PI> polys;
  std::vector<uint32_t> ptab; size_t ptabMask;
  // caches
  struct CE { P a, b, c; };
  std::vector<CE> xorC, andC; static const size_t CM = (1u << 18) - 1;
  std::vector<VarInfo> vars;
  std::vector<P> varPoly;
  std::vector<NorInfo> nors;
  std::map<std::vector<P>, P> norMemo;
  std::unordered_map<P, P> aliasMemo;
  std::unordered_map<P, std::vector<P>> norParts; // expanded conjunctions: p <=> all of these are 0
  std::map<std::pair<Vr,Vr>, bool> norConflict;
  std::unordered_map<P, Sample> evalMemo;
  size_t termLimit = 30000, memLimitWords = 500u * 1000 * 1000;
  uint64_t rng = 0x1234567;
  uint64_t nXor = 0, nAnd = 0;
  bool recording = false;

  uint64_t rnd() { rng += 0x9e3779b97f4a7c15ULL; return mix64(rng); }

  PolyCtx() {
    ptab.assign(1u << 16, NONE); ptabMask = (1u << 16) - 1;
    xorC.assign(CM + 1, CE{NONE, NONE, 0}); andC = xorC;
    monos.push_back({0, 0, 0});
    mtab.emplace(hashArr(nullptr, 0), 0);
    polys.push_back({0, 0, 0}); polys.push_back({0, 1, 0}); pdata.push_back(0);
    insertTab(0); insertTab(1);
  }
  static uint64_t hashArr(const uint32_t *d, size_t n) {
    uint64_t h = 0x9ae16a3b2f90404fULL ^ n;
    for (size_t i = 0; i < n; i++) { h ^= d[i]; h *= 0x9fb21c651e98df25ULL; h ^= h >> 29; }
    return mix64(h);
  }
  void insertTab(P p) {
    uint64_t h = hashArr(pdata.data() + polys[p].off, polys[p].len);
    size_t i = h & ptabMask;
    while (ptab[i] != NONE) i = (i + 1) & ptabMask;
    ptab[i] = p;
  }
  P intern(const std::vector<uint32_t> &ms) { // ms sorted, distinct
    size_t n = ms.size();
    if (n == 0) return 0;
    uint64_t h = hashArr(ms.data(), n);
    size_t i = h & ptabMask;
    while (ptab[i] != NONE) {
      PI &q = polys[ptab[i]];
      if (q.len == n && !memcmp(pdata.data() + q.off, ms.data(), n * 4)) return ptab[i];
      i = (i + 1) & ptabMask;
    }
    if (pdata.size() + n > memLimitWords) throw OutOfBudget("term memory");
    P id = polys.size();
    uint8_t z = 0;
    for (auto m : ms) if (monos[m].z) { z = 1; break; }
    polys.push_back({pdata.size(), (uint32_t)n, z});
    pdata.insert(pdata.end(), ms.begin(), ms.end());
    ptab[i] = id;
    if (polys.size() * 2 > ptab.size()) {
      size_t ns = ptab.size() * 4;
      ptab.assign(ns, NONE); ptabMask = ns - 1;
      for (P p = 0; p < polys.size(); p++) insertTab(p);
    }
    return id;
  }
  Mn internMono(const uint32_t *v, size_t n) {
    uint64_t h = hashArr(v, n);
    auto r = mtab.equal_range(h);
    for (auto it = r.first; it != r.second; ++it) {
      MI &m = monos[it->second];
      if (m.len == n && !memcmp(mdata.data() + m.off, v, n * 4)) return it->second;
    }
    Mn id = monos.size();
    uint16_t z = 0;
    for (size_t i = 0; i < n; i++) if (vars[v[i]].kind == V_NOR) z++;
    if (mdata.size() + n > memLimitWords / 2) throw OutOfBudget("monomial memory");
    monos.push_back({(uint32_t)mdata.size(), (uint16_t)n, z});
    mdata.insert(mdata.end(), v, v + n);
    mtab.emplace(h, id);
    return id;
  }
  // --- variables
  P newVar(VarKind k) {
    Vr v = vars.size();
    VarInfo vi; vi.kind = k;
    for (int i = 0; i < NS; i++) {
      uint64_t r = rnd();
      if (i == 1) r &= rnd();
      if (i == 2) r |= rnd();
      if (i == 3) { r &= rnd() & rnd(); r &= ~0xffULL; }  // the last sample byte: all zero
      vi.s.w[i] = r;
    }
    vars.push_back(vi);
    Mn m = internMono(&v, 1);
    std::vector<uint32_t> ms(1, m);
    P p = intern(ms);
    varPoly.push_back(p);
    return p;
  }
  P newBase() { return newVar(V_BASE); }
  bool isVar(P p, Vr *v = nullptr) const {
    const PI &q = polys[p];
    if (q.len != 1) return false;
    const MI &m = monos[pdata[q.off]];
    if (m.len != 1) return false;
    if (v) *v = mdata[m.off];
    return true;
  }
  size_t len(P p) const { return polys[p].len; }
  // --- ring operations
  P Xor(P a, P b) {
    if (a == b) return 0;
    if (a == 0) return b;
    if (b == 0) return a;
    if (a > b) std::swap(a, b);
    if (b == 1) return 0; // unreachable (a==1,b==1)
    CE &e = xorC[mix64(((uint64_t)a << 32) | b) & CM];
    if (e.a == a && e.b == b) return e.c;
    nXor++;
    static std::vector<uint32_t> buf; buf.clear();
    const PI &pa = polys[a], &pb = polys[b];
    const uint32_t *x = pdata.data() + pa.off, *xe = x + pa.len, *y = pdata.data() + pb.off, *ye = y + pb.len;
    while (x < xe && y < ye) {
      if (*x == *y) { x++; y++; } else if (*x < *y) buf.push_back(*x++); else buf.push_back(*y++);
    }
    buf.insert(buf.end(), x, xe); buf.insert(buf.end(), y, ye);
    P c = intern(buf);
    if (buf.size() > termLimit) c = alias(c);
    CE &e2 = xorC[mix64(((uint64_t)a << 32) | b) & CM];
    e2.a = a; e2.b = b; e2.c = c;
    return c;
  }
  P Not(P a) { return a == 0 ? 1 : a == 1 ? 0 : Xor(a, 1); }
  P alias(P p) {
    if (len(p) < 2) return p;
    auto it = aliasMemo.find(p);
    if (it != aliasMemo.end()) return it->second;
    Sample s = eval(p);
    P v = newVar(V_DEF);
    vars.back().def = p; vars.back().s = s;
    aliasMemo[p] = v;
    return v;
  }
  void monoProd(Mn a, Mn b, std::vector<uint32_t> &out) {
    const MI &x = monos[a], &y = monos[b];
    out.clear();
    const uint32_t *p = mdata.data() + x.off, *pe = p + x.len, *q = mdata.data() + y.off, *qe = q + y.len;
    while (p < pe && q < qe) {
      if (*p == *q) { out.push_back(*p); p++; q++; } else if (*p < *q) out.push_back(*p++); else out.push_back(*q++);
    }
    out.insert(out.end(), p, pe); out.insert(out.end(), q, qe);
  }
  P monoPoly(Mn m) { std::vector<uint32_t> v(1, m); return intern(v); }
  // product of a set of variables, using the rules of NOR atoms
  P normMono(const std::vector<uint32_t> &vs) {
    for (size_t i = 0; i < vs.size(); i++) if (vars[vs[i]].kind == V_NOR) {
      NorInfo &n = nors[vars[vs[i]].nor];
      for (auto &r : n.rules) {
        auto it = std::lower_bound(vs.begin(), vs.end(), r.first);
        if (it != vs.end() && *it == r.first) {
          std::vector<uint32_t> rest(vs.begin(), it); rest.insert(rest.end(), it + 1, vs.end());
          P q = r.second;
          if (q == 0) return 0;
          P a = normMono(rest);
          return And(a, q);
        }
      }
      for (size_t j = 0; j < i; j++) if (vars[vs[j]].kind == V_NOR && conflict(vs[j], vs[i])) return 0;
    }
    return monoPoly(internMono(vs.data(), vs.size()));
  }
  bool conflict(Vr a, Vr b) {
    auto k = std::make_pair(a, b);
    auto it = norConflict.find(k);
    if (it != norConflict.end()) return it->second;
    std::vector<std::pair<Vr, P>> rules; bool incons = false;
    for (Vr v : {a, b}) for (P p : nors[vars[v].nor].args) if (isBaseAffine(p)) addRule(rules, p, incons);
    return norConflict[k] = incons;
  }
  P And(P a, P b) {
    if (a == b) return a;
    if (a == 0 || b == 0) return 0;
    if (a == 1) return b;
    if (b == 1) return a;
    if (a > b) std::swap(a, b);
    CE &e = andC[mix64(((uint64_t)a << 32) | b) & CM];
    if (e.a == a && e.b == b) return e.c;
    if ((len(a) > len(b) ? len(a) - len(b) : len(b) - len(a)) == 1 && len(a) > 4 && Not(a) == b) return 0;
    for (int s = 0; s < 2; s++) { // a variable that stands for a polynomial, times that polynomial or its complement
      P x = s ? b : a, y = s ? a : b; Vr v; if (len(x) != 1 || !isVar(x, &v) || vars[v].kind != V_DEF) continue;
      if (y == vars[v].def) return x;
      if (len(y) > 4 && Not(y) == vars[v].def) return 0;
    }
    if (!inNor) for (int s = 0; s < 2; s++) { // a conjunction of zero tests is one zero test
      P x = s ? b : a, y = s ? a : b; Vr v; if (!polys[x].z || !isVar(x, &v) || vars[v].kind != V_NOR) continue;
      auto it = norParts.find(y); if (it == norParts.end()) continue;
      std::vector<P> u = nors[vars[v].nor].cur; u.insert(u.end(), it->second.begin(), it->second.end()); return Nor(u);
    }
    for (int s = 0; s < 2; s++) { // complement of a zero test
      P x = s ? b : a, y = s ? a : b; Vr v; if (!polys[x].z || len(x) != 2 || len(y) < 2) continue;
      P nx = Not(x); if (isVar(nx, &v) && vars[v].kind == V_NOR) return Xor(y, And(nx, y));
    }
    if (!inNor) { Vr v, w; if (polys[a].z && polys[b].z && isVar(a, &v) && isVar(b, &w) && vars[v].kind == V_NOR && vars[w].kind == V_NOR) { std::vector<P> u = nors[vars[v].nor].cur; const auto &c = nors[vars[w].nor].cur; u.insert(u.end(), c.begin(), c.end()); return Nor(u); } }
    for (int s = 0; s < 2; s++) { // z * p = 0 for an argument p of the NOR atom z
      P x = s ? b : a, y = s ? a : b; Vr v;
      if (polys[x].z && isVar(x, &v) && vars[v].kind == V_NOR) {
        const auto &c = nors[vars[v].nor].cur;
        if (std::binary_search(c.begin(), c.end(), y)) return 0;
        if (std::binary_search(c.begin(), c.end(), Not(y))) return x;
      }
    }
    std::vector<P> conj; // both are conjunctions of zero tests: stay one when it gets long
    if (!inNor) { auto ia = norParts.find(a), ib = norParts.find(b);
      if (ia != norParts.end() || ib != norParts.end() || (len(a) == 2 && len(b) == 2)) {
        auto put = [&](decltype(ia) &it, P q) { if (it != norParts.end()) { conj.insert(conj.end(), it->second.begin(), it->second.end()); return true; }
          Vr v; P n = Not(q); if (!isVar(n, &v) || vars[v].kind != V_BASE) return false; conj.push_back(n); return true; };
        if (!put(ia, a) || !put(ib, b)) conj.clear();
        else if ((uint64_t)len(a) * len(b) > 64) { P c = Nor(conj); CE &e3 = andC[mix64(((uint64_t)a << 32) | b) & CM]; e3.a = a; e3.b = b; e3.c = c; return c; }
      } }
    nAnd++;
    P oa = a, ob = b;
    if ((uint64_t)len(a) * len(b) > 4 * termLimit) {
      if (len(a) > len(b)) a = alias(a); else b = alias(b);
      if ((uint64_t)len(a) * len(b) > 4 * termLimit) { a = alias(a); b = alias(b); }
    }
    P c;
    std::vector<uint32_t> out, vs;
    bool z = polys[a].z || polys[b].z;
    size_t la = len(a), lb = len(b);
    if (!z) {
      out.reserve(la * lb);
      for (size_t i = 0; i < la; i++) for (size_t j = 0; j < lb; j++) {
        monoProd(pdata[polys[a].off + i], pdata[polys[b].off + j], vs);
        out.push_back(internMono(vs.data(), vs.size()));
      }
    } else {
      for (size_t i = 0; i < la; i++) for (size_t j = 0; j < lb; j++) {
        Mn ma = pdata[polys[a].off + i], mb = pdata[polys[b].off + j];
        monoProd(ma, mb, vs);
        if (!monos[ma].z && !monos[mb].z) out.push_back(internMono(vs.data(), vs.size()));
        else {
          P q = normMono(vs);
          for (size_t k = 0; k < len(q); k++) out.push_back(pdata[polys[q].off + k]);
        }
      }
    }
    std::sort(out.begin(), out.end());
    size_t w = 0;
    for (size_t i = 0; i < out.size();) {
      size_t j = i; while (j < out.size() && out[j] == out[i]) j++;
      if ((j - i) & 1) out[w++] = out[i];
      i = j;
    }
    out.resize(w);
    c = intern(out);
    if (w > termLimit) c = alias(c);
    if (c > 1 && !conj.empty() && !norParts.count(c)) norParts[c] = conj;
    CE &e2 = andC[mix64(((uint64_t)oa << 32) | ob) & CM];
    e2.a = oa; e2.b = ob; e2.c = c;
    return c;
  }
  // arguments of a disjunction that is already the negation of a NOR atom
  void orArgs(P a, std::vector<P> &v) {
    P n = Not(a); Vr x;
    if (n > 1 && polys[n].z && isVar(n, &x) && vars[x].kind == V_NOR) { const auto &c = nors[vars[x].nor].cur; v.insert(v.end(), c.begin(), c.end()); }
    else { auto it = norParts.find(n); if (it != norParts.end()) v.insert(v.end(), it->second.begin(), it->second.end()); else v.push_back(a); }
  }
  P Or(P a, P b) {
    if (a == b || b == 0) return a;
    if (a == 0) return b;
    if (a == 1 || b == 1) return 1;
    if ((uint64_t)(len(a) + 1) * (len(b) + 1) > 24) { std::vector<P> v; orArgs(a, v); orArgs(b, v); return Not(Nor(v)); }
    P r = Xor(Xor(a, b), And(a, b));
    if (r > 1) { std::vector<P> v; orArgs(a, v); orArgs(b, v); P n = Not(r); if (!norParts.count(n)) norParts[n] = v; }
    return r;
  }
  // conjunction of two conditions (control flow, not arithmetic): big ones become or join one zero test
  void norArgsOf(P p, std::vector<P> &u) { Vr v; if (polys[p].z && isVar(p, &v) && vars[v].kind == V_NOR) { const auto &c = nors[vars[v].nor].cur; u.insert(u.end(), c.begin(), c.end()); return; }
    auto it = norParts.find(p); if (it != norParts.end()) u.insert(u.end(), it->second.begin(), it->second.end()); else u.push_back(Not(p)); }
  P LAnd(P a, P b) {
    if (a < 2 || b < 2 || a == b) return And(a, b);
    Vr v, w; bool na = polys[a].z && isVar(a, &v) && vars[v].kind == V_NOR, nb = polys[b].z && isVar(b, &w) && vars[w].kind == V_NOR;
    if (na || nb) { if ((!na && len(a) < 3) || (!nb && len(b) < 3)) return And(a, b); }
    else if (len(a) < 8 || len(b) < 8 || len(a) * len(b) < 256) return And(a, b);
    else if ((uint64_t)len(a) * len(b) <= 20000 && (fewVars({a}) || fewVars({b}))) { P r = And(a, b); if (len(r) <= std::max(len(a), len(b))) return r; } // one side is a function of a handful of variables and is absorbed
    std::vector<P> u; norArgsOf(a, u); norArgsOf(b, u); return Nor(u);
  }
  P Mux(P c, P t, P f) { if (t == f) return t;
    if (t == 0) return LAnd(Not(c), f); if (f == 0) return LAnd(c, t); if (t == 1) return Not(LAnd(Not(c), Not(f))); if (f == 1) return Not(LAnd(c, Not(t)));
    return Xor(f, And(c, Xor(t, f))); }

  bool isBaseAffine(P p) const {
    const PI &q = polys[p];
    for (size_t i = 0; i < q.len; i++) {
      const MI &m = monos[pdata[q.off + i]];
      if (m.len > 1) return false;
      if (m.len == 1 && vars[mdata[m.off]].kind != V_BASE) return false;
    }
    return true;
  }
  Vr topVar(P p) const { // highest variable of an affine polynomial
    Vr best = 0; bool any = false;
    const PI &q = polys[p];
    for (size_t i = 0; i < q.len; i++) {
      const MI &m = monos[pdata[q.off + i]];
      for (int k = 0; k < m.len; k++) { Vr v = mdata[m.off + k]; if (!any || v > best) { best = v; any = true; } }
    }
    return any ? best : NONE;
  }
  bool hasVar(P p, Vr v) const {
    const PI &q = polys[p];
    for (size_t i = 0; i < q.len; i++) {
      const MI &m = monos[pdata[q.off + i]];
      const uint32_t *b = mdata.data() + m.off;
      if (m.len == 1 ? b[0] == v : std::binary_search(b, b + m.len, v)) return true;
    }
    return false;
  }
  // substitute v := q in p (direct, unmemoised)
  P subst1(P p, Vr v, P q) {
    if (p < 2 || !hasVar(p, v)) return p;
    std::vector<uint32_t> rest; P with = 0;
    std::vector<P> withs;
    size_t n = len(p);
    for (size_t i = 0; i < n; i++) {
      Mn m = pdata[polys[p].off + i];
      const MI mi = monos[m];
      std::vector<uint32_t> vs(mdata.begin() + mi.off, mdata.begin() + mi.off + mi.len);
      auto it = std::lower_bound(vs.begin(), vs.end(), v);
      if (it == vs.end() || *it != v) rest.push_back(m);
      else { vs.erase(it); withs.push_back(normMono(vs)); }
    }
    for (P w : withs) with = Xor(with, w);
    P r = intern(rest);
    return Xor(r, And(with, q));
  }
  void addRule(std::vector<std::pair<Vr, P>> &rules, P p, bool &incons) {
    for (auto &r : rules) p = subst1(p, r.first, r.second);
    if (p == 0) return;
    if (p == 1) { incons = true; return; }
    Vr t = topVar(p);
    P rhs = Xor(p, varPoly[t]);
    for (auto &r : rules) r.second = subst1(r.second, t, rhs);
    rules.push_back({t, rhs});
  }
  int inNor = 0;
  bool fewVars(const std::vector<P> &args) {
    Vr seen[8]; int n = 0;
    for (P a : args) { const PI q = polys[a]; if (q.len > 256) return false;
      for (size_t i = 0; i < q.len; i++) { const MI &m = monos[pdata[q.off + i]]; for (int k = 0; k < m.len; k++) { Vr v = mdata[m.off + k]; int j = 0; while (j < n && seen[j] != v) j++; if (j == n) { if (n == 8 || vars[v].kind != V_BASE) return false; seen[n++] = v; } } } }
    return true;
  }
  // z <=> all args are zero
  P Nor(std::vector<P> args0) {
    std::vector<P> args; for (P a : args0) orArgs(a, args);
    std::sort(args.begin(), args.end());
    args.erase(std::unique(args.begin(), args.end()), args.end());
    if (!args.empty() && args[0] == 0) args.erase(args.begin());
    if (args.empty()) return 1;
    if (args[0] == 1) return 0;
    for (size_t i = 0; i < args.size(); i++) // p and 1+p
      if (std::binary_search(args.begin(), args.end(), Not(args[i]))) return 0;
    if (args.size() == 1) return Not(args[0]);
    uint64_t est = 1;
    for (P a : args) { est *= len(a) + 1; if (est > 64) break; }
    if (est > 64 && fewVars(args)) est = 0; // over a handful of variables the expanded form is short
    if (est <= 64) { P r = 1; inNor++; for (P a : args) r = And(r, Not(a)); inNor--; if (r > 1 && !norParts.count(r)) norParts[r] = args; return r; }
    auto it = norMemo.find(args);
    if (it != norMemo.end()) return it->second;
    NorInfo ni; ni.args = args; ni.cur = args;
    bool incons = false;
    for (P a : args) if (isBaseAffine(a)) addRule(ni.rules, a, incons);
    P r;
    if (incons) r = 0;
    else {
      if (ni.rules.size() == 0 || true) {
        Sample s; for (int k = 0; k < NS; k++) s.w[k] = ~0ULL;
        for (P a : args) { Sample t = eval(a); for (int k = 0; k < NS; k++) s.w[k] &= ~t.w[k]; }
        r = newVar(V_NOR);
        vars.back().nor = nors.size(); vars.back().s = s;
        // the monomial was interned before kind was visible: kind passed to newVar, so z flag is right
        nors.push_back(ni);
      }
    }
    norMemo[args] = r;
    return r;
  }
  // --- evaluation under the samples
  Sample evalMonoS(Mn m) const {
    Sample s; for (int k = 0; k < NS; k++) s.w[k] = ~0ULL;
    const MI &mi = monos[m];
    for (int i = 0; i < mi.len; i++) { const Sample &t = vars[mdata[mi.off + i]].s; for (int k = 0; k < NS; k++) s.w[k] &= t.w[k]; }
    return s;
  }
  Sample eval(P p) const {
    Sample s; for (int k = 0; k < NS; k++) s.w[k] = 0;
    const PI &q = polys[p];
    for (size_t i = 0; i < q.len; i++) { Sample t = evalMonoS(pdata[q.off + i]); for (int k = 0; k < NS; k++) s.w[k] ^= t.w[k]; }
    return s;
  }
  void recomputeSamples() { // dependent variables, ascending
    for (Vr v = 0; v < vars.size(); v++) {
      VarInfo &x = vars[v];
      if (x.kind == V_DEF) x.s = eval(x.def);
      else if (x.kind == V_NOR) {
        Sample s; for (int k = 0; k < NS; k++) s.w[k] = ~0ULL;
        for (P a : nors[x.nor].args) { Sample t = eval(a); for (int k = 0; k < NS; k++) s.w[k] &= ~t.w[k]; }
        x.s = s;
      } else if (x.subst != NONE) x.s = eval(x.subst);
    }
  }
  std::string str(P p) const {
    if (p == 0) return "0";
    std::string r; const PI &q = polys[p];
    for (size_t i = 0; i < q.len && i < 12; i++) {
      const MI &m = monos[pdata[q.off + i]];
      if (i) r += "+";
      if (!m.len) r += "1";
      for (int k = 0; k < m.len; k++) { char b[32]; Vr v = mdata[m.off + k]; snprintf(b, 32, "%c%u", "xdz"[vars[v].kind], v); r += b; }
    }
    if (q.len > 12) r += "+...(" + std::to_string(q.len) + ")";
    return r;
  }
};
