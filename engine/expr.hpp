// Bit-vector expressions (hash-consed, simplified on construction), models, and the z3 back end.
#pragma once
#include <z3.h>
#include <cstdint>
#include <cstring>
#include <cmath>
#include <map>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>
#include <algorithm>
#include <chrono>

typedef unsigned __int128 u128;
typedef __int128 i128;

enum Op : uint8_t {
  OConst, OVar, OAdd, OSub, OMul, OUDiv, OSDiv, OURem, OSRem, OAnd, OOr, OXor, OShl, OLShr, OAShr,
  OEq, OUlt, OUle, OSlt, OSle, OIte, OConcat, OExtract, OZExt, OSExt, ONot,
  OFAdd, OFSub, OFMul, OFDiv, OFEq, OFLt, OFLe, OFIsNan, OFToS, OFToU, OSToF, OUToF, OFToF
};

struct VarSet { std::vector<uint32_t> v; };

struct Expr {
  Op op; uint16_t w; uint32_t id; uint32_t p;   // p: extract low bit / var id
  u128 c;
  Expr *k[3];
  const VarSet *vars;
  uint64_t umax;             // unsigned upper bound (w<=64)
  mutable uint64_t stamp = 0; mutable u128 ev = 0;
  Z3_ast bv = nullptr, bl = nullptr;
};
typedef Expr E;

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline uint64_t mask64(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i128 sxt(u128 v, unsigned w) { return w >= 128 ? (i128)v : ((i128)(v << (128 - w))) >> (128 - w); }
static inline int64_t sx64(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : ((int64_t)(v << (64 - w))) >> (64 - w); }

struct VarInfo { std::string name; unsigned w; };

struct ExprPool {
  struct H { size_t operator()(const E *e) const {
    size_t h = e->op * 1000003ull + e->w * 7919ull + e->p * 104729ull + (uint64_t)e->c * 0x9E3779B97F4A7C15ull + (uint64_t)(e->c >> 64) * 31;
    for (int i = 0; i < 3; i++) h = h * 0x9E3779B97F4A7C15ull + (e->k[i] ? e->k[i]->id + 1 : 0), h ^= h >> 29;
    return h; } };
  struct Q { bool operator()(const E *a, const E *b) const {
    return a->op == b->op && a->w == b->w && a->p == b->p && a->c == b->c && a->k[0] == b->k[0] && a->k[1] == b->k[1] && a->k[2] == b->k[2]; } };
  struct Set { // open addressing
    std::vector<E *> t; size_t n = 0; Set() : t(1 << 16, nullptr) {}
  } tab;
  std::vector<char *> arenas; size_t used = 0, cap = 0;
  uint32_t next = 0;
  std::vector<VarInfo> vars;
  std::map<std::vector<uint32_t>, const VarSet *> vsets;
  std::unordered_map<uint64_t, const VarSet *> unions;
  VarSet empty;
  uint64_t epoch = 1;

  E *alloc() {
    if (used + sizeof(E) > cap) { cap = 1 << 20; used = 0; arenas.push_back((char *)malloc(cap)); }
    E *e = new (arenas.back() + used) E(); used += sizeof(E); return e;
  }
  const VarSet *internSet(std::vector<uint32_t> v) {
    if (v.empty()) return &empty;
    auto it = vsets.find(v); if (it != vsets.end()) return it->second;
    auto *s = new VarSet{v}; vsets[v] = s; return s;
  }
  const VarSet *uni(const VarSet *a, const VarSet *b) {
    if (a == b || b->v.empty()) return a;
    if (a->v.empty()) return b;
    uint64_t key = (uint64_t)a * 0x9E3779B97F4A7C15ull ^ (uint64_t)b;
    auto it = unions.find(key);
    // key collisions are possible in theory: verify
    if (it != unions.end()) { auto *s = it->second; if (std::includes(s->v.begin(), s->v.end(), a->v.begin(), a->v.end()) && std::includes(s->v.begin(), s->v.end(), b->v.begin(), b->v.end()) && s->v.size() <= a->v.size() + b->v.size()) return s; }
    std::vector<uint32_t> r; r.reserve(a->v.size() + b->v.size());
    std::set_union(a->v.begin(), a->v.end(), b->v.begin(), b->v.end(), std::back_inserter(r));
    auto *s = internSet(r); unions[key] = s; return s;
  }
  E *mk(Op op, unsigned w, E *a = nullptr, E *b = nullptr, E *c = nullptr, u128 cv = 0, uint32_t p = 0) {
    E t; t.op = op; t.w = w; t.p = p; t.c = cv; t.k[0] = a; t.k[1] = b; t.k[2] = c;
    if (tab.n * 2 > tab.t.size()) {
      std::vector<E *> o; o.swap(tab.t); tab.t.assign(o.size() * 2, nullptr);
      for (E *e : o) if (e) { size_t i = H()(e) & (tab.t.size() - 1); while (tab.t[i]) i = (i + 1) & (tab.t.size() - 1); tab.t[i] = e; }
    }
    size_t m = tab.t.size() - 1, i = H()(&t) & m;
    while (tab.t[i]) { if (Q()(tab.t[i], &t)) return tab.t[i]; i = (i + 1) & m; }
    E *e = alloc(); *e = t; e->id = next++;
    e->vars = &empty;
    for (int j = 0; j < 3; j++) if (e->k[j]) e->vars = uni(e->vars, e->k[j]->vars);
    if (op == OVar) e->vars = internSet({p});
    e->umax = ub(e);
    tab.t[i] = e; tab.n++;
    return e;
  }
  static uint64_t pow2up(uint64_t x) { while (x & (x + 1)) x |= x >> 1; return x; }
  uint64_t ub(E *e) {
    if (e->w > 64) return ~0ull;
    uint64_t M = mask64(e->w);
    auto *a = e->k[0], *b = e->k[1];
    switch (e->op) {
      case OConst: return (uint64_t)e->c;
      case OZExt: return a->umax;
      case OConcat: return (b->w < 64 ? a->umax << b->w : 0) | mask64(b->w) ? ((b->w < 64 ? a->umax << b->w : 0) | pow2up(b->umax)) : M;
      case OAnd: return std::min(a->umax, b->umax);
      case OOr: case OXor: return std::min(M, pow2up(a->umax | b->umax));
      case OAdd: { u128 s = (u128)a->umax + b->umax; return s <= M ? (uint64_t)s : M; }
      case OMul: { u128 s = (u128)a->umax * b->umax; return s <= M ? (uint64_t)s : M; }
      case OLShr: return b->op == OConst ? ((uint64_t)b->c < 64 ? a->umax >> (uint64_t)b->c : 0) : a->umax;
      case OUDiv: return b->op == OConst && b->c ? a->umax / (uint64_t)b->c : M;
      case OURem: return b->op == OConst && b->c ? std::min(a->umax, (uint64_t)b->c - 1) : M;
      case OIte: return std::max(b->umax, e->k[2]->umax);
      case OExtract: return e->p == 0 && a->w <= 64 ? std::min(M, a->umax) : (a->w <= 64 ? std::min(M, a->umax >> e->p) : M);
      default: return M;
    }
  }
  E *var(const std::string &n, unsigned w) {
    vars.push_back({n, w});
    return mk(OVar, w, nullptr, nullptr, nullptr, 0, vars.size() - 1);
  }
};
extern ExprPool P;

static inline E *K(u128 v, unsigned w) { return P.mk(OConst, w, nullptr, nullptr, nullptr, v & maskw(w)); }
static inline bool isK(E *e) { return e->op == OConst; }
static inline bool isK(E *e, u128 v) { return e->op == OConst && e->c == v; }

E *mkExtract(E *a, unsigned lo, unsigned w);
E *mkConcat(E *hi, E *lo);
E *mkZExt(E *a, unsigned w);
E *mkSExt(E *a, unsigned w);
E *mkBin(Op op, E *a, E *b);
E *mkIte(E *c, E *a, E *b);
E *mkNot(E *a);
E *mkEq(E *a, E *b);
E *mkF(Op op, unsigned w, E *a, E *b = nullptr);
static inline E *TRUE_() { return K(1, 1); }
static inline E *FALSE_() { return K(0, 1); }
bool foldBin(Op op, u128 a, u128 b, unsigned w, u128 &r);
u128 foldF(Op op, unsigned w, unsigned aw, u128 a, u128 b);

// ---- models and solver
struct Model { std::vector<std::pair<uint32_t, uint64_t>> kv; /*sorted by var*/
  uint64_t get(uint32_t v) const { auto it = std::lower_bound(kv.begin(), kv.end(), std::make_pair(v, (uint64_t)0)); return it != kv.end() && it->first == v ? it->second : 0; } };
typedef std::shared_ptr<const Model> ModelP;

struct Evaluator { // evaluates many expressions under one model (memoised until another model is used)
  const Model *m = nullptr; uint64_t ep = 0; std::vector<uint64_t> dense;
  void bind(const ModelP &mp); ModelP cur;
  u128 operator()(E *e) { return ev(e); }
  u128 ev(E *e);
};

struct Stats { uint64_t queries = 0, qcache = 0, qmodel = 0, z3calls = 0, z3unknown = 0; double z3time = 0, z3max = 0; };
extern Stats stats;

enum SatRes { UNSAT, SAT, UNKNOWN };
struct Solver {
  Z3_context ctx = nullptr; Z3_solver fast = nullptr; Z3_solver big = nullptr; double slowLimit = 60;
  std::vector<Z3_ast> varAst;
  struct CE { SatRes r; ModelP m; };
  std::unordered_map<std::string, CE> cache;
  void init();
  Z3_ast bv(E *e); Z3_ast bl(E *e);
  // constraints must be jointly sat together with 'base' model on untouched variables
  SatRes check(const std::vector<E *> &cs, E *extra, const ModelP &base, ModelP &out);
  void slice(const std::vector<E *> &cs, E *extra, std::vector<E *> &out);
};
extern Solver S;
