// fxsym: bounded symbolic execution of LLVM bitcode with z3 (see DESIGN.md).
#include "expr.hpp"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Support/raw_ostream.h>
#include <set>
#include <unordered_set>
#include <deque>
#include <fcntl.h>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <signal.h>
using namespace llvm;
using std::string; using std::vector;

// ------------------------------------------------------------------ options
static string optOut, optEntry = "harness_main"; static long optCase = 0; static double optMaxTime = 600; static uint64_t optMaxSteps = 20000000;
static int tokR = -1, tokW = -1; static int optTests = 6; static int optMaxErr = 3; static bool optVerbose = false; static uint64_t optSeed = 1;
static size_t optMemMB = 3500;
static string optReplay;   // run concretely with these inputs (engine validation)
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static double tStart;

// ------------------------------------------------------------------ values
struct V { E *e = nullptr; uint64_t c = 0; V() {} template <class T, class = std::enable_if_t<std::is_integral_v<T>>> V(T x) : c((uint64_t)x) {} V(E *x) { if (isK(x) && x->w <= 64) { c = (uint64_t)x->c; } else e = x; } };
static inline E *toE(const V &v, unsigned w) { return v.e ? v.e : K(v.c, w); }

// ------------------------------------------------------------------ memory
enum OK_ : uint8_t { KGlobal, KHeap, KStack, KFunc, KNew, KNewArr };
struct Obj {
  uint32_t rc = 1, size = 0; OK_ kind = KHeap; bool ro = false; const char *name = "";
  vector<uint8_t> d; vector<E *> s; vector<uint8_t> un; uint32_t nUn = 0;
};
static const uint64_t SHIFT = 24, BASE = 0x10000;
struct Chunk { uint32_t rc = 1; Obj *o[64]; uint8_t freed[64]; };
static inline uint64_t addrOf(uint32_t id) { return ((uint64_t)id << SHIFT) + BASE; }
struct Mem {
  vector<Chunk *> ch; uint32_t next = 1;
  Mem() {}
  Mem(const Mem &m) : ch(m.ch), next(m.next) { for (auto c : ch) if (c) c->rc++; }
  Mem &operator=(const Mem &) = delete;
  ~Mem() { for (auto c : ch) if (c) unref(c); }
  static void unrefO(Obj *o) { if (o && --o->rc == 0) delete o; }
  static void unref(Chunk *c) { if (--c->rc == 0) { for (auto o : c->o) unrefO(o); delete c; } }
  Obj *get(uint32_t id) const { uint32_t k = id >> 6; if (k >= ch.size() || !ch[k]) return nullptr; return ch[k]->o[id & 63]; }
  bool isFreed(uint32_t id) const { uint32_t k = id >> 6; return k < ch.size() && ch[k] && ch[k]->freed[id & 63]; }
  Chunk *wchunk(uint32_t k) {
    if (k >= ch.size()) ch.resize(k + 1, nullptr);
    if (!ch[k]) { ch[k] = new Chunk; memset(ch[k]->o, 0, sizeof ch[k]->o); memset(ch[k]->freed, 0, 64); }
    else if (ch[k]->rc > 1) { auto *n = new Chunk(*ch[k]); n->rc = 1; for (auto o : n->o) if (o) o->rc++; ch[k]->rc--; ch[k] = n; }
    return ch[k];
  }
  Obj *wget(uint32_t id) {
    Chunk *c = wchunk(id >> 6); Obj *o = c->o[id & 63];
    if (o && o->rc > 1) { auto *n = new Obj(*o); n->rc = 1; o->rc--; c->o[id & 63] = n; o = n; }
    return o;
  }
  uint32_t add(Obj *o) { uint32_t id = next++; wchunk(id >> 6)->o[id & 63] = o; return id; }
  void kill(uint32_t id) { Chunk *c = wchunk(id >> 6); unrefO(c->o[id & 63]); c->o[id & 63] = nullptr; c->freed[id & 63] = 1; }
};

// ------------------------------------------------------------------ compiled code
struct Opd { int slot = -1; V v; };
struct Move { int dst; Opd src; };
struct Edge { uint32_t pc = 0; vector<Move> moves; };
enum COp : uint8_t { CBin, CICmp, CFCmp, CFBin, CFNeg, CCast, CSelect, CLoad, CStore, CGep, CAlloca, CBr, CCondBr, CSwitch, CRet, CCall, CInvoke, CLandingPad,
  CResume, CUnreachable, CExtract, CInsert, CAtomicRMW, CCmpXchg, CFence, CFreeze, CPhi, CVAArg, CUnsup };
struct CFunc;
struct CI {
  COp op; uint8_t sub = 0; uint16_t w = 0, w2 = 0; int dst = -1; uint32_t n = 0; // n: leaves or bytes
  vector<Opd> o; vector<uint64_t> x; vector<Edge> e; vector<unsigned> lw; // leaf widths
  vector<uint64_t> loff; const Instruction *I = nullptr; Function *F = nullptr; CFunc *cf = nullptr; int ext = -2;
};
struct CFunc {
  Function *F; vector<CI> code; uint32_t nslots = 0; vector<int> argSlot; vector<unsigned> argLeaves; bool hit = false; bool compiled = false; string name;
};

struct Frame {
  CFunc *f; uint32_t pc = 0; vector<V> r; vector<uint32_t> al; int dst = -1; vector<unsigned> *retw = nullptr; uint64_t va = 0; uint64_t uid = 0; V exc[2];
};
typedef std::shared_ptr<Frame> FrameP;
struct SymIn { string name; vector<uint32_t> vars; };
struct ExcInfo { uint64_t tinfo = 0, dtor = 0; int handlers = 0; uint64_t adj = 0; bool rethrown = false; };
struct Obs { string name; vector<V> bytes; };

struct ORef { Obj *o = nullptr; ORef(Obj *x) : o(x) { if (o) o->rc++; } ORef(const ORef &r) : o(r.o) { if (o) o->rc++; } ORef &operator=(const ORef &r) { if (r.o) r.o->rc++; Mem::unrefO(o); o = r.o; return *this; } ORef(ORef &&r) : o(r.o) { r.o = nullptr; } ~ORef() { Mem::unrefO(o); } };
struct Thr { vector<FrameP> st; vector<uint64_t> caught; vector<ORef> tls; }; // a thread that is not running: its stack and its thread-local objects
static vector<uint32_t> tlsIds; static vector<ORef> tlsInit;
struct State {
  vector<Thr> thr; size_t curThr = 0;
  vector<FrameP> st; Mem mem; vector<E *> cs; std::unordered_set<E *> known; ModelP model = std::make_shared<Model>();
  vector<SymIn> ins; vector<Obs> obs; std::map<string, int> nameCount; uint64_t steps = 0; uint64_t uid = 1; uint32_t depth = 0;
  std::map<uint64_t, ExcInfo> exc; vector<uint64_t> caught; struct JB { uint64_t uid; uint32_t pc; int dst; }; std::map<uint64_t, JB> jb;
  vector<uint8_t> pinned; string tag;
  uint32_t errnoId = 0;
  State() {}
  State(const State &) = default;
};

struct PathEnd { string why; };

// ------------------------------------------------------------------ globals
static LLVMContext LC; static std::unique_ptr<Module> M; static const DataLayout *DL;
static std::unordered_map<const GlobalValue *, uint64_t> gaddr; static std::unordered_map<uint64_t, Function *> faddr;
static std::unordered_map<const Function *, CFunc *> cfuncs; static Evaluator EV;
static State *cur; static vector<State *> work; static bool pathEnded; static uint64_t nPaths, nForks, nSteps, nAssumed, nErr, nUnsup, nExit, nSplit, nTests, nHang; static bool incomplete = false; static string incompleteWhy;
static std::map<string, uint64_t> reached; static std::map<string, int> errSeen, unsupSeen; static std::set<string> extUnknown;
static int outFd = 2; static std::map<uint64_t, int> typeIds; static std::map<string, uint64_t> forkSites;

static string jesc(const string &s) { string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o; }
static void emit(const string &s) { string l = s + "\n"; ssize_t r = write(outFd, l.data(), l.size()); (void)r; }

static string locOf(const Instruction *I) {
  if (!I) return "?";
  auto dl = I->getDebugLoc();
  if (!dl) return I->getFunction() ? demangle(I->getFunction()->getName().str()) : "?";
  string s; const DILocation *l = dl.get();
  while (l) { s += (s.empty() ? "" : " < ") + string(l->getFilename().str()) + ":" + std::to_string(l->getLine()); l = l->getInlinedAt(); }
  return s;
}
static string stackOf(State *s) {
  string r; int n = 0;
  for (auto it = s->st.rbegin(); it != s->st.rend() && n < 14; ++it, ++n) {
    auto &f = **it; const Instruction *I = f.pc < f.f->code.size() ? f.f->code[f.pc].I : nullptr; if (n && f.pc > 0) I = f.f->code[f.pc - 1].I ? f.f->code[f.pc - 1].I : I;
    r += demangle(f.f->F->getName().str()).substr(0, 90) + " @ " + locOf(I) + " | ";
  }
  return r;
}
static string inputsJson(State *s, const ModelP &m) {
  string r = "[";
  for (size_t i = 0; i < s->ins.size(); i++) {
    if (i) r += ",";
    r += "[\"" + jesc(s->ins[i].name) + "\",\"";
    for (auto v : s->ins[i].vars) { char b[3]; snprintf(b, 3, "%02x", (unsigned)m->get(v) & 255); r += b; }
    r += "\"]";
  }
  return r + "]";
}

// every error ends the path; "kind" is asserted by the driver after native replay
static void report(const string &kind, const string &msg, const ModelP &m) {
  nErr++;
  const Instruction *I = nullptr; auto &fr = *cur->st.back(); if (fr.pc < fr.f->code.size()) I = fr.f->code[fr.pc].I;
  string key = kind + "|" + msg + "|" + (kind == "check" ? "" : locOf(I));
  if (errSeen[key]++ >= optMaxErr) return;
  emit("{\"t\":\"error\",\"kind\":\"" + kind + "\",\"msg\":\"" + jesc(msg) + "\",\"at\":\"" + jesc(locOf(I)) + "\",\"stack\":\"" + jesc(stackOf(cur)) + "\",\"tag\":\"" + jesc(cur->tag) + "\",\"case\":" + std::to_string(optCase) + ",\"inputs\":" + inputsJson(cur, m) + "}");
}
static void endPath() { pathEnded = true; }
static void fail(const string &kind, const string &msg) { report(kind, msg, cur->model); endPath(); }
static void unsup(const string &msg) {
  nUnsup++; incomplete = true;
  if (unsupSeen[msg]++ < 2) emit("{\"t\":\"unsupported\",\"msg\":\"" + jesc(msg) + "\",\"stack\":\"" + jesc(stackOf(cur)) + "\"}");
  endPath();
}

// ------------------------------------------------------------------ constraints
static bool evalB(E *e) { EV.bind(cur->model); return (bool)EV(e); }
static u128 evalE(E *e) { EV.bind(cur->model); return EV(e); }
static void pin(State *s, E *e) { // e == const
  switch (e->op) {
    case OVar: if (s->pinned.size() <= e->p) s->pinned.resize(P.vars.size(), 0); s->pinned[e->p] = 1; break;
    case OZExt: case OSExt: pin(s, e->k[0]); break;
    case OConcat: pin(s, e->k[0]); pin(s, e->k[1]); break;
    default: break;
  }
}
static bool allPinned(State *s, E *e) { for (auto v : e->vars->v) if (v >= s->pinned.size() || !s->pinned[v]) return false; return true; }
static void addC(State *s, E *c) {
  if (isK(c)) return;
  if (!s->known.insert(c).second) return;
  if (c->op == OAnd) { addC(s, c->k[0]); addC(s, c->k[1]); return; }
  if (c->op == ONot && c->k[0]->op == OOr) { addC(s, mkNot(c->k[0]->k[0])); addC(s, mkNot(c->k[0]->k[1])); return; }
  if (c->op == OEq && isK(c->k[1])) pin(s, c->k[0]);
  if (c->op == OVar) pin(s, c);
  s->cs.push_back(c);
}
static SatRes feasible(E *c, ModelP &m) {
  if (isK(c)) { m = cur->model; return c->c ? SAT : UNSAT; }
  if (cur->known.count(mkNot(c))) return UNSAT;
  if (evalB(c)) { m = cur->model; stats.qmodel++; return SAT; }
  if (allPinned(cur, c)) return UNSAT;
  SatRes r = S.check(cur->cs, c, cur->model, m);
  if (r == UNSAT) cur->known.insert(mkNot(c));
  if (r == UNKNOWN) { incomplete = true; if (incompleteWhy.empty()) incompleteWhy = "solver gave no answer within its budget"; }
  return r;
}
static State *forkState() {
  nForks++;
  State *n = new State(*cur); n->depth++; cur->depth++;
  work.push_back(n); return n;
}
static Frame &top() { auto &p = cur->st.back(); if (p.use_count() > 1) p = std::make_shared<Frame>(*p); return *p; }

// decide a branch; on two-sided, the other side is queued with *its* constraint and re-executes the instruction at pc
static bool decide(E *c) {
  if (isK(c)) return (bool)c->c;
  if (cur->known.count(c)) return true;
  E *nc = mkNot(c);
  if (cur->known.count(nc)) return false;
  bool v = evalB(c);
  if (allPinned(cur, c)) return v;
  ModelP m; E *other = v ? nc : c;
  stats.qmodel++;
  SatRes r = S.check(cur->cs, other, cur->model, m);
  if (r == UNKNOWN) { incomplete = true; if (incompleteWhy.empty()) incompleteWhy = "solver gave no answer within its budget"; }
  if (r == SAT) {
    if (optVerbose) { auto &f = *cur->st.back(); forkSites[f.f->name + " " + (f.pc < f.f->code.size() ? locOf(f.f->code[f.pc].I) : "")]++; }
    State *n = forkState(); n->model = m; addC(n, other); addC(cur, v ? c : nc);
  } else cur->known.insert(v ? c : nc);
  return v;
}
// one concrete value for e (others are forked off, re-executing the current instruction)
static uint64_t concretize(const V &v, unsigned w) {
  if (!v.e) return v.c;
  uint64_t x = (uint64_t)evalE(v.e);
  E *eq = mkEq(v.e, K(x, v.e->w));
  decide(eq); // model says true
  return x;
}

// ------------------------------------------------------------------ memory access
static E *uninitByte(State *s) { (void)s; E *e = P.var("uninit", 8); return e; }
static E *byteAt(Obj *o, uint32_t off) { return !o->s.empty() && o->s[off] ? o->s[off] : K(o->d[off], 8); }
static void materialize(uint32_t id, uint32_t off, uint32_t n) { // give uninitialised bytes fresh symbolic values
  Obj *o = cur->mem.get(id); if (!o->nUn) return;
  bool any = false; for (uint32_t i = 0; i < n; i++) if (o->un[off + i]) any = true;
  if (!any) return;
  o = cur->mem.wget(id); if (o->s.empty()) o->s.assign(o->size, nullptr);
  for (uint32_t i = 0; i < n; i++) if (o->un[off + i]) { o->un[off + i] = 0; o->nUn--; o->s[off + i] = uninitByte(cur); }
}
static V readObj(uint32_t id, uint32_t off, uint32_t n) {
  Obj *o = cur->mem.get(id);
  if (o->nUn) { materialize(id, off, n); o = cur->mem.get(id); }
  bool sym = false;
  if (!o->s.empty()) for (uint32_t i = 0; i < n; i++) if (o->s[off + i]) { sym = true; break; }
  if (!sym) {
    if (n <= 8) { uint64_t x = 0; memcpy(&x, &o->d[off], n); return V(x); }
    u128 x = 0; memcpy(&x, &o->d[off], n > 16 ? 16 : n); return V(K(x, n * 8));
  }
  E *r = byteAt(o, off);
  for (uint32_t i = 1; i < n; i++) r = mkConcat(byteAt(o, off + i), r);
  if (!isK(r) && r->w <= 64 && allPinned(cur, r)) return V((uint64_t)evalE(r));
  return V(r);
}
static void writeObj(uint32_t id, uint32_t off, uint32_t n, const V &v) {
  Obj *o = cur->mem.wget(id);
  if (o->nUn) for (uint32_t i = 0; i < n; i++) if (o->un[off + i]) { o->un[off + i] = 0; o->nUn--; }
  if (!v.e) {
    if (n <= 8) memcpy(&o->d[off], &v.c, n); else { memset(&o->d[off], 0, n); memcpy(&o->d[off], &v.c, 8); }
    if (!o->s.empty()) for (uint32_t i = 0; i < n; i++) o->s[off + i] = nullptr;
    return;
  }
  E *e = v.e; if (e->w < n * 8) e = mkZExt(e, n * 8);
  if (o->s.empty()) o->s.assign(o->size, nullptr);
  for (uint32_t i = 0; i < n; i++) {
    E *b = mkExtract(e, i * 8, 8);
    if (isK(b)) { o->d[off + i] = (uint8_t)b->c; o->s[off + i] = nullptr; } else o->s[off + i] = b;
  }
}
static string objDesc(uint32_t id) { Obj *o = cur->mem.get(id); if (!o) return cur->mem.isFreed(id) ? "freed object" : "no object"; return string(o->name) + " (size " + std::to_string(o->size) + ")"; }
static uint32_t newObj(uint64_t size, OK_ kind, const char *name, bool init) {
  Obj *o = new Obj; o->size = size; o->kind = kind; o->name = name; o->d.assign(size, 0);
  if (!init && size) { o->un.assign(size, 1); o->nUn = size; }
  return cur->mem.add(o);
}
// Finds the object for an access; returns false if the path ended or must be re-executed
struct Loc { uint32_t id; V off; };
static bool resolve(const V &a, uint64_t n, bool wr, Loc &l, const char *what) {
  if (!a.e) {
    uint32_t id = a.c >> SHIFT; int64_t off = (int64_t)(a.c & ((1ull << SHIFT) - 1)) - (int64_t)BASE;
    Obj *o = a.c >> 47 ? nullptr : cur->mem.get(id);
    if (!o || o->kind == KFunc) { 
      if (n == 0) { l.id = 0; l.off = V(0); return true; }
      if (a.c < (1ull << SHIFT)) fail("memory", string(what) + " through null pointer"); else if (cur->mem.isFreed(id)) fail("memory", string(what) + " of freed memory"); else fail("memory", string(what) + " through wild pointer");
      return false; }
    if (off < 0 || (uint64_t)off + n > o->size) { if (n == 0) { l.id = 0; return true; } fail("memory", string(what) + " out of bounds of " + o->name + " of size " + std::to_string(o->size) + " at offset " + std::to_string(off) + " length " + std::to_string(n)); return false; }
    if (wr && o->ro) { fail("memory", string(what) + " to read-only memory " + o->name); return false; }
    l.id = id; l.off = V((uint64_t)off); return true;
  }
  uint64_t x = (uint64_t)evalE(a.e); uint32_t id = x >> SHIFT; Obj *o = x >> 47 ? nullptr : cur->mem.get(id);
  int64_t coff = (int64_t)(x & ((1ull << SHIFT) - 1)) - (int64_t)BASE;
  if (!o || o->kind == KFunc || coff < 0 || (uint64_t)coff + n > o->size) {
    fail("memory", string(what) + (x < (1ull << SHIFT) ? " through null pointer" : string(" out of bounds of ") + objDesc(id) + " at offset " + std::to_string(coff) + " length " + std::to_string(n)));
    // the remaining values of the address still have to be explored
    return false;
  }
  if (wr && o->ro) { fail("memory", string(what) + " to read-only memory"); return false; }
  E *off = mkBin(OSub, a.e, K(addrOf(id), 64));
  E *in = mkBin(OUle, off, K(o->size - n, 64));
  if (!decide(in)) return false; // cannot happen: model says inside
  l.id = id; l.off = V(off); return true;
}
// The error in resolve() ends this path only for the addresses outside: fork the inside part first.
static bool resolveF(const V &a, uint64_t n, bool wr, Loc &l, const char *what) {
  if (a.e) {
    uint64_t x = (uint64_t)evalE(a.e); uint32_t id = x >> SHIFT; Obj *o = x >> 47 ? nullptr : cur->mem.get(id);
    int64_t coff = (int64_t)(x & ((1ull << SHIFT) - 1)) - (int64_t)BASE;
    bool bad = !o || o->kind == KFunc || coff < 0 || (uint64_t)coff + n > o->size;
    if (bad && n) {
      // continue with addresses inside the slot's object (if any) before reporting
      if (o && o->kind != KFunc && o->size >= n) {
        E *off = mkBin(OSub, a.e, K(addrOf(id), 64)); E *in = mkBin(OUle, off, K(o->size - n, 64));
        decide(in); // forks the inside part off if feasible; we stay outside
      } else decide(mkEq(a.e, K(x, 64)));
    }
  }
  return resolve(a, n, wr, l, what);
}

static E *muxRead(uint32_t id, E *off, uint32_t n, uint64_t lo, uint64_t hi, int bit) { // off in [lo, hi], recursion on bits of off
  if (lo == hi) { V v = readObj(id, lo, n); return toE(v, n * 8); }
  (void)bit;
  uint64_t d = lo ^ hi; int b = 63 - __builtin_clzll(d);
  uint64_t mid = (hi >> b) << b; // first value with bit b set
  E *L = muxRead(id, off, n, lo, mid - 1, b), *H = muxRead(id, off, n, mid, hi, b);
  return mkIte(mkExtract(off, b, 1), H, L);
}
static E *stridedRead(uint32_t id, E *off, uint32_t n, uint64_t size) {
  // known trailing zero bits of off -> stride
  return muxRead(id, off, n, 0, size - n, 63);
}
static unsigned trailingZeros(E *e) {
  switch (e->op) {
    case OConst: { if (!e->c) return 64; unsigned z = 0; while (!((e->c >> z) & 1)) z++; return z; }
    case OConcat: { unsigned z = trailingZeros(e->k[1]); return z >= e->k[1]->w ? e->k[1]->w + trailingZeros(e->k[0]) : z; }
    case OZExt: case OSExt: return std::min<unsigned>(trailingZeros(e->k[0]), e->k[0]->w);
    case OAdd: case OSub: case OOr: return std::min(trailingZeros(e->k[0]), trailingZeros(e->k[1]));
    case OMul: return std::min(63u, trailingZeros(e->k[0]) + trailingZeros(e->k[1]));
    case OIte: return std::min(trailingZeros(e->k[1]), trailingZeros(e->k[2]));
    default: return 0;
  }
}
static bool load(const V &a, uint32_t n, V &out) {
  Loc l; if (!resolveF(a, n, false, l, "read")) return false;
  if (!l.off.e) { out = readObj(l.id, (uint32_t)l.off.c, n); return true; }
  Obj *o = cur->mem.get(l.id); E *off = l.off.e;
  uint64_t hi = std::min<uint64_t>(off->umax, o->size - n);
  unsigned tz = std::min(12u, trailingZeros(off));
  uint64_t cnt = (hi >> tz) + 1;
  if (cnt > 300) { uint64_t c = concretize(l.off, 64); out = readObj(l.id, (uint32_t)c, n); return true; }
  if (tz) { // index by off >> tz
    E *ix = mkExtract(off, tz, 64 - tz);
    std::function<E *(uint64_t, uint64_t)> rec = [&](uint64_t lo, uint64_t h) -> E * {
      if (lo == h) { V v = readObj(l.id, lo << tz, n); return toE(v, n * 8); }
      int b = 63 - __builtin_clzll(lo ^ h); uint64_t mid = (h >> b) << b;
      E *L = rec(lo, mid - 1), *H = rec(mid, h); return mkIte(mkExtract(ix, b, 1), H, L); };
    out = V(rec(0, hi >> tz)); return true;
  }
  out = V(muxRead(l.id, off, n, 0, hi, 63)); (void)stridedRead;
  return true;
}
static bool store(const V &a, uint32_t n, const V &v) {
  Loc l; if (!resolveF(a, n, true, l, "write")) return false;
  if (!l.off.e) { writeObj(l.id, (uint32_t)l.off.c, n, v); return true; }
  Obj *o = cur->mem.get(l.id); E *off = l.off.e; uint64_t hi = std::min<uint64_t>(off->umax, o->size - n); unsigned tz = std::min(12u, trailingZeros(off));
  uint64_t cnt = (hi >> tz) + 1;
  if (cnt > 64) { uint64_t c = concretize(l.off, 64); writeObj(l.id, (uint32_t)c, n, v); return true; }
  E *ve = toE(v, n * 8);
  for (uint64_t i = 0; i <= hi; i += (1ull << tz)) {
    V old = readObj(l.id, i, n);
    writeObj(l.id, i, n, V(mkIte(mkEq(off, K(i, 64)), ve, toE(old, n * 8))));
  }
  return true;
}
static bool copyBytes(const V &d, const V &s, uint64_t n, bool) {
  if (n == 0) return true;
  V cd = d, cs = s;
  if (d.e) cd = V(concretize(d, 64)); if (s.e) cs = V(concretize(s, 64));
  Loc ls, ld; if (!resolve(cs, n, false, ls, "read")) return false; if (!resolve(cd, n, true, ld, "write")) return false;
  Obj *so = cur->mem.get(ls.id); Obj *o = cur->mem.wget(ld.id); so = cur->mem.get(ls.id);
  uint32_t so_ = ls.off.c, do_ = ld.off.c;
  bool symS = !so->s.empty(), unS = so->nUn > 0;
  if (!symS && !unS) {
    memmove(&o->d[do_], &so->d[so_], n);
    if (!o->s.empty()) std::fill(o->s.begin() + do_, o->s.begin() + do_ + n, nullptr);
    if (o->nUn) for (uint64_t i = 0; i < n; i++) if (o->un[do_ + i]) { o->un[do_ + i] = 0; o->nUn--; }
    return true;
  }
  vector<uint8_t> td(so->d.begin() + so_, so->d.begin() + so_ + n); vector<E *> ts(n, nullptr); vector<uint8_t> tu(n, 0);
  if (symS) std::copy(so->s.begin() + so_, so->s.begin() + so_ + n, ts.begin());
  if (unS) std::copy(so->un.begin() + so_, so->un.begin() + so_ + n, tu.begin());
  memcpy(&o->d[do_], td.data(), n);
  if (o->s.empty()) o->s.assign(o->size, nullptr);
  std::copy(ts.begin(), ts.end(), o->s.begin() + do_);
  if (o->un.empty()) { if (unS) o->un.assign(o->size, 0); }
  if (!o->un.empty()) for (uint64_t i = 0; i < n; i++) { if (o->un[do_ + i] != tu[i]) { if (tu[i]) o->nUn++; else o->nUn--; o->un[do_ + i] = tu[i]; } }
  return true;
}
static bool setBytes(const V &d, const V &v, uint64_t n) {
  if (n == 0) return true;
  V cd = d; if (d.e) cd = V(concretize(d, 64));
  Loc l; if (!resolve(cd, n, true, l, "write")) return false;
  Obj *o = cur->mem.wget(l.id); uint32_t off = l.off.c;
  if (o->nUn) for (uint64_t i = 0; i < n; i++) if (o->un[off + i]) { o->un[off + i] = 0; o->nUn--; }
  E *e = v.e ? mkExtract(v.e, 0, 8) : nullptr;
  if (e && isK(e)) { memset(&o->d[off], (int)e->c, n); e = nullptr; } else if (!e) memset(&o->d[off], (int)v.c & 255, n);
  if (e && o->s.empty()) o->s.assign(o->size, nullptr);
  if (!o->s.empty()) for (uint64_t i = 0; i < n; i++) o->s[off + i] = e;
  return true;
}
static string cstr(uint64_t a) { // concrete C string (for names/messages)
  string r; uint32_t id = a >> SHIFT; int64_t off = (int64_t)(a & ((1ull << SHIFT) - 1)) - (int64_t)BASE; Obj *o = cur->mem.get(id); if (!o) return "?";
  for (uint64_t i = off; i < o->size && r.size() < 400; i++) { if (!o->s.empty() && o->s[i]) { r += (char)(evalE(o->s[i])); if (!r.back()) { r.pop_back(); break; } continue; } if (!o->d[i]) break; r += (char)o->d[i]; }
  return r;
}

// ------------------------------------------------------------------ constants
static uint64_t funcAddr(const Function *f);
static void flat(Type *t, vector<unsigned> &lw, vector<uint64_t> *off = nullptr, uint64_t base = 0) {
  if (auto *st = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) flat(st->getElementType(i), lw, off, base + sl->getElementOffset(i)); return; }
  if (auto *at = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); for (uint64_t i = 0; i < at->getNumElements(); i++) flat(at->getElementType(), lw, off, base + i * es); return; }
  if (auto *vt = dyn_cast<FixedVectorType>(t)) { uint64_t es = DL->getTypeAllocSize(vt->getElementType()); for (uint64_t i = 0; i < vt->getNumElements(); i++) flat(vt->getElementType(), lw, off, base + i * es); return; }
  if (t->isVoidTy()) return;
  unsigned w = t->isPointerTy() ? 64 : t->isX86_FP80Ty() ? 80 : (unsigned)DL->getTypeSizeInBits(t);
  lw.push_back(w); if (off) off->push_back(base);
}
static void constVals(const Constant *c, vector<V> &out);
static V constScalar(const Constant *c) { vector<V> v; constVals(c, v); return v.empty() ? V(0) : v[0]; }
static void constVals(const Constant *c, vector<V> &out) {
  Type *t = c->getType();
  if (auto *ci = dyn_cast<ConstantInt>(c)) {
    unsigned w = ci->getBitWidth();
    if (w <= 64) out.push_back(V(ci->getZExtValue())); else { u128 x = ci->getValue().getRawData()[0]; if (ci->getValue().getNumWords() > 1) x |= (u128)ci->getValue().getRawData()[1] << 64; E *e = K(x, w); V v; v.e = e; out.push_back(v); }
    return; }
  if (auto *cf = dyn_cast<ConstantFP>(c)) { APInt a = cf->getValueAPF().bitcastToAPInt(); if (a.getBitWidth() <= 64) out.push_back(V(a.getZExtValue())); else { u128 x = a.getRawData()[0] | (u128)a.getRawData()[1] << 64; V v; v.e = K(x, a.getBitWidth()); out.push_back(v); } return; }
  if (isa<ConstantPointerNull>(c)) { out.push_back(V(0)); return; }
  if (auto *gv = dyn_cast<GlobalValue>(c)) {
    if (auto *ga = dyn_cast<GlobalAlias>(gv)) { constVals(ga->getAliasee(), out); return; }
    if (auto *f = dyn_cast<Function>(gv)) { out.push_back(V(funcAddr(f))); return; }
    auto it = gaddr.find(gv); out.push_back(V(it == gaddr.end() ? 0 : it->second)); return; }
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { vector<unsigned> lw; flat(t, lw); for (auto w : lw) { if (w <= 64) out.push_back(V(0)); else { V v; v.e = K(0, w); out.push_back(v); } } return; }
  if (auto *cs = dyn_cast<ConstantAggregate>(c)) { for (unsigned i = 0; i < cs->getNumOperands(); i++) constVals(cast<Constant>(cs->getOperand(i)), out); return; }
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < cd->getNumElements(); i++) constVals(cd->getElementAsConstant(i), out); return; }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: { APInt off(64, 0); if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) { errs() << "const gep\n"; abort(); } out.push_back(V(constScalar(ce->getOperand(0)).c + off.getSExtValue())); return; }
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: constVals(ce->getOperand(0), out); return;
      case Instruction::Trunc: out.push_back(V(constScalar(ce->getOperand(0)).c & mask64(t->getIntegerBitWidth()))); return;
      case Instruction::ZExt: out.push_back(constScalar(ce->getOperand(0))); return;
      case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::Xor: case Instruction::Shl: {
        V a = constScalar(ce->getOperand(0)), b = constScalar(ce->getOperand(1)); u128 r; unsigned w = t->getIntegerBitWidth();
        foldBin(ce->getOpcode() == Instruction::Add ? OAdd : ce->getOpcode() == Instruction::Sub ? OSub : ce->getOpcode() == Instruction::Mul ? OMul : ce->getOpcode() == Instruction::Xor ? OXor : OShl, a.c, b.c, w, r); out.push_back(V((uint64_t)r)); return; }
      case Instruction::ICmp: { V a = constScalar(ce->getOperand(0)), b = constScalar(ce->getOperand(1)); out.push_back(V(ce->getPredicate() == CmpInst::ICMP_EQ ? a.c == b.c : ce->getPredicate() == CmpInst::ICMP_NE ? a.c != b.c : 0)); return; }
      default: errs() << "constexpr " << *ce << "\n"; out.push_back(V(0)); return;
    }
  }
  if (isa<ConstantTokenNone>(c)) { out.push_back(V(0)); return; }
  errs() << "constant? " << *c << "\n"; out.push_back(V(0));
}
static std::map<const Function *, uint64_t> fAddrs;
static uint64_t funcAddr(const Function *f) {
  auto it = fAddrs.find(f); return it == fAddrs.end() ? 0 : it->second;
}

// ------------------------------------------------------------------ compile a function
struct Compiler {
  CFunc *cf; std::unordered_map<const Value *, int> slot; std::unordered_map<const BasicBlock *, uint32_t> bpc;
  vector<std::pair<size_t, vector<std::pair<const BasicBlock *, const BasicBlock *>>>> fix;
  void opd(const Value *v, vector<Opd> &out) {
    if (auto *c = dyn_cast<Constant>(v)) { vector<V> vs; constVals(c, vs); for (auto &x : vs) { Opd o; o.v = x; out.push_back(o); } return; }
    if (isa<MetadataAsValue>(v)) { Opd o; out.push_back(o); return; }
    auto it = slot.find(v); if (it == slot.end()) { errs() << "no slot " << *v << "\n"; abort(); }
    vector<unsigned> lw; flat(v->getType(), lw);
    for (size_t i = 0; i < lw.size(); i++) { Opd o; o.slot = it->second + i; out.push_back(o); }
  }
  Edge edge(const BasicBlock *from, const BasicBlock *to) {
    Edge e; e.pc = bpc[to];
    for (auto &phi : to->phis()) { vector<Opd> s; opd(phi.getIncomingValueForBlock(from), s); int d = slot[&phi]; for (size_t i = 0; i < s.size(); i++) e.moves.push_back({d + (int)i, s[i]}); }
    return e;
  }
  static unsigned wof(Type *t) { return t->isPointerTy() ? 64 : t->isX86_FP80Ty() ? 80 : (unsigned)DL->getTypeSizeInBits(t); }
  void run(CFunc *c) {
    cf = c; Function *F = c->F; c->compiled = true; c->name = F->getName().str();
    uint32_t n = 0;
    auto assign = [&](const Value *v) { vector<unsigned> lw; flat(v->getType(), lw); slot[v] = n; n += lw.size(); };
    for (auto &a : F->args()) { vector<unsigned> lw; flat(a.getType(), lw); c->argSlot.push_back(n); c->argLeaves.push_back(lw.size()); assign(&a); }
    uint32_t pc = 0;
    for (auto &b : *F) { bpc[&b] = pc; for (auto &i : b) { if (isa<DbgInfoIntrinsic>(i)) continue; if (!i.getType()->isVoidTy()) assign(&i); if (!isa<PHINode>(i)) pc++; } }
    c->nslots = n; c->code.reserve(pc);
    for (auto &b : *F) for (auto &i : b) {
      if (isa<DbgInfoIntrinsic>(i) || isa<PHINode>(i)) continue;
      CI ci; ci.op = CUnsup; ci.I = &i; if (!i.getType()->isVoidTy()) ci.dst = slot[&i];
      ci.w = 0; if (i.getType()->isSized() && !i.getType()->isVoidTy() && !i.getType()->isAggregateType()) ci.w = wof(i.getType());
      bool vec = i.getType()->isVectorTy(); for (auto &op : i.operands()) if (op->getType()->isVectorTy()) vec = true;
      unsigned opc = i.getOpcode();
      if (vec && opc != Instruction::Load && opc != Instruction::Store && opc != Instruction::Ret && opc != Instruction::Call && opc != Instruction::Invoke && opc != Instruction::ExtractElement && opc != Instruction::InsertElement && opc != Instruction::Freeze) { 
        if (opc == Instruction::ShuffleVector) { auto *sv = cast<ShuffleVectorInst>(&i); vector<Opd> a; opd(sv->getOperand(0), a); vector<Opd> bb; opd(sv->getOperand(1), bb); ci.op = CFreeze; for (int m : sv->getShuffleMask()) { if (m < 0) { ci.o.push_back(Opd()); } else ci.o.push_back((size_t)m < a.size() ? a[m] : bb[m - a.size()]); } }
        c->code.push_back(ci); continue; }
      if (auto *bo = dyn_cast<BinaryOperator>(&i)) {
        opd(bo->getOperand(0), ci.o); opd(bo->getOperand(1), ci.o); ci.op = CBin;
        switch (opc) {
          case Instruction::Add: ci.sub = OAdd; break; case Instruction::Sub: ci.sub = OSub; break; case Instruction::Mul: ci.sub = OMul; break;
          case Instruction::UDiv: ci.sub = OUDiv; break; case Instruction::SDiv: ci.sub = OSDiv; break; case Instruction::URem: ci.sub = OURem; break; case Instruction::SRem: ci.sub = OSRem; break;
          case Instruction::And: ci.sub = OAnd; break; case Instruction::Or: ci.sub = OOr; break; case Instruction::Xor: ci.sub = OXor; break;
          case Instruction::Shl: ci.sub = OShl; break; case Instruction::LShr: ci.sub = OLShr; break; case Instruction::AShr: ci.sub = OAShr; break;
          case Instruction::FAdd: ci.op = CFBin; ci.sub = OFAdd; break; case Instruction::FSub: ci.op = CFBin; ci.sub = OFSub; break; case Instruction::FMul: ci.op = CFBin; ci.sub = OFMul; break; case Instruction::FDiv: ci.op = CFBin; ci.sub = OFDiv; break;
          default: ci.op = CUnsup;
        }
      } else switch (opc) {
        case Instruction::FNeg: ci.op = CFNeg; opd(i.getOperand(0), ci.o); break;
        case Instruction::ICmp: ci.op = CICmp; ci.sub = cast<ICmpInst>(i).getPredicate(); ci.w2 = wof(i.getOperand(0)->getType()); opd(i.getOperand(0), ci.o); opd(i.getOperand(1), ci.o); break;
        case Instruction::FCmp: ci.op = CFCmp; ci.sub = cast<FCmpInst>(i).getPredicate(); ci.w2 = wof(i.getOperand(0)->getType()); opd(i.getOperand(0), ci.o); opd(i.getOperand(1), ci.o); break;
        case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast:
        case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPExt: case Instruction::FPTrunc:
          ci.op = CCast; ci.x.push_back(opc); ci.w2 = wof(i.getOperand(0)->getType()); opd(i.getOperand(0), ci.o); break;
        case Instruction::Select: { ci.op = CSelect; opd(i.getOperand(0), ci.o); opd(i.getOperand(1), ci.o); opd(i.getOperand(2), ci.o); flat(i.getType(), ci.lw); ci.n = ci.lw.size(); ci.x.push_back(i.getType()->isPointerTy()); break; }
        case Instruction::Load: ci.op = CLoad; opd(i.getOperand(0), ci.o); flat(i.getType(), ci.lw, &ci.loff); break;
        case Instruction::Store: ci.op = CStore; opd(i.getOperand(1), ci.o); opd(i.getOperand(0), ci.o); flat(i.getOperand(0)->getType(), ci.lw, &ci.loff); break;
        case Instruction::GetElementPtr: {
          ci.op = CGep; auto *g = cast<GEPOperator>(&i); opd(g->getPointerOperand(), ci.o); uint64_t co = 0;
          for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
            Value *ix = it.getOperand();
            if (auto *st = it.getStructTypeOrNull()) { co += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
            uint64_t es = DL->getTypeAllocSize(it.getIndexedType());
            if (auto *k = dyn_cast<ConstantInt>(ix)) { co += es * k->getSExtValue(); continue; }
            opd(ix, ci.o); ci.x.push_back(es); ci.lw.push_back(wof(ix->getType()));
          }
          ci.x.push_back(co); break; }
        case Instruction::Alloca: { auto *a = cast<AllocaInst>(&i); ci.op = CAlloca; ci.x.push_back(DL->getTypeAllocSize(a->getAllocatedType())); opd(a->getArraySize(), ci.o); break; }
        case Instruction::Br: { auto *br = cast<BranchInst>(&i); if (br->isConditional()) { ci.op = CCondBr; opd(br->getCondition(), ci.o); ci.e.push_back(edge(&b, br->getSuccessor(0))); ci.e.push_back(edge(&b, br->getSuccessor(1))); } else { ci.op = CBr; ci.e.push_back(edge(&b, br->getSuccessor(0))); } break; }
        case Instruction::Switch: { auto *sw = cast<SwitchInst>(&i); ci.op = CSwitch; ci.w2 = wof(sw->getCondition()->getType()); opd(sw->getCondition(), ci.o); ci.e.push_back(edge(&b, sw->getDefaultDest())); for (auto &cs : sw->cases()) { ci.x.push_back(cs.getCaseValue()->getZExtValue()); ci.e.push_back(edge(&b, cs.getCaseSuccessor())); } break; }
        case Instruction::Ret: ci.op = CRet; if (auto *rv = cast<ReturnInst>(i).getReturnValue()) opd(rv, ci.o); break;
        case Instruction::Unreachable: ci.op = CUnreachable; break;
        case Instruction::Resume: ci.op = CResume; opd(i.getOperand(0), ci.o); break;
        case Instruction::LandingPad: ci.op = CLandingPad; break;
        case Instruction::ExtractValue: case Instruction::InsertValue: {
          auto idxs = opc == Instruction::ExtractValue ? cast<ExtractValueInst>(i).getIndices() : cast<InsertValueInst>(i).getIndices();
          Type *t = i.getOperand(0)->getType(); unsigned off = 0;
          for (unsigned ix : idxs) { if (auto *st = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < ix; k++) { vector<unsigned> lw; flat(st->getElementType(k), lw); off += lw.size(); } t = st->getElementType(ix); } else { auto *at = cast<ArrayType>(t); vector<unsigned> lw; flat(at->getElementType(), lw); off += ix * lw.size(); t = at->getElementType(); } }
          vector<Opd> agg; opd(i.getOperand(0), agg);
          ci.op = CFreeze;
          if (opc == Instruction::ExtractValue) { vector<unsigned> lw; flat(t, lw); for (unsigned k = 0; k < lw.size(); k++) ci.o.push_back(agg[off + k]); }
          else { vector<Opd> el; opd(i.getOperand(1), el); for (unsigned k = 0; k < agg.size(); k++) ci.o.push_back(k >= off && k < off + el.size() ? el[k - off] : agg[k]); }
          break; }
        case Instruction::ExtractElement: { vector<Opd> agg; opd(i.getOperand(0), agg); if (auto *k = dyn_cast<ConstantInt>(i.getOperand(1))) { ci.op = CFreeze; ci.o.push_back(agg[k->getZExtValue()]); } break; }
        case Instruction::InsertElement: { vector<Opd> agg; opd(i.getOperand(0), agg); vector<Opd> el; opd(i.getOperand(1), el); if (auto *k = dyn_cast<ConstantInt>(i.getOperand(2))) { ci.op = CFreeze; agg[k->getZExtValue()] = el[0]; ci.o = agg; } break; }
        case Instruction::Freeze: ci.op = CFreeze; opd(i.getOperand(0), ci.o); break;
        case Instruction::Fence: ci.op = CFence; break;
        case Instruction::AtomicRMW: { auto *a = cast<AtomicRMWInst>(&i); ci.op = CAtomicRMW; ci.sub = a->getOperation(); opd(a->getPointerOperand(), ci.o); opd(a->getValOperand(), ci.o); break; }
        case Instruction::AtomicCmpXchg: { auto *a = cast<AtomicCmpXchgInst>(&i); ci.op = CCmpXchg; ci.w2 = wof(a->getNewValOperand()->getType()); opd(a->getPointerOperand(), ci.o); opd(a->getCompareOperand(), ci.o); opd(a->getNewValOperand(), ci.o); break; }
        case Instruction::Call: case Instruction::Invoke: {
          auto *cb = cast<CallBase>(&i); ci.op = opc == Instruction::Call ? CCall : CInvoke;
          if (cb->isInlineAsm()) { ci.op = CFence; break; }
          Value *cv = cb->getCalledOperand()->stripPointerCasts();
          if (auto *ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliasee()->stripPointerCasts();
          ci.F = dyn_cast<Function>(cv);
          if (!ci.F) opd(cb->getCalledOperand(), ci.o);
          for (auto &a : cb->args()) { size_t before = ci.o.size(); opd(a.get(), ci.o); ci.loff.push_back(ci.o.size() - before); vector<unsigned> lw; if (!a->getType()->isMetadataTy()) flat(a->getType(), lw); else lw.push_back(64); for (auto w : lw) ci.lw.push_back(w);
            unsigned an = &a - cb->arg_begin(); ci.x.push_back(cb->isByValArgument(an) ? DL->getTypeAllocSize(cb->getParamByValType(an)) : 0); }
          if (opc == Instruction::Invoke) { auto *inv = cast<InvokeInst>(cb); ci.e.push_back(edge(&b, inv->getNormalDest())); ci.e.push_back(edge(&b, inv->getUnwindDest())); }
          break; }
        default: break;
      }
      c->code.push_back(std::move(ci));
    }
  }
};
static CFunc *getC(Function *F) {
  auto &p = cfuncs[F]; if (!p) { p = new CFunc; p->F = F; }
  if (!p->compiled) { Compiler c; c.run(p); }
  p->hit = true;
  return p;
}

// ------------------------------------------------------------------ execution helpers
static inline V get(Frame &f, const Opd &o) { return o.slot >= 0 ? f.r[o.slot] : o.v; }
static void takeEdge(Frame &f, const Edge &e) {
  if (!e.moves.empty()) {
    if (e.moves.size() == 1) f.r[e.moves[0].dst] = get(f, e.moves[0].src);
    else { V tmp[64]; vector<V> big; V *t = tmp; if (e.moves.size() > 64) { big.resize(e.moves.size()); t = big.data(); }
      for (size_t i = 0; i < e.moves.size(); i++) t[i] = get(f, e.moves[i].src);
      for (size_t i = 0; i < e.moves.size(); i++) f.r[e.moves[i].dst] = t[i]; }
  }
  f.pc = e.pc;
}
static void popFrame() {
  Frame &f = *cur->st.back();
  for (auto id : f.al) cur->mem.kill(id);
  if (f.va) cur->mem.kill(f.va >> SHIFT);
  cur->st.pop_back();
}
static void pushCall(CFunc *cf, const vector<V> &args, const vector<unsigned> &argw, int dst) {
  auto fr = std::make_shared<Frame>(); fr->f = cf; fr->r.resize(cf->nslots); fr->dst = dst; fr->uid = cur->uid++;
  size_t k = 0; size_t total = 0; for (auto n : cf->argLeaves) total += n;
  for (size_t i = 0; i < cf->argSlot.size(); i++) for (unsigned j = 0; j < cf->argLeaves[i]; j++) { if (k < args.size()) fr->r[cf->argSlot[i] + j] = args[k]; k++; }
  if (cf->F->isVarArg()) {
    // overflow area only
    uint64_t sz = 8; for (size_t i = total; i < args.size(); i++) sz += (argw[i] > 64 ? 16 : 8);
    uint32_t id = newObj(sz + 8, KStack, "varargs", true); uint64_t off = 0;
    for (size_t i = total; i < args.size(); i++) { if (argw[i] > 64) { off = (off + 15) / 16 * 16; if (off + 16 > sz + 8) break; writeObj(id, off, 16, args[i]); off += 16; } else { V v = args[i]; if (v.e && v.e->w < 64) v = V(mkZExt(v.e, 64)); writeObj(id, off, 8, v); off += 8; } }
    fr->va = addrOf(id);
  }
  if (cur->st.size() > 3000) { fail("stack", "call depth exceeds 3000 (unbounded recursion)"); return; }
  cur->st.push_back(fr);
}
static void setDst(int dst, const V &v) { if (dst >= 0) top().r[dst] = v; }

// ------------------------------------------------------------------ exceptions
static string symName(uint64_t a) { Obj *o = cur->mem.get(a >> SHIFT); return o ? o->name : ""; }
static int64_t tiMatch(uint64_t thrown, uint64_t want, int depth = 0) { // returns offset or -1
  if (thrown == want) return 0; if (depth > 8) return -1;
  if (symName(thrown) == symName(want) && !symName(thrown).empty()) return 0;
  Obj *o = cur->mem.get(thrown >> SHIFT); if (!o || o->size < 16) return -1;
  uint64_t vp; memcpy(&vp, &o->d[0], 8); string vn = symName(vp);
  if (vn.find("si_class_type_info") != string::npos) { uint64_t b; memcpy(&b, &o->d[16], 8); return tiMatch(b, want, depth + 1); }
  if (vn.find("vmi_class_type_info") != string::npos) {
    uint32_t n; memcpy(&n, &o->d[20], 4);
    for (uint32_t i = 0; i < n; i++) { uint64_t b; int64_t fl; memcpy(&b, &o->d[24 + 16 * i], 8); memcpy(&fl, &o->d[32 + 16 * i], 8); int64_t r = tiMatch(b, want, depth + 1); if (r >= 0 && !(fl & 1)) return r + (fl >> 8); }
  }
  return -1;
}
static int typeId(uint64_t ti) { auto it = typeIds.find(ti); if (it != typeIds.end()) return it->second; int n = typeIds.size() + 1; typeIds[ti] = n; return n; }
// unwinding with exception object addr
static void unwind(uint64_t obj) {
  while (true) {
    if (cur->st.empty()) { return; }
    Frame &f = top();
    CI &ci = f.f->code[f.pc];
    if (ci.op == CInvoke) {
      // landing pad is first instruction of unwind block
      Edge &e = ci.e[1]; CI &lp = f.f->code[e.pc]; auto *L = cast<LandingPadInst>(lp.I);
      int sel = 0; bool enter = L->isCleanup(); uint64_t ti = cur->exc[obj].tinfo; uint64_t adj = obj;
      for (unsigned i = 0; i < L->getNumClauses(); i++) {
        if (L->isCatch(i)) {
          uint64_t want = constScalar(L->getClause(i)).c;
          int64_t off = want == 0 ? 0 : tiMatch(ti, want);
          if (off >= 0) { sel = want == 0 ? typeId(0) : typeId(want); adj = obj + off; enter = true; break; }
        } else { enter = true; sel = -1; break; } // filter (throw() specs)
      }
      if (enter) { cur->exc[obj].adj = adj; takeEdge(f, e); f.exc[0] = V(obj); f.exc[1] = V((uint32_t)sel); return; }
    }
    if (f.f->F->doesNotThrow() && false) {}
    if (cur->st.size() == 1) { string n = symName(cur->exc[obj].tinfo); fail("exception", "uncaught exception " + demangle(n.size() > 4 && n.substr(0, 4) == "_ZTI" ? "_Z" + n.substr(4) : n)); return; }
    if (f.f->F->doesNotThrow()) { fail("exception", "exception leaves a noexcept function " + demangle(f.f->name)); return; }
    popFrame();
    // caller's pc still points at the call
  }
}

// ------------------------------------------------------------------ externals
enum Ext { X_none = -1, X_malloc, X_calloc, X_realloc, X_free, X_new, X_newA, X_newnt, X_del, X_memcpy, X_memset, X_memcmp, X_strlen, X_strcmp, X_strncmp, X_strchr, X_memchr,
  X_allocexc, X_freeexc, X_throw, X_begincatch, X_endcatch, X_rethrow, X_getexcptr, X_terminate, X_abort, X_setjmp, X_longjmp, X_sym_bytes, X_sym_assume, X_sym_check, X_sym_fail,
  X_sym_observe, X_sym_case, X_sym_reach, X_sym_concrete, X_sym_engine, X_sym_tag, X_atexit, X_dyncast, X_errno, X_sym_log, X_fmtdouble, X_exit, X_zero, X_strtod, X_sym_readonly, X_sym_end, X_sym_symbolic, X_sym_alloc, X_sym_heap, X_sym_ite, X_strtodbits, X_thr_new, X_thr_switch };
static std::unordered_map<string, Ext> extTab = {
  {"malloc", X_malloc}, {"calloc", X_calloc}, {"realloc", X_realloc}, {"free", X_free}, {"_Znwm", X_new}, {"_Znam", X_newA}, {"_ZnwmRKSt9nothrow_t", X_newnt}, {"_ZnamRKSt9nothrow_t", X_newnt}, {"_ZnwmSt11align_val_t", X_new},
  {"_ZdlPv", X_del}, {"_ZdlPvm", X_del}, {"_ZdaPv", X_del}, {"_ZdaPvm", X_del}, {"_ZdlPvSt11align_val_t", X_del}, {"_ZdlPvmSt11align_val_t", X_del}, {"_ZdlPvRKSt9nothrow_t", X_del},
  {"memcpy", X_memcpy}, {"memmove", X_memcpy}, {"memset", X_memset}, {"memcmp", X_memcmp}, {"bcmp", X_memcmp}, {"strlen", X_strlen}, {"strcmp", X_strcmp}, {"strncmp", X_strncmp}, {"strchr", X_strchr}, {"memchr", X_memchr},
  {"__cxa_allocate_exception", X_allocexc}, {"__cxa_free_exception", X_freeexc}, {"__cxa_throw", X_throw}, {"__cxa_begin_catch", X_begincatch}, {"__cxa_end_catch", X_endcatch}, {"__cxa_rethrow", X_rethrow}, {"__cxa_get_exception_ptr", X_getexcptr},
  {"_ZSt9terminatev", X_terminate}, {"__cxa_call_terminate", X_terminate}, {"abort", X_abort}, {"__cxa_pure_virtual", X_abort}, {"_setjmp", X_setjmp}, {"setjmp", X_setjmp}, {"__sigsetjmp", X_setjmp}, {"longjmp", X_longjmp}, {"siglongjmp", X_longjmp},
  {"sym_bytes", X_sym_bytes}, {"sym_assume", X_sym_assume}, {"sym_check", X_sym_check}, {"sym_fail", X_sym_fail}, {"sym_observe", X_sym_observe}, {"sym_case", X_sym_case}, {"sym_reach", X_sym_reach}, {"sym_concrete", X_sym_concrete}, {"sym_engine", X_sym_engine}, {"sym_tag", X_sym_tag},
  {"__cxa_atexit", X_atexit}, {"__cxa_thread_atexit", X_atexit}, {"__dynamic_cast", X_dyncast}, {"sym_log", X_sym_log}, {"sym_fmt_double", X_fmtdouble}, {"sym_strtod", X_strtod}, {"sym_end", X_sym_end}, {"sym_is_symbolic", X_sym_symbolic}, {"sym_strlen_ok", X_zero}, {"sym_readonly", X_sym_readonly}, {"sym_ite", X_sym_ite}, {"sym_thread_new", X_thr_new}, {"sym_thread_switch", X_thr_switch} };

static bool retTo(CI &ci, const V &v) { // finish an external call
  Frame &f = top(); if (ci.dst >= 0) f.r[ci.dst] = v;
  if (ci.op == CInvoke) takeEdge(f, ci.e[0]); else f.pc++;
  return true;
}
static void throwNew(const char *tiName) {
  auto *g = M->getNamedGlobal(tiName);
  if (!g || !gaddr.count(g)) { unsup(string("throw of ") + tiName); return; }
  uint32_t id = newObj(64, KHeap, "exception", true);
  // vtable so that what() works
  string vt = string("_ZTV") + (tiName + 4); if (auto *vg = M->getNamedGlobal(vt)) if (gaddr.count(vg)) writeObj(id, 0, 8, V(gaddr[vg] + 16));
  uint64_t a = addrOf(id); cur->exc[a].tinfo = gaddr[g]; unwind(a);
}
static bool doAlloc(CI &ci, const V &sz, bool zero, bool thr, OK_ kind) {
  uint64_t n;
  if (sz.e) { E *big = mkBin(OUlt, K(1 << 20, 64), sz.e); if (decide(big)) { if (thr) { throwNew("_ZTISt9bad_alloc"); return true; } return retTo(ci, V(0)); } n = concretize(sz, 64); }
  else n = sz.c;
  if (n > (15u << 20)) { if (thr) { throwNew("_ZTISt9bad_alloc"); return true; } return retTo(ci, V(0)); }
  uint32_t id = newObj(n, kind, kind == KHeap ? "heap block" : "new block", zero);
  return retTo(ci, V(addrOf(id)));
}
static uint64_t objSize(uint64_t a) { Obj *o = cur->mem.get(a >> SHIFT); return o ? o->size : 0; }
static bool rangeConcrete(uint64_t a, uint64_t n) { uint32_t id = a >> SHIFT; Obj *o = cur->mem.get(id); int64_t off = (int64_t)(a & ((1ull << SHIFT) - 1)) - (int64_t)BASE; if (!o || off < 0 || off + n > o->size) return false; if (o->nUn) for (uint64_t i = 0; i < n; i++) if (o->un[off + i]) return false; if (!o->s.empty()) for (uint64_t i = 0; i < n; i++) if (o->s[off + i]) return false; return true; }
static V rd1(uint64_t a) { uint32_t id = a >> SHIFT; return readObj(id, (uint32_t)((a & ((1ull << SHIFT) - 1)) - BASE), 1); }
static bool inObj(uint64_t a) { uint32_t id = a >> SHIFT; Obj *o = cur->mem.get(id); int64_t off = (int64_t)(a & ((1ull << SHIFT) - 1)) - (int64_t)BASE; return o && o->kind != KFunc && off >= 0 && off < (int64_t)o->size; }

static void callModel(CI &ci, const char *name, const vector<V> &a, const vector<unsigned> &w) {
  Function *F = M->getFunction(name); if (!F || F->isDeclaration()) { unsup(string("no model ") + name); return; }
  pushCall(getC(F), a, w, ci.dst);
}
static uint64_t tokenDeadline;

// returns true when handled (state advanced or path ended)
static bool external(CI &ci, Ext x, const vector<V> &a, const vector<unsigned> &aw, Function *F) {
  switch (x) {
    case X_malloc: return doAlloc(ci, a[0], false, false, KHeap);
    case X_new: return doAlloc(ci, a[0], false, true, KNew);
    case X_newA: return doAlloc(ci, a[0], false, true, KNewArr);
    case X_newnt: return doAlloc(ci, a[0], false, false, KNew);
    case X_calloc: { uint64_t n = concretize(a[0], 64), m = concretize(a[1], 64); if ((u128)n * m > (15u << 20)) return retTo(ci, V(0)); return doAlloc(ci, V(n * m), true, false, KHeap); }
    case X_realloc: {
      uint64_t p = concretize(a[0], 64);
      V sz = a[1]; uint64_t n; if (sz.e) { if (decide(mkBin(OUlt, K(1 << 20, 64), sz.e))) return retTo(ci, V(0)); n = concretize(sz, 64); } else n = sz.c;
      if (n > (15u << 20)) return retTo(ci, V(0));
      if (p && ((p & ((1ull << SHIFT) - 1)) != BASE || !cur->mem.get(p >> SHIFT) || cur->mem.get(p >> SHIFT)->kind != KHeap)) { fail("memory", cur->mem.isFreed(p >> SHIFT) ? "realloc of freed memory" : "realloc of invalid pointer"); return true; }
      uint32_t id = newObj(n, KHeap, "heap block", false);
      if (p) { uint64_t c = std::min<uint64_t>(n, objSize(p)); if (!copyBytes(V(addrOf(id)), V(p), c, false)) return true; cur->mem.kill(p >> SHIFT); }
      return retTo(ci, V(addrOf(id))); }
    case X_free: case X_del: {
      uint64_t p = concretize(a[0], 64); if (!p) return retTo(ci, V(0));
      Obj *o = cur->mem.get(p >> SHIFT);
      if (!o || (p & ((1ull << SHIFT) - 1)) != BASE || o->kind == KGlobal || o->kind == KStack || o->kind == KFunc || ((x == X_free) != (o->kind == KHeap))) { fail("memory", !o && cur->mem.isFreed(p >> SHIFT) ? "double free" : "free of invalid pointer"); return true; }
      cur->mem.kill(p >> SHIFT); return retTo(ci, V(0)); }
    case X_memcpy: { uint64_t n = concretize(a[2], 64); if (!copyBytes(a[0], a[1], n, true)) return true; return retTo(ci, a[0]); }
    case X_memset: { uint64_t n = concretize(a[2], 64); if (!setBytes(a[0], a[1], n)) return true; return retTo(ci, a[0]); }
    case X_memcmp: {
      uint64_t n = concretize(a[2], 64), p = concretize(a[0], 64), q = concretize(a[1], 64); if (!n) return retTo(ci, V(0));
      Loc l1, l2; if (!resolve(V(p), n, false, l1, "read")) return true; if (!resolve(V(q), n, false, l2, "read")) return true;
      if (rangeConcrete(p, n) && rangeConcrete(q, n)) { Obj *o1 = cur->mem.get(l1.id), *o2 = cur->mem.get(l2.id); int r = memcmp(&o1->d[l1.off.c], &o2->d[l2.off.c], n); return retTo(ci, V((uint32_t)(r < 0 ? -1 : r > 0))); }
      E *r = K(0, 32);
      for (uint64_t i = n; i-- > 0;) { E *b1 = toE(rd1(p + i), 8), *b2 = toE(rd1(q + i), 8); E *eq = mkEq(b1, b2); if (isK(eq, 1)) continue; E *lt = mkBin(OUlt, b1, b2); r = mkIte(eq, r, mkIte(lt, K((uint32_t)-1, 32), K(1, 32))); }
      return retTo(ci, V(r)); }
    case X_strlen: {
      uint64_t p = concretize(a[0], 64); uint64_t n = 0; while (inObj(p + n)) { V v = rd1(p + n); if (v.e) { callModel(ci, "model_strlen", {V(p)}, {64}); return true; } if (!v.c) return retTo(ci, V(n)); n++; }
      Loc l; if (!resolve(V(p + n), 1, false, l, "read (strlen)")) return true; return true; }
    case X_strcmp: case X_strncmp: {
      uint64_t p = concretize(a[0], 64), q = concretize(a[1], 64), n = x == X_strncmp ? concretize(a[2], 64) : ~0ull; vector<std::pair<E *, E *>> bs; bool done = false, ok = true; uint64_t i = 0;
      for (; i < n; i++) { Loc l; if (!inObj(p + i) || !inObj(q + i)) { ok = false; break; } E *b1 = toE(rd1(p + i), 8), *b2 = toE(rd1(q + i), 8); bs.push_back({b1, b2}); if (isK(b1, 0) || isK(b2, 0) || (isK(b1) && isK(b2) && b1 != b2)) { done = true; break; } }
      if (i == n) done = true;
      if (!done) { callModel(ci, x == X_strcmp ? "model_strcmp" : "model_strncmp", x == X_strcmp ? vector<V>{V(p), V(q)} : vector<V>{V(p), V(q), V(n)}, {64, 64, 64}); return true; }
      (void)ok;
      E *r = K(0, 32);
      for (size_t k = bs.size(); k-- > 0;) { E *b1 = bs[k].first, *b2 = bs[k].second; E *eq = mkEq(b1, b2); E *z = mkEq(b1, K(0, 8)); E *lt = mkBin(OUlt, b1, b2); r = mkIte(eq, mkIte(z, K(0, 32), r), mkIte(lt, K((uint32_t)-1, 32), K(1, 32))); }
      return retTo(ci, V(r)); }
    case X_strchr: {
      uint64_t p = concretize(a[0], 64); E *c = mkExtract(toE(a[1], 32), 0, 8); uint64_t n = 0; bool ok = true; vector<uint8_t> s; while (true) { if (!inObj(p + n)) { ok = false; break; } V v = rd1(p + n); if (v.e) { ok = false; break; } s.push_back(v.c); if (!v.c) break; n++; }
      if (!ok || s.size() > 300) { callModel(ci, "model_strchr", a, aw); return true; }
      E *r = K(0, 64); for (size_t i = s.size(); i-- > 0;) r = mkIte(mkEq(c, K(s[i], 8)), K(p + i, 64), r);
      return retTo(ci, V(r)); }
    case X_memchr: {
      uint64_t p = concretize(a[0], 64), n = concretize(a[2], 64); E *c = mkExtract(toE(a[1], 32), 0, 8); if (!n) return retTo(ci, V(0));
      for (uint64_t i = 0; i < n; i++) if (!inObj(p + i)) { callModel(ci, "model_memchr", {V(p), a[1], V(n)}, {64, 32, 64}); return true; }
      if (n > 300) { callModel(ci, "model_memchr", {V(p), a[1], V(n)}, {64, 32, 64}); return true; }
      E *r = K(0, 64); for (uint64_t i = n; i-- > 0;) r = mkIte(mkEq(toE(rd1(p + i), 8), c), K(p + i, 64), r);
      return retTo(ci, V(r)); }
    case X_allocexc: { uint64_t n = concretize(a[0], 64); uint32_t id = newObj(n, KHeap, "exception", true); return retTo(ci, V(addrOf(id))); }
    case X_freeexc: { cur->mem.kill(concretize(a[0], 64) >> SHIFT); return retTo(ci, V(0)); }
    case X_throw: { uint64_t o = concretize(a[0], 64); auto &e = cur->exc[o]; e.tinfo = a[1].c; e.dtor = a[2].c; unwind(o); return true; }
    case X_begincatch: { uint64_t o = a[0].c; auto &e = cur->exc[o]; e.handlers = e.handlers < 0 ? -e.handlers + 1 : e.handlers + 1; cur->caught.push_back(o); return retTo(ci, V(e.adj ? e.adj : o)); }
    case X_getexcptr: return retTo(ci, V(cur->exc[a[0].c].adj));
    case X_endcatch: {
      if (cur->caught.empty()) return retTo(ci, V(0));
      uint64_t o = cur->caught.back(); auto &e = cur->exc[o];
      if (e.handlers < 0) { if (++e.handlers == 0) cur->caught.pop_back(); }
      else if (--e.handlers == 0) { cur->caught.pop_back(); cur->exc.erase(o); /* destructor of the exception object is not run */ }
      else cur->caught.pop_back();
      return retTo(ci, V(0)); }
    case X_rethrow: { if (cur->caught.empty()) { fail("exception", "rethrow without exception"); return true; } uint64_t o = cur->caught.back(); auto &e = cur->exc[o]; e.handlers = -e.handlers; unwind(o); return true; }
    case X_terminate: { string w = "std::terminate called"; if (!cur->exc.empty()) { string n; for (auto &p : cur->exc) n = symName(p.second.tinfo); w += " (" + n + ")"; } fail("exception", w); return true; }
    case X_abort: fail("abort", "abort called"); return true;
    case X_exit: fail("exit", "process exit"); return true;
    case X_thr_new: { // (function, argument): a new thread, not yet running
      auto fi = faddr.find(concretize(a[0], 64)); if (fi == faddr.end()) { fail("memory", "thread of no function"); return true; }
      if (cur->thr.empty()) cur->thr.resize(1);
      cur->thr.emplace_back(); size_t id = cur->thr.size() - 1; cur->thr[id].tls = tlsInit; vector<FrameP> own; own.swap(cur->st); pushCall(getC(fi->second), {a[1]}, {64}, -1); own.swap(cur->st); cur->thr[id].st = std::move(own); return retTo(ci, V((uint32_t)id)); }
    case X_thr_switch: {
      size_t to = concretize(a[0], 32); if (to >= std::max<size_t>(1, cur->thr.size())) { fail("memory", "switch to no thread"); return true; }
      retTo(ci, V(0)); if (to == cur->curThr) return true;
      Thr &o = cur->thr[cur->curThr]; o.st.swap(cur->st); o.caught.swap(cur->caught); o.tls.clear(); for (auto id : tlsIds) o.tls.emplace_back(cur->mem.get(id));
      Thr &n = cur->thr[to]; cur->st.swap(n.st); cur->caught.swap(n.caught); for (size_t i = 0; i < tlsIds.size(); i++) { Chunk *c = cur->mem.wchunk(tlsIds[i] >> 6); Obj *&sl = c->o[tlsIds[i] & 63]; n.tls[i].o->rc++; Mem::unrefO(sl); sl = n.tls[i].o; }
      n.tls.clear(); cur->curThr = to; return true; }
    case X_setjmp: { auto &f = *cur->st.back(); cur->jb[a[0].c] = {f.uid, f.pc, ci.dst}; return retTo(ci, V(0)); }
    case X_longjmp: {
      auto it = cur->jb.find(a[0].c); if (it == cur->jb.end()) { fail("abort", "longjmp without setjmp"); return true; }
      V val = a[1]; if (val.e) val = V(concretize(val, 32)); if (!val.c) val.c = 1;
      auto j = it->second; while (!cur->st.empty() && cur->st.back()->uid != j.uid) { if (cur->st.size() == 1) { fail("abort", "longjmp to a frame that has returned"); return true; } popFrame(); }
      Frame &f = top(); f.pc = j.pc; CI &c2 = f.f->code[j.pc]; return retTo(c2, val); }
    case X_sym_bytes: {
      uint64_t p = concretize(a[0], 64), n = concretize(a[1], 64); string nm = cstr(a[2].c); Loc l; if (!resolve(V(p), n, true, l, "write")) return true; if (!n) return retTo(ci, V(0));
      SymIn in; int k = cur->nameCount[nm]++; in.name = k ? nm + "#" + std::to_string(k) : nm;
      Obj *o = cur->mem.wget(l.id); if (o->s.empty()) o->s.assign(o->size, nullptr);
      for (uint64_t i = 0; i < n; i++) { E *v = P.var(in.name, 8); in.vars.push_back(v->p); uint32_t at = l.off.c + i; o->s[at] = v; if (o->nUn && o->un[at]) { o->un[at] = 0; o->nUn--; } }
      cur->ins.push_back(in); return retTo(ci, V(0)); }
    case X_sym_assume: {
      if (!a[0].e) { if (!(a[0].c & 0xff)) { nAssumed++; endPath(); return true; } return retTo(ci, V(0)); }
      E *c = mkNot(mkEq(a[0].e, K(0, a[0].e->w))); ModelP m; SatRes r = feasible(c, m);
      if (r != SAT) { nAssumed++; endPath(); return true; }
      addC(cur, c); cur->model = m; return retTo(ci, V(0)); }
    case X_sym_check: {
      E *c = a[0].e ? mkNot(mkEq(a[0].e, K(0, a[0].e->w))) : K((a[0].c & 0xffffffff) != 0, 1); string msg = cstr(a[1].c); ModelP m; reached["check: " + msg]++;
      SatRes r = feasible(mkNot(c), m);
      if (r == SAT) { report("check", msg, m); ModelP m2; if (feasible(c, m2) != SAT) { endPath(); return true; } addC(cur, c); cur->model = m2; }
      return retTo(ci, V(0)); }
    case X_sym_fail: fail("check", cstr(a[0].c)); return true;
    case X_sym_observe: { uint64_t p = concretize(a[1], 64), n = concretize(a[2], 64); Obs ob; ob.name = cstr(a[0].c); Loc l; if (!resolve(V(p), n, false, l, "read")) return true; for (uint64_t i = 0; i < n; i++) ob.bytes.push_back(rd1(p + i)); cur->obs.push_back(ob); return retTo(ci, V(0)); }
    case X_sym_case: return retTo(ci, V((uint32_t)optCase));
    case X_sym_reach: reached[cstr(a[0].c)]++; return retTo(ci, V(0));
    case X_sym_concrete: { uint64_t v = concretize(a[0], 64); return retTo(ci, V(v)); }
    case X_sym_engine: return retTo(ci, V(1));
    case X_sym_symbolic: return retTo(ci, V(a[0].e != nullptr));
    case X_sym_ite: { // sym_ite(c, a, b) without forking
      E *c = a[0].e ? mkNot(mkEq(a[0].e, K(0, a[0].e->w))) : K((a[0].c & 0xffffffff) != 0, 1); return retTo(ci, V(mkIte(c, toE(a[1], 64), toE(a[2], 64)))); }
    case X_sym_tag: cur->tag = cstr(a[0].c); return retTo(ci, V(0));
    case X_sym_end: nExit++; endPath(); return true;
    case X_sym_log: if (optVerbose) { fprintf(stderr, "LOG %s %s\n", cstr(a[0].c).c_str(), a[1].e ? "<sym>" : std::to_string(a[1].c).c_str()); } return retTo(ci, V(0));
    case X_sym_readonly: { uint32_t id = a[0].c >> SHIFT; if (Obj *o = cur->mem.wget(id)) o->ro = a[1].c & 1; return retTo(ci, V(0)); }
    case X_atexit: return retTo(ci, V(0));
    case X_zero: return retTo(ci, V(0));
    case X_dyncast: { // single-inheritance: compare most-derived type
      uint64_t o = concretize(a[0], 64); if (!o) return retTo(ci, V(0)); V vp; if (!load(V(o), 8, vp)) return true; if (vp.e) { unsup("dynamic_cast on symbolic vptr"); return true; }
      V ti, top_; if (!load(V(vp.c - 8), 8, ti)) return true; if (!load(V(vp.c - 16), 8, top_)) return true; int64_t off = tiMatch(ti.c, a[2].c); return retTo(ci, V(off < 0 ? 0 : o + (int64_t)top_.c + off)); }
    case X_fmtdouble: { // int sym_fmt_double(char *buf, size_t n, const char *fmt, double v, int prec)
      uint64_t b = a[0].c, n = a[1].c; string fmt = cstr(a[2].c); V dv = a[3]; if (dv.e && !allPinned(cur, dv.e)) { unsup("formatting a symbolic floating point value"); return true; } uint64_t bits = dv.e ? (uint64_t)evalE(dv.e) : dv.c; double d; memcpy(&d, &bits, 8);
      char tmp[512]; int prec = (int)(int32_t)a[4].c; int r = prec >= 0 ? snprintf(tmp, sizeof tmp, fmt.c_str(), prec, d) : snprintf(tmp, sizeof tmp, fmt.c_str(), d);
      if (!setBytes(V(b), V(0), 0)) return true; for (int i = 0; i <= r && (uint64_t)i < n; i++) { if (!store(V(b + i), 1, V((uint64_t)(uint8_t)tmp[i]))) return true; } return retTo(ci, V((uint32_t)r)); }
    case X_strtod: { // double sym_strtod(const char *s, size_t *used): s must be concrete
      string s = ""; uint64_t p = a[0].c; while (inObj(p)) { V v = rd1(p); if (v.e) { if (!allPinned(cur, v.e)) { if (evalE(v.e) == 0 && false) {} uint64_t cv = concretize(v, 8); v = V(cv); } else v = V((uint64_t)evalE(v.e)); } if (!v.c) break; s += (char)v.c; p++; if (s.size() > 400) break; }
      char *e; double d = strtod(s.c_str(), &e); uint64_t bits; memcpy(&bits, &d, 8); if (a[1].c) if (!store(a[1], 8, V((uint64_t)(e - s.c_str())))) return true; return retTo(ci, V(bits)); }
    default: break;
  }
  (void)F; return false;
}

// ------------------------------------------------------------------ intrinsics
static bool intrinsic(CI &ci, Function *F, const vector<V> &a) {
  unsigned w = ci.w;
  auto bin = [&](Op op, const V &x, const V &y, unsigned ww) -> V { if (!x.e && !y.e) { u128 r; foldBin(op, x.c, y.c, ww, r); return V((uint64_t)r); } return V(mkBin(op, toE(x, ww), toE(y, ww))); };
  auto E_ = [&](const V &v) { return toE(v, w); };
  switch (F->getIntrinsicID()) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { uint64_t n = concretize(a[2], 64); if (!copyBytes(a[0], a[1], n, true)) return true; return retTo(ci, V(0)); }
    case Intrinsic::memset: case Intrinsic::memset_inline: { uint64_t n = concretize(a[2], 64); if (!setBytes(a[0], a[1], n)) return true; return retTo(ci, V(0)); }
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_end: case Intrinsic::donothing: case Intrinsic::stackrestore: case Intrinsic::prefetch: return retTo(ci, V(0));
    case Intrinsic::invariant_start: return retTo(ci, V(0));
    case Intrinsic::stacksave: return retTo(ci, V(0));
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: return retTo(ci, a[0]);
    case Intrinsic::threadlocal_address: return retTo(ci, a[0]);
    case Intrinsic::is_constant: return retTo(ci, V(0));
    case Intrinsic::objectsize: return retTo(ci, V(~0ull & mask64(w)));
    case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: {
      auto id = F->getIntrinsicID(); bool sg = id == Intrinsic::smin || id == Intrinsic::smax; bool mn = id == Intrinsic::umin || id == Intrinsic::smin;
      E *lt = mkBin(sg ? OSlt : OUlt, E_(a[0]), E_(a[1])); return retTo(ci, V(mkIte(lt, mn ? E_(a[0]) : E_(a[1]), mn ? E_(a[1]) : E_(a[0])))); }
    case Intrinsic::abs: { E *x = E_(a[0]); return retTo(ci, V(mkIte(mkBin(OSlt, x, K(0, w)), mkBin(OSub, K(0, w), x), x))); }
    case Intrinsic::bswap: { E *x = E_(a[0]); E *r = mkExtract(x, 0, 8); for (unsigned i = 8; i < w; i += 8) r = mkConcat(r, mkExtract(x, i, 8)); return retTo(ci, V(r)); }
    case Intrinsic::ctpop: { E *x = E_(a[0]); E *r = K(0, w); for (unsigned i = 0; i < w; i++) r = mkBin(OAdd, r, mkZExt(mkExtract(x, i, 1), w)); return retTo(ci, V(r)); }
    case Intrinsic::ctlz: { E *x = E_(a[0]); E *r = K(w, w); for (unsigned i = 0; i < w; i++) r = mkIte(mkExtract(x, i, 1), K(w - 1 - i, w), r); return retTo(ci, V(r)); }
    case Intrinsic::cttz: { E *x = E_(a[0]); E *r = K(w, w); for (unsigned i = w; i-- > 0;) r = mkIte(mkExtract(x, i, 1), K(i, w), r); return retTo(ci, V(r)); }
    case Intrinsic::fshl: case Intrinsic::fshr: {
      bool l = F->getIntrinsicID() == Intrinsic::fshl; uint64_t s = concretize(a[2], w) % w; if (s == 0) return retTo(ci, l ? a[0] : a[1]);
      unsigned sl = l ? s : w - s; E *r = mkConcat(mkExtract(E_(a[0]), 0, w - sl), mkExtract(E_(a[1]), w - sl, sl)); return retTo(ci, V(r)); }
    case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: {
      auto id = F->getIntrinsicID(); unsigned ww = cast<IntegerType>(F->getArg(0)->getType())->getBitWidth(); bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
      Op op = (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) ? OAdd : (id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow) ? OSub : OMul;
      unsigned w2 = std::min(128u, ww * 2); if (op != OMul) w2 = ww + 1;
      E *x = toE(a[0], ww), *y = toE(a[1], ww); E *xx = sg ? mkSExt(x, w2) : mkZExt(x, w2), *yy = sg ? mkSExt(y, w2) : mkZExt(y, w2);
      E *full = mkBin(op, xx, yy); E *res = mkBin(op, x, y); E *ov = mkNot(mkEq(full, sg ? mkSExt(res, w2) : mkZExt(res, w2)));
      Frame &f = top(); f.r[ci.dst] = V(res); f.r[ci.dst + 1] = V(ov); f.pc++; return true; }
    case Intrinsic::usub_sat: { E *x = E_(a[0]), *y = E_(a[1]); return retTo(ci, V(mkIte(mkBin(OUlt, x, y), K(0, w), mkBin(OSub, x, y)))); }
    case Intrinsic::uadd_sat: { E *x = E_(a[0]), *y = E_(a[1]); E *s = mkBin(OAdd, x, y); return retTo(ci, V(mkIte(mkBin(OUlt, s, x), K(~(u128)0, w), s))); }
    case Intrinsic::ptrmask: return retTo(ci, bin(OAnd, a[0], a[1], 64));
    case Intrinsic::fabs: { E *x = E_(a[0]); return retTo(ci, V(mkBin(OAnd, x, K(maskw(w - 1), w)))); }
    case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::trunc: case Intrinsic::rint: case Intrinsic::sqrt: case Intrinsic::pow: {
      if (a[0].e) { unsup("fp intrinsic on symbolic"); return true; } double d; memcpy(&d, &a[0].c, 8); auto id = F->getIntrinsicID(); d = id == Intrinsic::floor ? floor(d) : id == Intrinsic::ceil ? ceil(d) : id == Intrinsic::trunc ? trunc(d) : id == Intrinsic::sqrt ? sqrt(d) : rint(d); uint64_t b; memcpy(&b, &d, 8); return retTo(ci, V(b)); }
    case Intrinsic::fmuladd: case Intrinsic::fma: { if (w != 64 && w != 32) break; E *m = mkF(OFMul, w, E_(a[0]), E_(a[1])); return retTo(ci, V(mkF(OFAdd, w, m, E_(a[2])))); }
    case Intrinsic::copysign: { E *x = E_(a[0]), *y = E_(a[1]); return retTo(ci, V(mkConcat(mkExtract(y, w - 1, 1), mkExtract(x, 0, w - 1)))); }
    case Intrinsic::is_fpclass: { break; }
    case Intrinsic::vastart: {
      uint64_t ap = concretize(a[0], 64); uint64_t va = cur->st.back()->va;
      if (!store(V(ap), 4, V(48)) || !store(V(ap + 4), 4, V(176)) || !store(V(ap + 8), 8, V(va)) || !store(V(ap + 16), 8, V(0))) return true; return retTo(ci, V(0)); }
    case Intrinsic::vacopy: { if (!copyBytes(a[0], a[1], 24, false)) return true; return retTo(ci, V(0)); }
    case Intrinsic::vaend: return retTo(ci, V(0));
    case Intrinsic::trap: fail("trap", "trap instruction"); return true;
    case Intrinsic::ubsantrap: fail("ub", "undefined behaviour reached"); return true;
    case Intrinsic::debugtrap: return retTo(ci, V(0));
    case Intrinsic::eh_typeid_for: return retTo(ci, V((uint32_t)typeId(a[0].c)));
    default: break;
  }
  unsup("intrinsic " + F->getName().str()); return true;
}

// ------------------------------------------------------------------ one instruction
static void execCall(Frame &f, CI &ci) {
  vector<V> a; a.reserve(ci.o.size()); size_t k = 0; Function *F = ci.F;
  if (!F) {
    V cv = get(f, ci.o[0]); uint64_t ad = concretize(cv, 64); auto it = faddr.find(ad);
    if (it == faddr.end()) { fail("memory", ad ? "call through invalid function pointer" : "call through null function pointer"); return; }
    F = it->second; k = 1;
  }
  for (; k < ci.o.size(); k++) a.push_back(get(f, ci.o[k]));
  if (F->isIntrinsic()) { intrinsic(ci, F, a); return; }
  int x = -2;
  if (ci.F) { if (ci.ext == -2) { auto it = extTab.find(F->getName().str()); ci.ext = it == extTab.end() ? -1 : it->second; } x = ci.ext; }
  else { auto it = extTab.find(F->getName().str()); x = it == extTab.end() ? -1 : it->second; }
  if (x >= 0) { external(ci, (Ext)x, a, ci.lw, F); return; }
  if (F->isDeclaration()) {
    // environment stub: fx_<name>, or model_<name>
    static std::unordered_map<Function *, Function *> redir; auto it = redir.find(F); Function *R = nullptr;
    if (it != redir.end()) R = it->second; else { string n = F->getName().str(); R = M->getFunction("fx_" + n); if (!R || R->isDeclaration()) R = M->getFunction("model_" + n); if (R && R->isDeclaration()) R = nullptr; redir[F] = R; }
    if (!R) { unsup("external function " + demangle(F->getName().str())); return; }
    F = R;
  }
  CFunc *cf = ci.cf && ci.F ? ci.cf : getC(F); if (ci.F) ci.cf = cf;
  // byval copies
  bool byval = false; for (auto s : ci.x) if (s) byval = true;
  vector<uint32_t> al;
  if (byval) { size_t arg = 0, leaf = 0; for (; arg < ci.loff.size(); arg++) { if (ci.x[arg]) { uint32_t id = newObj(ci.x[arg], KStack, "byval", false); if (!copyBytes(V(addrOf(id)), a[leaf], ci.x[arg], false)) return; a[leaf] = V(addrOf(id)); al.push_back(id); } leaf += ci.loff[arg]; } }
  pushCall(cf, a, ci.lw, ci.dst);
  if (!pathEnded) for (auto id : al) top().al.push_back(id);
}

static void finishPath(const char *why) {
  nPaths++;
  if ((int)nTests < optTests) {
    nTests++; EV.bind(cur->model);
    string o = "[";
    for (size_t i = 0; i < cur->obs.size(); i++) { if (i) o += ","; o += "[\"" + jesc(cur->obs[i].name) + "\",\""; for (auto &b : cur->obs[i].bytes) { char t[3]; snprintf(t, 3, "%02x", b.e ? (unsigned)EV(b.e) & 255 : (unsigned)b.c & 255); o += t; } o += "\"]"; }
    emit("{\"t\":\"test\",\"why\":\"" + string(why) + "\",\"case\":" + std::to_string(optCase) + ",\"inputs\":" + inputsJson(cur, cur->model) + ",\"obs\":" + o + "]}");
  }
}

static void step() {
  Frame &f = top(); CI &ci = f.f->code[f.pc];
  switch (ci.op) {
    case CBin: {
      V a = get(f, ci.o[0]), b = get(f, ci.o[1]); unsigned w = ci.w; Op op = (Op)ci.sub;
      if (op == OUDiv || op == OSDiv || op == OURem || op == OSRem) {
        E *z = mkEq(toE(b, w), K(0, w)); if (decide(z)) { fail("arith", "division by zero"); return; }
        if (op == OSDiv || op == OSRem) { E *ov = mkBin(OAnd, mkEq(toE(b, w), K(maskw(w), w)), mkEq(toE(a, w), K((u128)1 << (w - 1), w))); if (decide(ov)) { fail("arith", "signed division overflow"); return; } }
      }
      if (!a.e && !b.e) { 
        uint64_t r; switch (op) { case OAdd: r = a.c + b.c; break; case OSub: r = a.c - b.c; break; case OAnd: r = a.c & b.c; break; case OOr: r = a.c | b.c; break; case OXor: r = a.c ^ b.c; break; case OMul: r = a.c * b.c; break; default: { u128 t = 0; foldBin(op, a.c, b.c, w, t); r = (uint64_t)t; } }
        Frame &g = top(); g.r[ci.dst] = V(r & mask64(w)); g.pc++; }
      else { Frame &g = top(); g.r[ci.dst] = V(mkBin(op, toE(a, w), toE(b, w))); g.pc++; }
      return; }
    case CICmp: {
      V a = get(f, ci.o[0]), b = get(f, ci.o[1]); unsigned w = ci.w2; 
      if (!a.e && !b.e) {
        bool r = false; int64_t sa = sx64(a.c, w), sb = sx64(b.c, w);
        switch (ci.sub) { case CmpInst::ICMP_EQ: r = a.c == b.c; break; case CmpInst::ICMP_NE: r = a.c != b.c; break; case CmpInst::ICMP_UGT: r = a.c > b.c; break; case CmpInst::ICMP_UGE: r = a.c >= b.c; break; case CmpInst::ICMP_ULT: r = a.c < b.c; break; case CmpInst::ICMP_ULE: r = a.c <= b.c; break;
          case CmpInst::ICMP_SGT: r = sa > sb; break; case CmpInst::ICMP_SGE: r = sa >= sb; break; case CmpInst::ICMP_SLT: r = sa < sb; break; case CmpInst::ICMP_SLE: r = sa <= sb; break; }
        f.r[ci.dst] = V(r);
      } else {
        E *x = toE(a, w), *y = toE(b, w), *r = nullptr;
        switch (ci.sub) { case CmpInst::ICMP_EQ: r = mkEq(x, y); break; case CmpInst::ICMP_NE: r = mkNot(mkEq(x, y)); break; case CmpInst::ICMP_UGT: r = mkBin(OUlt, y, x); break; case CmpInst::ICMP_UGE: r = mkBin(OUle, y, x); break; case CmpInst::ICMP_ULT: r = mkBin(OUlt, x, y); break; case CmpInst::ICMP_ULE: r = mkBin(OUle, x, y); break;
          case CmpInst::ICMP_SGT: r = mkBin(OSlt, y, x); break; case CmpInst::ICMP_SGE: r = mkBin(OSle, y, x); break; case CmpInst::ICMP_SLT: r = mkBin(OSlt, x, y); break; case CmpInst::ICMP_SLE: r = mkBin(OSle, x, y); break; }
        f.r[ci.dst] = V(r);
      }
      f.pc++; return; }
    case CFCmp: {
      unsigned w = ci.w2; if (w != 32 && w != 64) { unsup("fcmp width"); return; }
      E *x = toE(get(f, ci.o[0]), w), *y = toE(get(f, ci.o[1]), w);
      E *un = mkBin(OOr, mkF(OFIsNan, 1, x), mkF(OFIsNan, 1, y)); E *r;
      switch (ci.sub) {
        case CmpInst::FCMP_FALSE: r = K(0, 1); break; case CmpInst::FCMP_TRUE: r = K(1, 1); break;
        case CmpInst::FCMP_OEQ: r = mkF(OFEq, 1, x, y); break; case CmpInst::FCMP_OGT: r = mkF(OFLt, 1, y, x); break; case CmpInst::FCMP_OGE: r = mkF(OFLe, 1, y, x); break;
        case CmpInst::FCMP_OLT: r = mkF(OFLt, 1, x, y); break; case CmpInst::FCMP_OLE: r = mkF(OFLe, 1, x, y); break; case CmpInst::FCMP_ONE: r = mkBin(OAnd, mkNot(un), mkNot(mkF(OFEq, 1, x, y))); break;
        case CmpInst::FCMP_ORD: r = mkNot(un); break; case CmpInst::FCMP_UNO: r = un; break;
        case CmpInst::FCMP_UEQ: r = mkBin(OOr, un, mkF(OFEq, 1, x, y)); break; case CmpInst::FCMP_UGT: r = mkBin(OOr, un, mkF(OFLt, 1, y, x)); break; case CmpInst::FCMP_UGE: r = mkBin(OOr, un, mkF(OFLe, 1, y, x)); break;
        case CmpInst::FCMP_ULT: r = mkBin(OOr, un, mkF(OFLt, 1, x, y)); break; case CmpInst::FCMP_ULE: r = mkBin(OOr, un, mkF(OFLe, 1, x, y)); break; default: r = mkNot(mkF(OFEq, 1, x, y)); break; }
      f.r[ci.dst] = V(r); f.pc++; return; }
    case CFBin: { unsigned w = ci.w; if (w != 32 && w != 64) { unsup("long double"); return; } f.r[ci.dst] = V(mkF((Op)ci.sub, w, toE(get(f, ci.o[0]), w), toE(get(f, ci.o[1]), w))); f.pc++; return; }
    case CFNeg: { unsigned w = ci.w; f.r[ci.dst] = V(mkBin(OXor, toE(get(f, ci.o[0]), w), K((u128)1 << (w - 1), w))); f.pc++; return; }
    case CCast: {
      V a = get(f, ci.o[0]); unsigned w = ci.w, w2 = ci.w2; V r;
      switch (ci.x[0]) {
        case Instruction::Trunc: r = a.e ? V(mkExtract(a.e, 0, w)) : V(a.c & mask64(w)); break;
        case Instruction::ZExt: r = a.e ? V(mkZExt(a.e, w)) : w <= 64 ? a : V(mkZExt(K(a.c, w2), w)); break;
        case Instruction::SExt: r = a.e ? V(mkSExt(a.e, w)) : w <= 64 ? V((uint64_t)sx64(a.c, w2) & mask64(w)) : V(mkSExt(K(a.c, w2), w)); break;
        case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: r = a; if (w < w2) r = a.e ? V(mkExtract(a.e, 0, w)) : V(a.c & mask64(w)); else if (w > w2 && a.e) r = V(mkZExt(a.e, w)); break;
        case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPExt: case Instruction::FPTrunc: {
          bool isf = ci.x[0] != Instruction::SIToFP && ci.x[0] != Instruction::UIToFP; unsigned fw = isf ? w2 : w; 
          if (fw == 80 || w == 80) { unsup("long double"); return; }
          Op op = ci.x[0] == Instruction::FPToSI ? OFToS : ci.x[0] == Instruction::FPToUI ? OFToU : ci.x[0] == Instruction::SIToFP ? OSToF : ci.x[0] == Instruction::UIToFP ? OUToF : OFToF;
          if (op == OFToS || op == OFToU) { // x86: conversions narrower than 32 bits go through int
            unsigned ww = op == OFToS ? (w < 32 ? 32 : w) : (w < 32 ? 32 : 64); E *r0 = mkF(op == OFToU && ww == 32 ? OFToS : op, ww == 64 && op == OFToU ? 64 : ww, toE(a, w2)); if (!isK(r0)) {
              // out of range: cvttsd2si gives the minimum value; z3 leaves it unspecified, so restrict
              E *lo = K(foldF(OSToF, w2, 64, (u128)(uint64_t)(ww == 64 ? INT64_MIN : INT32_MIN), 0), w2); E *hi = ww == 64 ? K(w2 == 64 ? 0x43E0000000000000ull : 0x5F000000ull, w2) : K(w2 == 64 ? 0x41E0000000000000ull : 0x4F000000ull, w2);
              E *in = mkBin(OAnd, mkF(OFLe, 1, lo, toE(a, w2)), mkF(OFLt, 1, toE(a, w2), hi));
              if (op == OFToS) r0 = mkIte(in, r0, K((u128)1 << (ww - 1), ww)); }
            r = V(mkExtract(r0, 0, w)); }
          else r = V(mkF(op, w, toE(a, w2))); break; }
        default: unsup("cast"); return;
      }
      f.r[ci.dst] = r; f.pc++; return; }
    case CSelect: {
      V c = get(f, ci.o[0]);
      if (c.e && ci.x[0]) { // pointers to different objects, or to the two links of a tree node: separate paths instead of a symbolic pointer
        V a = get(f, ci.o[1]), b = get(f, ci.o[2]);
        if (!a.e && !b.e && (a.c >> SHIFT != b.c >> SHIFT || a.c + 8 == b.c || b.c + 8 == a.c)) { bool t = decide(c.e); top().r[ci.dst] = t ? a : b; top().pc++; return; }
      }
      if (!c.e) { for (uint32_t i = 0; i < ci.n; i++) f.r[ci.dst + i] = get(f, ci.o[1 + (c.c & 1 ? 0 : ci.n) + i]); }
      else { for (uint32_t i = 0; i < ci.n; i++) { unsigned w = ci.lw[i]; f.r[ci.dst + i] = V(mkIte(c.e, toE(get(f, ci.o[1 + i]), w), toE(get(f, ci.o[1 + ci.n + i]), w))); } }
      f.pc++; return; }
    case CLoad: {
      V p = get(f, ci.o[0]);
      if (ci.lw.size() == 1) {
        unsigned w = ci.lw[0]; V v; if (!load(p, (w + 7) / 8, v)) return; Frame &g = top(); if (w & 7) v = v.e ? V(mkExtract(v.e, 0, w)) : V(v.c & mask64(w)); else if (w > 64 && !v.e) { E *e = K(v.c, w); v.e = e; } else if (v.e && v.e->w > w) v = V(mkExtract(v.e, 0, w)); g.r[ci.dst] = v; g.pc++; return; }
      if (p.e) p = V(concretize(p, 64));
      for (size_t i = 0; i < ci.lw.size(); i++) { V v; unsigned w = ci.lw[i]; if (!load(V(p.c + ci.loff[i]), (w + 7) / 8, v)) return; if (w & 7) v = v.e ? V(mkExtract(v.e, 0, w)) : V(v.c & mask64(w)); top().r[ci.dst + i] = v; }
      top().pc++; return; }
    case CStore: {
      V p = get(f, ci.o[0]);
      if (ci.lw.size() == 1) { unsigned w = ci.lw[0]; V v = get(f, ci.o[1]); if (!store(p, (w + 7) / 8, v)) return; top().pc++; return; }
      if (p.e) p = V(concretize(p, 64));
      for (size_t i = 0; i < ci.lw.size(); i++) { unsigned w = ci.lw[i]; if (!store(V(p.c + ci.loff[i]), (w + 7) / 8, get(f, ci.o[1 + i]))) return; }
      top().pc++; return; }
    case CGep: {
      V p = get(f, ci.o[0]); uint64_t co = ci.x.back(); bool sym = p.e != nullptr; uint64_t c = p.c + co;
      for (size_t i = 1; i < ci.o.size(); i++) { V ix = get(f, ci.o[i]); if (ix.e) sym = true; else c += (uint64_t)sx64(ix.c, ci.lw[i - 1]) * ci.x[i - 1]; }
      if (!sym) { f.r[ci.dst] = V(c); f.pc++; return; }
      E *r = p.e ? mkBin(OAdd, p.e, K(c - p.c, 64)) : K(c, 64);
      for (size_t i = 1; i < ci.o.size(); i++) { V ix = get(f, ci.o[i]); if (ix.e) { E *e = mkSExt(ix.e, 64); r = mkBin(OAdd, mkBin(OMul, e, K(ci.x[i - 1], 64)), r); } }
      f.r[ci.dst] = V(r); f.pc++; return; }
    case CAlloca: { uint64_t n = concretize(get(f, ci.o[0]), 64); uint64_t sz = n * ci.x[0]; if (sz > (8u << 20)) { fail("stack", "stack allocation too large"); return; } uint32_t id = newObj(sz, KStack, "local variable", false); Frame &g = top(); g.al.push_back(id); g.r[ci.dst] = V(addrOf(id)); g.pc++; return; }
    case CBr: takeEdge(f, ci.e[0]); return;
    case CCondBr: {
      V c = get(f, ci.o[0]); bool t = c.e ? decide(c.e) : (c.c & 1); takeEdge(top(), ci.e[t ? 0 : 1]); return; }
    case CSwitch: {
      V c = get(f, ci.o[0]); unsigned w = ci.w2;
      if (!c.e) { size_t t = 0; for (size_t i = 0; i < ci.x.size(); i++) if (ci.x[i] == c.c) { t = i + 1; break; } takeEdge(f, ci.e[t]); return; }
      uint64_t v = (uint64_t)evalE(c.e); size_t t = 0; for (size_t i = 0; i < ci.x.size(); i++) if (ci.x[i] == v) { t = i + 1; break; }
      uint32_t tpc = ci.e[t].pc; E *cond;
      if (t) { cond = K(0, 1); for (size_t i = 0; i < ci.x.size(); i++) if (ci.e[i + 1].pc == tpc && (ci.e[i + 1].moves.empty() || i + 1 == t)) cond = mkBin(OOr, cond, mkEq(c.e, K(ci.x[i], w))); }
      else { cond = K(1, 1); for (size_t i = 0; i < ci.x.size(); i++) cond = mkBin(OAnd, cond, mkNot(mkEq(c.e, K(ci.x[i], w)))); }
      decide(cond); takeEdge(top(), ci.e[t]); return; }
    case CRet: {
      V vals[16]; size_t n = ci.o.size(); vector<V> big; V *pv = vals; if (n > 16) { big.resize(n); pv = big.data(); } for (size_t i = 0; i < n; i++) pv[i] = get(f, ci.o[i]);
      int dst = f.dst; popFrame();
      if (cur->st.empty()) { finishPath("return"); endPath(); return; }
      Frame &g = top(); if (dst >= 0) for (size_t i = 0; i < n; i++) g.r[dst + i] = pv[i];
      CI &cc = g.f->code[g.pc]; if (cc.op == CInvoke) takeEdge(g, cc.e[0]); else g.pc++; return; }
    case CCall: case CInvoke: execCall(f, ci); return;
    case CLandingPad: f.r[ci.dst] = f.exc[0]; f.r[ci.dst + 1] = f.exc[1]; f.pc++; return;
    case CResume: { uint64_t o = get(f, ci.o[0]).c; // continue unwinding from this frame's caller
      if (cur->st.size() == 1) { fail("exception", "uncaught exception " + symName(cur->exc[o].tinfo)); return; }
      if (f.f->F->doesNotThrow()) { fail("exception", "exception leaves a noexcept function"); return; }
      popFrame(); unwind(o); return; }
    case CUnreachable: fail("ub", "unreachable code reached"); return;
    case CFreeze: { size_t n = ci.o.size(); if (n == 1) f.r[ci.dst] = get(f, ci.o[0]); else { vector<V> t(n); for (size_t i = 0; i < n; i++) t[i] = get(f, ci.o[i]); for (size_t i = 0; i < n; i++) f.r[ci.dst + i] = t[i]; } f.pc++; return; }
    case CFence: f.pc++; return;
    case CAtomicRMW: {
      unsigned w = ci.w; V p = get(f, ci.o[0]), v = get(f, ci.o[1]); V old; if (p.e) p = V(concretize(p, 64)); if (!load(p, w / 8, old)) return; E *o = toE(old, w), *y = toE(v, w), *n;
      switch (ci.sub) { case AtomicRMWInst::Xchg: n = y; break; case AtomicRMWInst::Add: n = mkBin(OAdd, o, y); break; case AtomicRMWInst::Sub: n = mkBin(OSub, o, y); break; case AtomicRMWInst::And: n = mkBin(OAnd, o, y); break; case AtomicRMWInst::Or: n = mkBin(OOr, o, y); break; case AtomicRMWInst::Xor: n = mkBin(OXor, o, y); break; default: unsup("atomicrmw"); return; }
      if (!store(p, w / 8, V(n))) return; Frame &g = top(); g.r[ci.dst] = old; g.pc++; return; }
    case CCmpXchg: {
      unsigned w = ci.w2; V p = get(f, ci.o[0]); V e = get(f, ci.o[1]), n = get(f, ci.o[2]); V old; if (p.e) p = V(concretize(p, 64)); if (!load(p, w / 8, old)) return; E *eq = mkEq(toE(old, w), toE(e, w));
      if (!store(p, w / 8, V(mkIte(eq, toE(n, w), toE(old, w))))) return; Frame &g = top(); g.r[ci.dst] = old; g.r[ci.dst + 1] = V(eq); g.pc++; return; }
    default: { string s; raw_string_ostream os(s); ci.I->print(os); unsup("instruction " + s); return; }
  }
}

// ------------------------------------------------------------------ module set-up
static void initGlobalBytes(uint32_t id, uint64_t off, const Constant *c) {
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
  Type *t = c->getType();
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { Obj *o = cur->mem.wget(id); StringRef r = cd->getRawDataValues(); memcpy(&o->d[off], r.data(), r.size()); return; }
  if (auto *cs = dyn_cast<ConstantStruct>(c)) { auto *sl = DL->getStructLayout(cs->getType()); for (unsigned i = 0; i < cs->getNumOperands(); i++) initGlobalBytes(id, off + sl->getElementOffset(i), cs->getOperand(i)); return; }
  if (auto *ca = dyn_cast<ConstantArray>(c)) { uint64_t es = DL->getTypeAllocSize(ca->getType()->getElementType()); for (unsigned i = 0; i < ca->getNumOperands(); i++) initGlobalBytes(id, off + i * es, ca->getOperand(i)); return; }
  V v = constScalar(c); unsigned w = t->isPointerTy() ? 64 : t->isX86_FP80Ty() ? 80 : (unsigned)DL->getTypeSizeInBits(t); writeObj(id, off, (w + 7) / 8, v);
}
static void setup() {
  cur = new State;
  for (auto &F : *M) { uint32_t id = newObj(0, KFunc, strdup(F.getName().str().c_str()), true); fAddrs[&F] = addrOf(id); faddr[addrOf(id)] = &F; }
  vector<GlobalVariable *> gs; for (auto &g : M->globals()) gs.push_back(&g);
  for (auto *g : gs) {
    uint64_t sz = g->getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(g->getValueType()) : 64;
    if (g->isDeclaration() && sz < 4096) sz = sz < 64 ? 64 : sz;
    if (g->getName().starts_with("llvm.")) continue;
    gaddr[g] = addrOf(newObj(sz, KGlobal, strdup(g->getName().str().c_str()), true));
  }
  for (auto *g : gs) if (gaddr.count(g)) { uint32_t id = gaddr[g] >> SHIFT; if (g->hasInitializer()) initGlobalBytes(id, 0, g->getInitializer()); if (g->isConstant() && g->hasInitializer()) cur->mem.wget(id)->ro = true; if (g->isThreadLocal()) { tlsIds.push_back(id); tlsInit.emplace_back(cur->mem.get(id)); } }
}
static bool splitWork();
static void runState() { // runs cur until the path ends
  pathEnded = false; uint64_t n = 0;
  while (!pathEnded) {
    step(); n++; nSteps++;
    if (++cur->steps > optMaxSteps && !pathEnded) { nHang++; fail("hang", "no end after " + std::to_string(optMaxSteps) + " steps"); break; }
    if ((n & 0x3fff) == 0 && now() - tStart > optMaxTime) { incomplete = true; incompleteWhy = "time limit"; break; }
    if ((n & 0x3ff) == 0) splitWork();
  }
}
static int alivePipe[2] = {-1, -1}; static double lastSplit = 0; static bool isRoot = true;
static void summary() {
  string fn = "["; bool first = true; size_t nf = 0, ni = 0;
  for (auto &p : cfuncs) if (p.second->hit && p.second->F->getSubprogram()) { auto file = p.second->F->getSubprogram()->getFilename(); if (file.contains("/repo/src") || file.contains("repo/src")) { nf++; if (!first) fn += ","; first = false; fn += "\"" + jesc(demangle(p.second->name).substr(0, 100)) + "\""; } ni += p.second->code.size(); }
  fn += "]";
  string rc = "{"; first = true; for (auto &p : reached) { if (!first) rc += ","; first = false; rc += "\"" + jesc(p.first) + "\":" + std::to_string(p.second); } rc += "}";
  char b[2048];
  snprintf(b, sizeof b, "{\"t\":\"sum\",\"root\":%d,\"paths\":%lu,\"forks\":%lu,\"steps\":%lu,\"assumed\":%lu,\"errors\":%lu,\"unsup\":%lu,\"queries\":%lu,\"qcache\":%lu,\"qmodel\":%lu,\"z3calls\":%lu,\"z3unknown\":%lu,\"z3time\":%.3f,\"z3max\":%.3f,\"incomplete\":%d,\"left\":%zu,\"splits\":%lu,\"hang\":%lu,\"exprs\":%u,\"time\":%.2f,\"why\":\"%s\",\"funcs\":",
    isRoot, nPaths, nForks, nSteps, nAssumed, nErr, nUnsup, stats.queries, stats.qcache, stats.qmodel, stats.z3calls, stats.z3unknown, stats.z3time, stats.z3max, (int)incomplete, work.size(), nSplit, nHang, P.next, now() - tStart, jesc(incompleteWhy).c_str());
  emit(string(b) + fn + ",\"reached\":" + rc + "}");
  if (optVerbose) { vector<std::pair<uint64_t, string>> v; for (auto &p : forkSites) v.push_back({p.second, p.first}); std::sort(v.rbegin(), v.rend()); for (size_t i = 0; i < v.size() && i < 40; i++) fprintf(stderr, "forks %6lu %s\n", v[i].first, v[i].second.c_str()); }
}
static bool tryToken() { if (tokR < 0) return false; char c; return read(tokR, &c, 1) == 1; }
static bool splitWork() {
  if (tokR < 0 || work.empty()) return false;
  double t = now(); if (t - lastSplit < 0.03) return false; lastSplit = t;
  if (!tryToken()) return false;
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid < 0) { char c = 't'; ssize_t r = write(tokW, &c, 1); (void)r; return false; }
  if (pid == 0) {
    State *mine = work.front(); work.clear(); work.push_back(mine); isRoot = false; if (alivePipe[0] >= 0) close(alivePipe[0]);
    nPaths = nForks = nSteps = nAssumed = nErr = nUnsup = nSplit = nHang = 0; nTests = std::max(0, optTests - 1); stats = Stats(); reached.clear(); incomplete = false; incompleteWhy.clear(); for (auto &p : cfuncs) p.second->hit = true; forkSites.clear();
    lastSplit = now(); cur = nullptr; pathEnded = true;
    return true; // caller's loop sees pathEnded and takes next work item
  }
  nSplit++; State *given = work.front(); work.erase(work.begin()); delete given;
  return true;
}
static size_t rssMB() { FILE *f = fopen("/proc/self/statm", "r"); if (!f) return 0; size_t a, b = 0; if (fscanf(f, "%zu %zu", &a, &b) != 2) b = 0; fclose(f); return b * 4096 / 1048576; }

int main(int argc, char **argv) {
  string in;
  for (int i = 1; i < argc; i++) {
    string a = argv[i]; auto val = [&]() { return string(argv[++i]); };
    if (a == "--out") optOut = val(); else if (a == "--entry") optEntry = val(); else if (a == "--case") optCase = atol(val().c_str()); else if (a == "--max-time") optMaxTime = atof(val().c_str());
    else if (a == "--max-steps") optMaxSteps = strtoull(val().c_str(), 0, 10); else if (a == "--tok") { tokR = atoi(val().c_str()); tokW = atoi(val().c_str()); } else if (a == "--tests") optTests = atoi(val().c_str());
    else if (a == "--max-err") optMaxErr = atoi(val().c_str()); else if (a == "-v") optVerbose = true; else if (a == "--seed") optSeed = strtoull(val().c_str(), 0, 10); else if (a == "--slow") S.slowLimit = atof(val().c_str()); else if (a == "--mem") optMemMB = atol(val().c_str()); else in = a;
  }
  tStart = now(); signal(SIGPIPE, SIG_IGN);
  if (!optOut.empty()) outFd = open(optOut.c_str(), O_CREAT | O_WRONLY | O_APPEND, 0644);
  if (tokR >= 0) { int fl = fcntl(tokR, F_GETFL); fcntl(tokR, F_SETFL, fl | O_NONBLOCK); }
  SMDiagnostic err; M = parseIRFile(in, err, LC); if (!M) { err.print("fxsym", errs()); return 2; }
  DL = &M->getDataLayout(); S.init(); setup();
  if (tokR >= 0) { int r = pipe(alivePipe); (void)r; }
  // global constructors, then the harness
  vector<std::pair<uint32_t, Function *>> ctors;
  if (auto *gc = M->getNamedGlobal("llvm.global_ctors")) if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer())) for (auto &op : ca->operands()) { auto *cs = cast<ConstantStruct>(op); if (auto *F = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) ctors.push_back({(uint32_t)cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), F}); }
  std::stable_sort(ctors.begin(), ctors.end(), [](auto &a, auto &b) { return a.first < b.first; });
  Function *H = M->getFunction(optEntry); if (!H || H->isDeclaration()) { fprintf(stderr, "no entry %s\n", optEntry.c_str()); return 2; }
  int savedTests = optTests; optTests = 0;
  for (auto &c : ctors) { pushCall(getC(c.second), {}, {}, -1); runState(); if (!cur->st.empty()) { fprintf(stderr, "constructor %s did not finish\n", c.second->getName().str().c_str()); emit("{\"t\":\"fatal\",\"msg\":\"constructor failed\"}"); summary(); return 2; } }
  optTests = savedTests; nPaths = 0; cur->steps = 0;
  if (!work.empty()) { fprintf(stderr, "forked in constructors\n"); return 2; }
  pushCall(getC(H), {}, {}, -1);
  work.push_back(cur);
  double lastMem = 0;
  while (!work.empty()) {
    if (now() - tStart > optMaxTime) { incomplete = true; incompleteWhy = "time limit"; break; }
    if (now() - lastMem > 1) { lastMem = now(); if (rssMB() > optMemMB) { incomplete = true; incompleteWhy = "memory limit"; break; } }
    splitWork();
    if (work.empty()) break;
    cur = work.back(); work.pop_back(); runState(); if (cur) delete cur; cur = nullptr;
  }
  summary();
  if (tokW >= 0) { char c = 't'; ssize_t r = write(tokW, &c, 1); (void)r; }
  if (isRoot && alivePipe[0] >= 0) { close(alivePipe[1]); char c; while (read(alivePipe[0], &c, 1) < 0 && errno == EINTR) {} while (waitpid(-1, nullptr, 0) > 0) {} }
  _exit(0);
}
