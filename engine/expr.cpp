#include "expr.hpp"
#include <cstdio>
#include <cfloat>
ExprPool P; Solver S; Stats stats;

static double asD(u128 v) { double d; uint64_t x = (uint64_t)v; memcpy(&d, &x, 8); return d; }
static float asF(u128 v) { float d; uint32_t x = (uint32_t)v; memcpy(&d, &x, 4); return d; }
static u128 frD(double d) { uint64_t x; memcpy(&x, &d, 8); return x; }
static u128 frF(float d) { uint32_t x; memcpy(&x, &d, 4); return x; }

bool foldBin(Op op, u128 a, u128 b, unsigned w, u128 &r) {
  u128 M = maskw(w);
  switch (op) {
    case OAdd: r = (a + b) & M; return true;
    case OSub: r = (a - b) & M; return true;
    case OMul: r = (a * b) & M; return true;
    case OUDiv: r = b ? a / b : M; return true;
    case OURem: r = b ? a % b : a; return true;
    case OSDiv: { i128 x = sxt(a, w), y = sxt(b, w); if (!y) r = x < 0 ? 1 : M; else if (y == -1) r = (0 - a) & M; else r = (u128)(x / y) & M; return true; }
    case OSRem: { i128 x = sxt(a, w), y = sxt(b, w); if (!y) r = a; else if (y == -1) r = 0; else r = (u128)(x % y) & M; return true; }
    case OAnd: r = a & b; return true;
    case OOr: r = a | b; return true;
    case OXor: r = a ^ b; return true;
    case OShl: r = b >= w ? 0 : (a << b) & M; return true;
    case OLShr: r = b >= w ? 0 : a >> b; return true;
    case OAShr: r = (u128)(sxt(a, w) >> (b >= w ? w - 1 : (unsigned)b)) & M; return true;
    case OEq: r = a == b; return true;
    case OUlt: r = a < b; return true;
    case OUle: r = a <= b; return true;
    case OSlt: r = sxt(a, w) < sxt(b, w); return true;
    case OSle: r = sxt(a, w) <= sxt(b, w); return true;
    default: return false;
  }
}
u128 foldF(Op op, unsigned w, unsigned aw, u128 a, u128 b) {
  auto val = [&](u128 v) -> double { return aw == 64 ? asD(v) : (double)asF(v); };
  switch (op) {
    case OFAdd: return w == 64 ? frD(asD(a) + asD(b)) : frF(asF(a) + asF(b));
    case OFSub: return w == 64 ? frD(asD(a) - asD(b)) : frF(asF(a) - asF(b));
    case OFMul: return w == 64 ? frD(asD(a) * asD(b)) : frF(asF(a) * asF(b));
    case OFDiv: return w == 64 ? frD(asD(a) / asD(b)) : frF(asF(a) / asF(b));
    case OFEq: return val(a) == val(b);
    case OFLt: return val(a) < val(b);
    case OFLe: return val(a) <= val(b);
    case OFIsNan: return std::isnan(val(a));
    case OFToS: { double d = val(a); if (std::isnan(d)) return (u128)1 << (w - 1);
      double lim = std::ldexp(1.0, w - 1); if (d >= lim || d < -lim) return (u128)1 << (w - 1); return (u128)(i128)d & maskw(w); }
    case OFToU: { double d = val(a); if (std::isnan(d) || d <= -1) return w == 64 ? (u128)1 << 63 : 0; double lim = std::ldexp(1.0, w); if (d >= lim) return maskw(w); return (u128)(uint64_t)d & maskw(w); }
    case OSToF: { i128 v = sxt(a, aw); return w == 64 ? frD((double)(int64_t)v) : frF((float)(int64_t)v); }
    case OUToF: { uint64_t v = (uint64_t)a; return w == 64 ? frD((double)v) : frF((float)v); }
    case OFToF: return w == 64 ? frD((double)asF(a)) : frF((float)asD(a));
    default: return 0;
  }
}

E *mkExtract(E *a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  if (isK(a)) return K(a->c >> lo, w);
  switch (a->op) {
    case OExtract: return mkExtract(a->k[0], a->p + lo, w);
    case OConcat: {
      E *h = a->k[0], *l = a->k[1];
      if (lo >= l->w) return mkExtract(h, lo - l->w, w);
      if (lo + w <= l->w) return mkExtract(l, lo, w);
      return mkConcat(mkExtract(h, 0, lo + w - l->w), mkExtract(l, lo, l->w - lo));
    }
    case OZExt: {
      E *x = a->k[0];
      if (lo >= x->w) return K(0, w);
      if (lo + w <= x->w) return mkExtract(x, lo, w);
      return mkZExt(mkExtract(x, lo, x->w - lo), w);
    }
    case OSExt: {
      E *x = a->k[0];
      if (lo + w <= x->w) return mkExtract(x, lo, w);
      if (lo == 0) return mkSExt(x, w);
      break;
    }
    case OIte: if ((isK(a->k[1]) || isK(a->k[2])) ) return mkIte(a->k[0], mkExtract(a->k[1], lo, w), mkExtract(a->k[2], lo, w)); break;
    case OAnd: case OOr: case OXor:
      if (isK(a->k[1]) || lo == 0) return mkBin(a->op, mkExtract(a->k[0], lo, w), mkExtract(a->k[1], lo, w)); break;
    case OAdd: case OSub: case OMul:
      if (lo == 0) return mkBin(a->op, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w)); break;
    default: break;
  }
  return P.mk(OExtract, w, a, nullptr, nullptr, 0, lo);
}
E *mkConcat(E *hi, E *lo) {
  unsigned w = hi->w + lo->w;
  if (isK(hi) && isK(lo)) return K((hi->c << lo->w) | lo->c, w);
  if (isK(hi, 0)) return mkZExt(lo, w);
  if (hi->op == OExtract && lo->op == OExtract && hi->k[0] == lo->k[0] && hi->p == lo->p + lo->w) return mkExtract(lo->k[0], lo->p, w);
  if (hi->op == OExtract && hi->k[0] == lo && hi->p == lo->w) return mkExtract(lo, 0, w); // cannot happen (w mismatch) but harmless
  if (lo->op == OConcat) {
    E *m = lo->k[0];
    if ((isK(hi) && isK(m)) || (hi->op == OExtract && m->op == OExtract && hi->k[0] == m->k[0] && hi->p == m->p + m->w)) return mkConcat(mkConcat(hi, m), lo->k[1]);
  }
  if (hi->op == OConcat) return mkConcat(hi->k[0], mkConcat(hi->k[1], lo));
  if (hi->op == OZExt) return mkZExt(mkConcat(hi->k[0], lo), w);
  if (hi->op == OIte && lo->op == OIte && hi->k[0] == lo->k[0] && isK(hi->k[1]) && isK(hi->k[2]) && isK(lo->k[1]) && isK(lo->k[2]))
    return mkIte(hi->k[0], mkConcat(hi->k[1], lo->k[1]), mkConcat(hi->k[2], lo->k[2]));
  return P.mk(OConcat, w, hi, lo);
}
E *mkZExt(E *a, unsigned w) {
  if (a->w == w) return a;
  if (isK(a)) return K(a->c, w);
  if (a->op == OZExt) return mkZExt(a->k[0], w);
  if (a->op == OIte && isK(a->k[1]) && isK(a->k[2])) return mkIte(a->k[0], K(a->k[1]->c, w), K(a->k[2]->c, w));
  return P.mk(OZExt, w, a);
}
E *mkSExt(E *a, unsigned w) {
  if (a->w == w) return a;
  if (isK(a)) return K((u128)sxt(a->c, a->w), w);
  if (a->op == OSExt) return mkSExt(a->k[0], w);
  if (a->op == OZExt) return mkZExt(a->k[0], w);
  if (a->w <= 64 && a->w > 1 && a->umax < (1ull << (a->w - 1))) return mkZExt(a, w);
  if (a->op == OIte && isK(a->k[1]) && isK(a->k[2])) return mkIte(a->k[0], mkSExt(a->k[1], w), mkSExt(a->k[2], w));
  return P.mk(OSExt, w, a);
}
E *mkNot(E *a) {
  if (isK(a)) return K(!a->c, 1);
  if (a->op == ONot) return a->k[0];
  if (a->op == OUlt) return mkBin(OUle, a->k[1], a->k[0]);
  if (a->op == OUle) return mkBin(OUlt, a->k[1], a->k[0]);
  if (a->op == OSlt) return mkBin(OSle, a->k[1], a->k[0]);
  if (a->op == OSle) return mkBin(OSlt, a->k[1], a->k[0]);
  return P.mk(ONot, 1, a);
}
E *mkIte(E *c, E *a, E *b) {
  if (isK(c)) return c->c ? a : b;
  if (a == b) return a;
  if (c->op == ONot) return mkIte(c->k[0], b, a);
  if (a->w == 1) {
    if (isK(a) && isK(b)) return a->c ? c : mkNot(c);
    if (isK(a)) return a->c ? mkBin(OOr, c, b) : mkBin(OAnd, mkNot(c), b);
    if (isK(b)) return b->c ? mkBin(OOr, mkNot(c), a) : mkBin(OAnd, c, a);
  }
  if (a->op == OIte && a->k[0] == c) a = a->k[1];
  if (b->op == OIte && b->k[0] == c) b = b->k[2];
  if (a == b) return a;
  // ite(c1, x, ite(c2, x, y)) -> ite(c1|c2, x, y)
  if (b->op == OIte && b->k[1] == a) return mkIte(mkBin(OOr, c, b->k[0]), a, b->k[2]);
  return P.mk(OIte, a->w, c, a, b);
}
E *mkEq(E *a, E *b) { return mkBin(OEq, a, b); }

E *mkBin(Op op, E *a, E *b) {
  unsigned w = a->w;
  u128 r;
  bool cmp = op >= OEq && op <= OSle;
  if (isK(a) && isK(b) && foldBin(op, a->c, b->c, w, r)) return K(r, cmp ? 1 : w);
  bool comm = op == OAdd || op == OMul || op == OAnd || op == OOr || op == OXor || op == OEq;
  if (comm && (isK(a) || (!isK(b) && a->id > b->id))) std::swap(a, b);  // constant to the right
  u128 M = maskw(w);
  // push into ite with constant arms when other operand is constant
  if (isK(b) && a->op == OIte && isK(a->k[1]) && isK(a->k[2]) && op != OEq)
    return mkIte(a->k[0], mkBin(op, a->k[1], b), mkBin(op, a->k[2], b));
  if (isK(a) && b->op == OIte && isK(b->k[1]) && isK(b->k[2]))
    return mkIte(b->k[0], mkBin(op, a, b->k[1]), mkBin(op, a, b->k[2]));
  switch (op) {
    case OAdd:
      if (isK(b, 0)) return a;
      if (isK(b)) {
        if (a->op == OAdd && isK(a->k[1])) return mkBin(OAdd, a->k[0], K(a->k[1]->c + b->c, w));
        if (a->op == OSub && isK(a->k[0])) return mkBin(OSub, K(a->k[0]->c + b->c, w), a->k[1]);
      } else {
        if (a->op == OAdd && isK(a->k[1])) return mkBin(OAdd, mkBin(OAdd, a->k[0], b), a->k[1]);
        if (b->op == OAdd && isK(b->k[1])) return mkBin(OAdd, mkBin(OAdd, a, b->k[0]), b->k[1]);
        if (a->op == OSub && a->k[1] == b) return a->k[0];
        if (b->op == OSub && b->k[1] == a) return b->k[0];
      }
      if (w == 1) return mkBin(OXor, a, b);
      break;
    case OSub:
      if (a == b) return K(0, w);
      if (isK(b)) return mkBin(OAdd, a, K(0 - b->c, w));
      if (a->op == OAdd && isK(a->k[1])) {
        if (b->op == OAdd && isK(b->k[1])) return mkBin(OAdd, mkBin(OSub, a->k[0], b->k[0]), K(a->k[1]->c - b->k[1]->c, w));
        return mkBin(OAdd, mkBin(OSub, a->k[0], b), a->k[1]);
      }
      if (b->op == OAdd && isK(b->k[1]) && !isK(a)) return mkBin(OAdd, mkBin(OSub, a, b->k[0]), K(0 - b->k[1]->c, w));
      if (a->op == OAdd) { if (a->k[0] == b) return a->k[1]; if (a->k[1] == b) return a->k[0]; }
      if (b->op == OAdd) { if (b->k[0] == a) return mkBin(OSub, K(0, w), b->k[1]); if (b->k[1] == a) return mkBin(OSub, K(0, w), b->k[0]); }
      if (w == 1) return mkBin(OXor, a, b);
      break;
    case OMul:
      if (isK(b, 0)) return b;
      if (isK(b, 1)) return a;
      if (isK(b) && !(b->c & (b->c - 1))) { unsigned s = 0; u128 t = b->c; while (t >>= 1) s++; return mkBin(OShl, a, K(s, w)); }
      if (isK(b) && a->op == OMul && isK(a->k[1])) return mkBin(OMul, a->k[0], K(a->k[1]->c * b->c, w));
      break;
    case OUDiv:
      if (isK(b, 1)) return a;
      if (isK(b) && b->c && !(b->c & (b->c - 1))) { unsigned s = 0; u128 t = b->c; while (t >>= 1) s++; return mkBin(OLShr, a, K(s, w)); }
      if (isK(b) && w <= 64 && a->umax < (uint64_t)b->c) return K(0, w);
      break;
    case OURem:
      if (isK(b, 1)) return K(0, w);
      if (isK(b) && b->c && !(b->c & (b->c - 1))) return mkBin(OAnd, a, K(b->c - 1, w));
      if (isK(b) && w <= 64 && a->umax < (uint64_t)b->c) return a;
      break;
    case OSDiv: if (isK(b, 1)) return a;
      if (w <= 64 && isK(b) && a->umax < (1ull << (w - 1)) && b->umax < (1ull << (w - 1))) return mkBin(OUDiv, a, b);
      break;
    case OSRem:
      if (w <= 64 && isK(b) && a->umax < (1ull << (w - 1)) && b->umax < (1ull << (w - 1))) return mkBin(OURem, a, b);
      break;
    case OAnd:
      if (a == b) return a;
      if (isK(b, 0)) return b;
      if (isK(b, M)) return a;
      if (w == 1 && (a->op == ONot ? a->k[0] == b : (b->op == ONot && b->k[0] == a))) return K(0, 1);
      if (isK(b)) {
        // contiguous low mask
        if (!(b->c & (b->c + 1))) { unsigned n = 0; u128 t = b->c; while (t) n++, t >>= 1; if (w <= 64 && a->umax <= (uint64_t)b->c) return a; return mkZExt(mkExtract(a, 0, n), w); }
        unsigned z = 0; while (!((b->c >> z) & 1)) z++;
        if (z) { // shifted mask: handle high part only
          return mkConcat(mkBin(OAnd, mkExtract(a, z, w - z), K(b->c >> z, w - z)), K(0, z));
        }
        if (a->op == OZExt) { unsigned n = a->k[0]->w; return mkZExt(mkBin(OAnd, a->k[0], K(b->c, n)), w); }
        if (a->op == OConcat) { E *h = a->k[0], *l = a->k[1]; return mkConcat(mkBin(OAnd, h, K(b->c >> l->w, h->w)), mkBin(OAnd, l, K(b->c, l->w))); }
        if (a->op == OAnd && isK(a->k[1])) return mkBin(OAnd, a->k[0], K(a->k[1]->c & b->c, w));
      }
      if (w == 1) {
        if (a->op == OAnd && (a->k[0] == b || a->k[1] == b)) return a;
        if (b->op == OAnd && (b->k[0] == a || b->k[1] == a)) return b;
      }
      break;
    case OOr:
      if (a == b) return a;
      if (isK(b, 0)) return a;
      if (isK(b, M)) return b;
      if (w == 1 && (a->op == ONot ? a->k[0] == b : (b->op == ONot && b->k[0] == a))) return K(1, 1);
      if (w > 1) {
        // disjoint merge: concat(x, 0_k) | y with y < 2^k
        for (int sw = 0; sw < 2; sw++) {
          E *x = sw ? b : a, *y = sw ? a : b;
          E *xi = x; unsigned zx = 0; if (x->op == OZExt) { xi = x->k[0]; zx = x->w - xi->w; }
          if (xi->op == OConcat) {
            // find trailing zero constant
            E *t = xi; unsigned k = 0; while (t->op == OConcat) t = t->k[1]; if (isK(t, 0)) k = t->w;
            if (k && y->op == OZExt && y->k[0]->w <= k) { E *hi = mkExtract(xi, k, xi->w - k); return mkZExt(mkConcat(hi, mkZExt(y->k[0], k)), xi->w + zx); }
          }
          (void)zx;
        }
      }
      break;
    case OXor:
      if (a == b) return K(0, w);
      if (isK(b, 0)) return a;
      if (w == 1 && isK(b)) return mkNot(a);
      if (isK(b) && a->op == OXor && isK(a->k[1])) return mkBin(OXor, a->k[0], K(a->k[1]->c ^ b->c, w));
      break;
    case OShl:
      if (isK(b, 0)) return a;
      if (isK(b)) { if (b->c >= w) return K(0, w); unsigned s = (unsigned)b->c; return mkConcat(mkExtract(a, 0, w - s), K(0, s)); }
      if (isK(a, 0)) return a;
      break;
    case OLShr:
      if (isK(b, 0)) return a;
      if (isK(b)) { if (b->c >= w) return K(0, w); unsigned s = (unsigned)b->c; return mkZExt(mkExtract(a, s, w - s), w); }
      if (isK(a, 0)) return a;
      break;
    case OAShr:
      if (isK(b, 0)) return a;
      if (isK(b)) { unsigned s = b->c >= w ? w - 1 : (unsigned)b->c; return mkSExt(mkExtract(a, s, w - s), w); }
      break;
    case OEq: {
      if (a == b) return K(1, 1);
      if (w == 1) { if (isK(b)) return b->c ? a : mkNot(a); }
      if (isK(b)) {
        if (w <= 64 && (uint64_t)b->c > a->umax) return K(0, 1);
        switch (a->op) {
          case OZExt: { E *x = a->k[0]; if (b->c >> x->w) return K(0, 1); return mkEq(x, K(b->c, x->w)); }
          case OSExt: { E *x = a->k[0]; u128 t = (u128)sxt(b->c & maskw(x->w), x->w) & M; if (t != b->c) return K(0, 1); return mkEq(x, K(b->c, x->w)); }
          case OConcat: { E *h = a->k[0], *l = a->k[1]; return mkBin(OAnd, mkEq(h, K(b->c >> l->w, h->w)), mkEq(l, K(b->c, l->w))); }
          case OAdd: if (isK(a->k[1])) return mkEq(a->k[0], K(b->c - a->k[1]->c, w)); break;
          case OSub: if (isK(a->k[0])) return mkEq(a->k[1], K(a->k[0]->c - b->c, w)); break;
          case OXor: if (isK(a->k[1])) return mkEq(a->k[0], K(b->c ^ a->k[1]->c, w)); break;
          case OIte: {
            E *x = a->k[1], *y = a->k[2];
            if (isK(x) || isK(y)) return mkIte(a->k[0], mkEq(x, b), mkEq(y, b));
            break;
          }
          default: break;
        }
      } else {
        if (a->op == OZExt && b->op == OZExt) {
          unsigned n = std::max(a->k[0]->w, b->k[0]->w); return mkEq(mkZExt(a->k[0], n), mkZExt(b->k[0], n)); }
        if (a->op == OConcat && b->op == OConcat && a->k[0]->w == b->k[0]->w) return mkBin(OAnd, mkEq(a->k[0], b->k[0]), mkEq(a->k[1], b->k[1]));
        if (a->op == OAdd && isK(a->k[1]) && b->op == OAdd && isK(b->k[1])) return mkEq(a->k[0], mkBin(OAdd, b->k[0], K(b->k[1]->c - a->k[1]->c, w)));
        if (a->op == OAdd && a->k[0] == b) return mkEq(a->k[1], K(0, w));
        if (b->op == OAdd && b->k[0] == a) return mkEq(b->k[1], K(0, w));
      }
      break;
    }
    case OUlt:
      if (a == b) return K(0, 1);
      if (isK(b, 0)) return K(0, 1);
      if (isK(b, 1)) return mkEq(a, K(0, w));
      if (isK(a, M)) return K(0, 1);
      if (isK(a, 0)) return mkNot(mkEq(b, K(0, w)));
      if (w <= 64 && isK(b) && a->umax < (uint64_t)b->c) return K(1, 1);
      if (w <= 64 && isK(a) && b->umax <= (uint64_t)a->c) return K(0, 1);
      if (w <= 64 && a->op == OZExt && isK(b)) { E *x = a->k[0]; return mkBin(OUlt, x, K(b->c, x->w)); }  // b<=umax here
      if (w <= 64 && b->op == OZExt && isK(a)) { E *x = b->k[0]; return mkBin(OUlt, K(a->c, x->w), x); }
      if (a->op == OZExt && b->op == OZExt) { unsigned n = std::max(a->k[0]->w, b->k[0]->w); return mkBin(OUlt, mkZExt(a->k[0], n), mkZExt(b->k[0], n)); }
      if (w == 1) return mkBin(OAnd, mkNot(a), b);
      break;
    case OUle:
      if (a == b) return K(1, 1);
      if (isK(a, 0) || isK(b, M)) return K(1, 1);
      if (isK(b)) return mkBin(OUlt, a, K(b->c + 1, w));
      if (isK(a)) return mkBin(OUlt, K(a->c - 1, w), b);
      if (a->op == OZExt && b->op == OZExt) { unsigned n = std::max(a->k[0]->w, b->k[0]->w); return mkBin(OUle, mkZExt(a->k[0], n), mkZExt(b->k[0], n)); }
      if (w == 1) return mkBin(OOr, mkNot(a), b);
      break;
    case OSlt: case OSle:
      if (a == b) return K(op == OSle, 1);
      if (w > 1 && w <= 64 && a->umax < (1ull << (w - 1)) && b->umax < (1ull << (w - 1))) return mkBin(op == OSlt ? OUlt : OUle, a, b);
      if (w > 1 && w <= 64 && a->umax < (1ull << (w - 1)) && isK(b) && (b->c >> (w - 1))) return K(0, 1);
      if (w > 1 && w <= 64 && b->umax < (1ull << (w - 1)) && isK(a) && (a->c >> (w - 1))) return K(1, 1);
      if (a->op == OSExt && b->op == OSExt) { unsigned n = std::max(a->k[0]->w, b->k[0]->w); return mkBin(op, mkSExt(a->k[0], n), mkSExt(b->k[0], n)); }
      if (a->op == OSExt && isK(b)) { E *x = a->k[0]; u128 t = (u128)sxt(b->c & maskw(x->w), x->w) & M; if (t == b->c) return mkBin(op, x, K(b->c, x->w)); return K(!(b->c >> (w - 1)), 1); }
      if (b->op == OSExt && isK(a)) { E *x = b->k[0]; u128 t = (u128)sxt(a->c & maskw(x->w), x->w) & M; if (t == a->c) return mkBin(op, K(a->c, x->w), x); return K((uint64_t)(a->c >> (w - 1)) & 1, 1); }
      break;
    default: break;
  }
  return P.mk(op, cmp ? 1 : w, a, b);
}
E *mkF(Op op, unsigned w, E *a, E *b) {
  if (isK(a) && (!b || isK(b))) return K(foldF(op, w, a->w, a->c, b ? b->c : 0), w);
  return P.mk(op, w, a, b);
}

// ---------------------------------------------------------------- evaluator
static uint64_t g_epoch = 1;
void Evaluator::bind(const ModelP &mp) {
  if (mp == cur) return;
  cur = mp; ep = ++g_epoch;
  dense.assign(P.vars.size(), 0);
  if (mp) for (auto &p : mp->kv) if (p.first < dense.size()) dense[p.first] = p.second;
}
u128 Evaluator::ev(E *e) {
  if (e->op == OConst) return e->c;
  if (e->op == OVar) return e->p < dense.size() ? dense[e->p] : 0;
  if (e->stamp == ep) return e->ev;
  u128 r = 0;
  switch (e->op) {
    case OIte: r = ev(e->k[0]) ? ev(e->k[1]) : ev(e->k[2]); break;
    case OConcat: r = (ev(e->k[0]) << e->k[1]->w) | ev(e->k[1]); break;
    case OExtract: r = (ev(e->k[0]) >> e->p) & maskw(e->w); break;
    case OZExt: r = ev(e->k[0]); break;
    case OSExt: r = (u128)sxt(ev(e->k[0]), e->k[0]->w) & maskw(e->w); break;
    case ONot: r = !ev(e->k[0]); break;
    default:
      if (e->op >= OFAdd) r = foldF(e->op, e->w, e->k[0]->w, ev(e->k[0]), e->k[1] ? ev(e->k[1]) : 0);
      else if (e->w == 1 && e->op == OAnd) r = ev(e->k[0]) ? ev(e->k[1]) : 0;
      else if (e->w == 1 && e->op == OOr) r = ev(e->k[0]) ? 1 : ev(e->k[1]);
      else foldBin(e->op, ev(e->k[0]), ev(e->k[1]), e->k[0]->w, r);
  }
  e->stamp = ep; e->ev = r;
  return r;
}

// ---------------------------------------------------------------- z3
static void z3err(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); }
void Solver::init() {
  Z3_config cfg = Z3_mk_config();
  ctx = Z3_mk_context(cfg); Z3_del_config(cfg);
  Z3_set_error_handler(ctx, z3err);
  fast = Z3_mk_simple_solver(ctx); Z3_solver_inc_ref(ctx, fast);
  Z3_symbol l = Z3_mk_string_symbol(ctx, "QF_BV");
  (void)l;
}
static Z3_ast keep(Z3_context c, Z3_ast a) { return a; }
static Z3_ast bvnum(Z3_context ctx, u128 v, unsigned w) {
  if (w <= 64) return Z3_mk_unsigned_int64(ctx, (uint64_t)v, Z3_mk_bv_sort(ctx, w));
  Z3_ast h = Z3_mk_unsigned_int64(ctx, (uint64_t)(v >> 64), Z3_mk_bv_sort(ctx, w - 64));
  Z3_ast lo = Z3_mk_unsigned_int64(ctx, (uint64_t)v, Z3_mk_bv_sort(ctx, 64));
  return Z3_mk_concat(ctx, h, lo);
}
static Z3_sort fps(Z3_context c, unsigned w) { return w == 64 ? Z3_mk_fpa_sort_double(c) : Z3_mk_fpa_sort_single(c); }
Z3_ast Solver::bl(E *e) {
  if (e->bl) return e->bl;
  Z3_ast r; auto *a = e->k[0], *b = e->k[1];
  auto fp = [&](E *x) { return Z3_mk_fpa_to_fp_bv(ctx, bv(x), fps(ctx, x->w)); };
  switch (e->op) {
    case OConst: r = e->c ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
    case ONot: r = Z3_mk_not(ctx, bl(a)); break;
    case OAnd: { Z3_ast x[2] = {bl(a), bl(b)}; r = Z3_mk_and(ctx, 2, x); break; }
    case OOr: { Z3_ast x[2] = {bl(a), bl(b)}; r = Z3_mk_or(ctx, 2, x); break; }
    case OXor: r = Z3_mk_xor(ctx, bl(a), bl(b)); break;
    case OEq: r = a->w == 1 ? Z3_mk_iff(ctx, bl(a), bl(b)) : Z3_mk_eq(ctx, bv(a), bv(b)); break;
    case OUlt: r = Z3_mk_bvult(ctx, bv(a), bv(b)); break;
    case OUle: r = Z3_mk_bvule(ctx, bv(a), bv(b)); break;
    case OSlt: r = Z3_mk_bvslt(ctx, bv(a), bv(b)); break;
    case OSle: r = Z3_mk_bvsle(ctx, bv(a), bv(b)); break;
    case OIte: r = Z3_mk_ite(ctx, bl(a), bl(b), bl(e->k[2])); break;
    case OFEq: r = Z3_mk_fpa_eq(ctx, fp(a), fp(b)); break;
    case OFLt: r = Z3_mk_fpa_lt(ctx, fp(a), fp(b)); break;
    case OFLe: r = Z3_mk_fpa_leq(ctx, fp(a), fp(b)); break;
    case OFIsNan: r = Z3_mk_fpa_is_nan(ctx, fp(a)); break;
    default: r = Z3_mk_eq(ctx, bv(e), bvnum(ctx, 1, 1)); break;
  }
  return e->bl = keep(ctx, r);
}
Z3_ast Solver::bv(E *e) {
  if (e->bv) return e->bv;
  Z3_ast r; auto *a = e->k[0], *b = e->k[1];
  auto fp = [&](E *x) { return Z3_mk_fpa_to_fp_bv(ctx, bv(x), fps(ctx, x->w)); };
  auto rne = [&]() { return Z3_mk_fpa_rne(ctx); };
  auto rtz = [&]() { return Z3_mk_fpa_rtz(ctx); };
  auto ieee = [&](Z3_ast x) { return Z3_mk_fpa_to_ieee_bv(ctx, x); };
  if (e->w == 1 && e->op != OVar && e->op != OExtract && !(e->op >= OAdd && e->op <= OSRem) && !(e->op >= OShl && e->op <= OAShr)) {
    r = Z3_mk_ite(ctx, bl(e), bvnum(ctx, 1, 1), bvnum(ctx, 0, 1));
    return e->bv = keep(ctx, r);
  }
  switch (e->op) {
    case OConst: r = bvnum(ctx, e->c, e->w); break;
    case OVar: { Z3_symbol s = Z3_mk_int_symbol(ctx, e->p); r = Z3_mk_const(ctx, s, Z3_mk_bv_sort(ctx, e->w)); break; }
    case OAdd: r = Z3_mk_bvadd(ctx, bv(a), bv(b)); break;
    case OSub: r = Z3_mk_bvsub(ctx, bv(a), bv(b)); break;
    case OMul: r = Z3_mk_bvmul(ctx, bv(a), bv(b)); break;
    case OUDiv: r = Z3_mk_bvudiv(ctx, bv(a), bv(b)); break;
    case OSDiv: r = Z3_mk_bvsdiv(ctx, bv(a), bv(b)); break;
    case OURem: r = Z3_mk_bvurem(ctx, bv(a), bv(b)); break;
    case OSRem: r = Z3_mk_bvsrem(ctx, bv(a), bv(b)); break;
    case OAnd: r = Z3_mk_bvand(ctx, bv(a), bv(b)); break;
    case OOr: r = Z3_mk_bvor(ctx, bv(a), bv(b)); break;
    case OXor: r = Z3_mk_bvxor(ctx, bv(a), bv(b)); break;
    case OShl: r = Z3_mk_bvshl(ctx, bv(a), bv(b)); break;
    case OLShr: r = Z3_mk_bvlshr(ctx, bv(a), bv(b)); break;
    case OAShr: r = Z3_mk_bvashr(ctx, bv(a), bv(b)); break;
    case OIte: r = Z3_mk_ite(ctx, bl(a), bv(b), bv(e->k[2])); break;
    case OConcat: r = Z3_mk_concat(ctx, bv(a), bv(b)); break;
    case OExtract: r = Z3_mk_extract(ctx, e->p + e->w - 1, e->p, bv(a)); break;
    case OZExt: r = Z3_mk_zero_ext(ctx, e->w - a->w, bv(a)); break;
    case OSExt: r = Z3_mk_sign_ext(ctx, e->w - a->w, bv(a)); break;
    case OFAdd: r = ieee(Z3_mk_fpa_add(ctx, rne(), fp(a), fp(b))); break;
    case OFSub: r = ieee(Z3_mk_fpa_sub(ctx, rne(), fp(a), fp(b))); break;
    case OFMul: r = ieee(Z3_mk_fpa_mul(ctx, rne(), fp(a), fp(b))); break;
    case OFDiv: r = ieee(Z3_mk_fpa_div(ctx, rne(), fp(a), fp(b))); break;
    case OFToS: r = Z3_mk_fpa_to_sbv(ctx, rtz(), fp(a), e->w); break;
    case OFToU: r = Z3_mk_fpa_to_ubv(ctx, rtz(), fp(a), e->w); break;
    case OSToF: r = ieee(Z3_mk_fpa_to_fp_signed(ctx, rne(), bv(a), fps(ctx, e->w))); break;
    case OUToF: r = ieee(Z3_mk_fpa_to_fp_unsigned(ctx, rne(), bv(a), fps(ctx, e->w))); break;
    case OFToF: r = ieee(Z3_mk_fpa_to_fp_float(ctx, rne(), fp(a), fps(ctx, e->w))); break;
    default: fprintf(stderr, "bv: op %d\n", e->op); abort();
  }
  return e->bv = keep(ctx, r);
}

void Solver::slice(const std::vector<E *> &cs, E *extra, std::vector<E *> &out) {
  static std::vector<uint32_t> mark; static uint32_t ep = 0;
  mark.resize(P.vars.size() + 1, 0); ep++;
  for (auto v : extra->vars->v) mark[v] = ep;
  static std::vector<char> in; in.assign(cs.size(), 0);
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < cs.size(); i++) if (!in[i]) {
      bool hit = false; for (auto v : cs[i]->vars->v) if (mark[v] == ep) { hit = true; break; }
      if (hit) { in[i] = 1; ch = true; for (auto v : cs[i]->vars->v) mark[v] = ep; }
    }
  }
  for (size_t i = 0; i < cs.size(); i++) if (in[i]) out.push_back(cs[i]);
}

SatRes Solver::check(const std::vector<E *> &cs, E *extra, const ModelP &base, ModelP &out) {
  stats.queries++;
  if (isK(extra)) { if (!extra->c) return UNSAT; out = base; return SAT; }
  std::vector<E *> q; slice(cs, extra, q);
  q.push_back(extra);
  std::sort(q.begin(), q.end(), [](E *a, E *b) { return a->id < b->id; });
  q.erase(std::unique(q.begin(), q.end()), q.end());
  std::string key; key.reserve(q.size() * 4);
  for (E *e : q) key.append((char *)&e->id, 4);
  const VarSet *vs = &P.empty; for (E *e : q) vs = P.uni(vs, e->vars);
  auto merge = [&](const ModelP &m) {
    // variables of the slice come from m, others from base
    auto r = std::make_shared<Model>();
    std::vector<std::pair<uint32_t, uint64_t>> loc;
    for (auto v : vs->v) loc.push_back({v, m->get(v)});
    if (base) {
      size_t i = 0, j = 0; auto &b = base->kv;
      while (i < b.size() || j < loc.size()) {
        if (j == loc.size() || (i < b.size() && b[i].first < loc[j].first)) r->kv.push_back(b[i++]);
        else { if (i < b.size() && b[i].first == loc[j].first) i++; r->kv.push_back(loc[j++]); }
      }
    } else r->kv = loc;
    return ModelP(r);
  };
  auto it = cache.find(key);
  if (it != cache.end()) { stats.qcache++; if (it->second.r == SAT) out = merge(it->second.m); return it->second.r; }
  // a model found earlier for the same variables, or (one byte) any of its values, may already satisfy the query
  static std::unordered_map<const VarSet *, std::vector<ModelP>> pool; static Evaluator pev;
  auto &pl = pool[vs];
  auto sat = [&](const ModelP &pm) { pev.bind(pm); if (!pev(extra)) return false; for (E *e : q) if (!pev(e)) return false; return true; };
  for (size_t i = pl.size(); i-- > 0;) if (sat(pl[i])) { stats.qmodel++; cache[key] = {SAT, pl[i]}; out = merge(pl[i]); return SAT; }
  auto keep = [&](const ModelP &pm) { if (pl.size() >= 24) pl.erase(pl.begin()); pl.push_back(pm); };
  if (vs->v.size() == 1 && P.vars[vs->v[0]].w == 8)
    for (int x = 0; x < 256; x++) { auto md = std::make_shared<Model>(); md->kv.push_back({vs->v[0], (uint64_t)x}); ModelP pm = md; if (sat(pm)) { stats.qmodel++; keep(pm); cache[key] = {SAT, pm}; out = merge(pm); return SAT; } }
  stats.z3calls++;
  auto t0 = std::chrono::steady_clock::now();
  auto attempt = [&](Z3_solver s, unsigned ms, ModelP &m) -> SatRes {
    Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "rlimit"), ms);  // not "timeout": its helper threads do not survive fork()
    Z3_solver_set_params(ctx, s, p); Z3_params_dec_ref(ctx, p);
    Z3_solver_push(ctx, s);
    for (E *e : q) Z3_solver_assert(ctx, s, bl(e));
    Z3_lbool r = Z3_solver_check(ctx, s);
    SatRes res = r == Z3_L_TRUE ? SAT : r == Z3_L_FALSE ? UNSAT : UNKNOWN;
    if (res == SAT) {
      Z3_model zm = Z3_solver_get_model(ctx, s); Z3_model_inc_ref(ctx, zm);
      auto md = std::make_shared<Model>();
      for (auto v : vs->v) {
        E *ve = P.mk(OVar, P.vars[v].w, nullptr, nullptr, nullptr, 0, v);
        Z3_ast o; uint64_t val = 0;
        if (Z3_model_eval(ctx, zm, bv(ve), true, &o)) { Z3_get_numeral_uint64(ctx, o, &val); }
        md->kv.push_back({v, val});
      }
      Z3_model_dec_ref(ctx, zm); m = md;
    }
    Z3_solver_pop(ctx, s, 1);
    return res;
  };
  ModelP m; SatRes r = attempt(fast, 4000000, m);
  if (r == UNKNOWN) {
    bool isfp = false;
    { std::vector<E *> st(q.begin(), q.end()); std::unordered_map<E *, bool> seen; while (!st.empty()) { E *e = st.back(); st.pop_back(); if (seen[e]) continue; seen[e] = true; if (e->op >= OFAdd) { isfp = true; break; } for (int i = 0; i < 3; i++) if (e->k[i]) st.push_back(e->k[i]); } }
    Z3_tactic t = Z3_mk_tactic(ctx, isfp ? "qffp" : "qfbv"); Z3_tactic_inc_ref(ctx, t);
    Z3_solver s2 = Z3_mk_solver_from_tactic(ctx, t); Z3_solver_inc_ref(ctx, s2);
    r = attempt(s2, (unsigned)(slowLimit * 2000000), m);
    Z3_solver_dec_ref(ctx, s2); Z3_tactic_dec_ref(ctx, t);
  }
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  if (getenv("FXSYM_SLOW") && dt > (getenv("FXSYM_SLOWS") ? atof(getenv("FXSYM_SLOWS")) : 3)) { FILE *f = fopen(getenv("FXSYM_SLOW"), "a"); fprintf(f, ";;; %.1fs result %d\n", dt, (int)r); Z3_solver_push(ctx, fast); for (E *e : q) Z3_solver_assert(ctx, fast, bl(e)); fprintf(f, "%s\n", Z3_solver_to_string(ctx, fast)); Z3_solver_pop(ctx, fast, 1); fclose(f); }
  stats.z3time += dt; stats.z3max = std::max(stats.z3max, dt);
  if (r == UNKNOWN) { stats.z3unknown++; return r; }
  if (r == SAT) { // validate the model against our own semantics
    Evaluator ev; ev.bind(m); for (E *e : q) if (!ev(e)) { static int n = 0; if (n++ < 5) fprintf(stderr, "ENGINE: model does not satisfy query (semantics mismatch)\n"); stats.z3unknown++; return UNKNOWN; }
  }
  cache[key] = {r, m};
  if (r == SAT) { keep(m); out = merge(m); }
  return r;
}
