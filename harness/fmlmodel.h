// Reference model of a fielded buffer: per field a list of occurrences; comparison through the public reads.
#pragma once
#include "sym.h"
#include <fml32.h>
#include <stdlib.h>
#include <stdio.h>
#ifndef MAXF
#define MAXF 4
#endif
#ifndef MAXOC
#define MAXOC 8
#endif
#ifndef MAXV
#define MAXV 24
#endif
struct mval { int len; uint8_t b[MAXV]; };
struct mfield { FLDID32 id; int type, n; mval v[MAXOC]; };
struct model { int nf; mfield f[MAXF]; };
static inline FLDID32 fid(int type, int num) { return (type << 24) | num; }
static int fixedlen(int type) { switch (type) { case FLD_SHORT: return 2; case FLD_CHAR: return 1; case FLD_FLOAT: return 4; case FLD_LONG: case FLD_DOUBLE: return 8; } return -1; }
static void m_field(model &m, int type, int num) { m.f[m.nf].id = fid(type, num); m.f[m.nf].type = type; m.f[m.nf].n = 0; m.nf++; }
// an empty nested buffer as stored: size = len = 0 and the rest
static void m_empty(mfield &f, mval &v) { v.len = f.type == FLD_STRING ? 1 : f.type == FLD_CARRAY ? 0 : f.type == FLD_FML32 ? -1 : fixedlen(f.type); memset(v.b, 0, sizeof v.b); }
static void m_chg(mfield &f, int oc, const mval &v) { if (oc < 0) oc = f.n; while (f.n <= oc) { m_empty(f, f.v[f.n]); f.n++; } f.v[oc] = v; }
static void m_del(mfield &f, int oc) { for (int i = oc; i + 1 < f.n; i++) f.v[i] = f.v[i + 1]; f.n--; }
// bytes a value needs in the buffer, by the documented layout-independent rule: none is assumed here
static mval m_value(mfield &f, const char *name, int maxlen) {
  mval v; memset(&v, 0, sizeof v);
  if (f.type == FLD_STRING) {
    int n = maxlen; v.len = n + 1; if (n) sym_bytes(v.b, n, name); for (int i = 0; i < n; i++) sym_assume(v.b[i] != 0);
  } else if (f.type == FLD_CARRAY) { v.len = maxlen; if (maxlen) sym_bytes(v.b, maxlen, name); }
  else if (f.type == FLD_FML32) { v.len = maxlen ? -2 : -1; if (maxlen) sym_bytes(v.b, 2, name); }
  else { v.len = fixedlen(f.type); sym_bytes(v.b, v.len, name); }
  return v;
}
// the value as handed to the library; nested buffers are built with room to spare
#define NESTED_ID fid(FLD_SHORT, 9)
static char *m_ptr(mval &v) {
  if (v.len >= 0) return (char *)v.b;
  static char nb[4][160] __attribute__((aligned(8))); static int k; FBFR32 *n = (FBFR32 *)nb[k++ & 3];
  Finit32(n, 160); if (v.len == -2) sym_check(Fadd32(n, NESTED_ID, (char *)v.b, 0) == 0, "nested buffer filled");
  return (char *)n;
}
static FLDLEN32 m_len(const mval &v) { return v.len < 0 ? 0 : v.len; }
static int same(const uint8_t *a, const void *b, int n) { return memcmp(a, b, n) == 0; }
// is a stored occurrence what the model says
static void m_checkval(mfield &f, int oc, const char *p, FLDLEN32 len) {
  mval &v = f.v[oc];
  if (v.len == -2) { FLDLEN32 l = 0; char *q = Ffind32((FBFR32 *)p, NESTED_ID, 0, &l); sym_check(q && l == 2 && same(v.b, q, 2) && Foccur32((FBFR32 *)p, NESTED_ID) == 1, "nested buffer is the one stored"); sym_check(Fused32((FBFR32 *)p) == len, "length of a nested buffer"); return; }
  if (v.len < 0) { sym_check(Fused32((FBFR32 *)p) == Fneeded32(0, 0) && len == Fneeded32(0, 0), "gap filled with an empty nested buffer"); return; }
  sym_check((int)len == v.len, "length of an occurrence is the one stored");
  sym_check(same(v.b, p, v.len), "value of an occurrence is the one stored");
}
static void m_verify(FBFR32 *b, model &m) {
  int total = 0;
  sym_check(Fused32(b) + Funused32(b) == Fsizeof32(b), "used + unused = size");
  for (int i = 0; i < m.nf; i++) {
    mfield &f = m.f[i]; total += f.n;
    sym_check(Foccur32(b, f.id) == f.n, "number of occurrences");
    for (int o = 0; o < f.n; o++) {
      sym_check(Fpres32(b, f.id, o) == 1, "an occurrence is present");
      FLDLEN32 len = -1; char *p = Ffind32(b, f.id, o, &len);
      sym_check(p != nullptr, "an occurrence is found"); m_checkval(f, o, p, len);
      sym_check(Flen32(b, f.id, o) == len, "Flen32 agrees");
    }
    sym_check(Fpres32(b, f.id, f.n) == 0, "an occurrence past the end is absent");
    sym_check(Ffind32(b, f.id, f.n, nullptr) == nullptr && Ferror32 == FNOTPRES, "finding past the end reports FNOTPRES");
    FLDOCC32 lo = -7; FLDLEN32 ll = -7; char *lp = Ffindlast32(b, f.id, &lo, &ll);
    if (f.n == 0) sym_check(lp == nullptr && Ferror32 == FNOTPRES, "no last occurrence of an absent field");
    else { sym_check(lp != nullptr && lo == f.n - 1, "last occurrence"); m_checkval(f, f.n - 1, lp, ll); }
  }
  // iteration: ascending field ids, every occurrence once
  FLDID32 id = BADFLDID; int64_t prev = -1; FLDOCC32 oc = 0; int seen = 0; 
  while (seen <= total) {
    FLDLEN32 len = 256; char v[256] __attribute__((aligned(8)));
    int r = Fnext32(b, &id, &oc, v, &len);
    sym_check(r == 0 || r == 1, "iteration does not fail");
    if (r != 1) break;
    int k = -1; for (int i = 0; i < m.nf; i++) if (m.f[i].id == id) k = i;
    sym_check(k >= 0, "iteration gives only fields that are present");
    sym_check((int64_t)id >= prev, "iteration is in ascending field order");
    sym_check(oc >= 0 && oc < m.f[k].n, "iteration gives only occurrences that are present");
    if ((int64_t)id == prev) sym_check(oc > 0, "iteration numbers occurrences in order"); else sym_check(oc == 0, "iteration starts each field at occurrence 0");
    m_checkval(m.f[k], oc, v, len);
    prev = id; seen++;
  }
  sym_check(seen == total, "iteration gives every occurrence exactly once");
}
