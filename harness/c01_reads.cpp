// C01: value search, get with a length limit, allocation of a copy, iteration with a length limit
#define MAXF 3
#include "fmlmodel.h"
static model m;
static int eqv(int type, const mval &a, const mval &b) {   // equality of values as the type defines it
  if (type == FLD_FLOAT) { float x, y; memcpy(&x, a.b, 4); memcpy(&y, b.b, 4); return x == y; }
  if (type == FLD_DOUBLE) { double x, y; memcpy(&x, a.b, 8); memcpy(&y, b.b, 8); return x == y; }
  if (type == FLD_STRING || type == FLD_CARRAY) { int n = a.len < b.len ? a.len : b.len; return (a.len == b.len) & (memcmp(a.b, b.b, n) == 0); }
  return memcmp(a.b, b.b, a.len) == 0;
}
extern "C" void harness_main() {
  static const int ty[] = {FLD_SHORT, FLD_LONG, FLD_CHAR, FLD_FLOAT, FLD_DOUBLE, FLD_STRING, FLD_CARRAY};
  int t = ty[sym_case()];
  m_field(m, t == FLD_STRING ? FLD_CARRAY : FLD_STRING, 1); m_field(m, t, 2); m_field(m, t, 3);
  FBFR32 *b = (FBFR32 *)malloc(500); sym_check(Finit32(b, 500) == 0, "Finit32");
  for (int i = 0; i < m.nf; i++) { int n = sym_pick("n", 0, i == 1 ? 3 : 1); for (int o = 0; o < n; o++) { mval w = m_value(m.f[i], "v", t == FLD_STRING || t == FLD_CARRAY ? 1 + (o == 1) : 2); m_chg(m.f[i], -1, w); sym_check(Fadd32(b, m.f[i].id, m_ptr(w), m_len(w)) == 0, "a field that fits is added"); } }
  mfield &f = m.f[1]; long used = Fused32(b);
  int what = sym_pick("what", 0, 3);
  if (what == 0) {
    mval w = m_value(f, "w", t == FLD_STRING || t == FLD_CARRAY ? 1 + sym_pick("wl", 0, 1) : 2);
    FLDOCC32 got = Ffindocc32(b, f.id, m_ptr(w), t == FLD_STRING ? 0 : w.len), e = Ferror32;
    int want = -1; for (int o = f.n - 1; o >= 0; o--) want = (int)sym_ite(eqv(t, f.v[o], w), o, want);
    sym_check(got == want, "search gives the first occurrence with that value");
    if (got < 0) { sym_check(e == FNOTPRES, "an absent value reports FNOTPRES"); sym_reach("value absent"); } else sym_reach("value found");
    sym_observe("occ", &got, 4);
  } else if (what == 1) {
    int oc = sym_pick("oc", 0, f.n); FLDLEN32 cap = sym_pick("cap", 0, 9), len = cap; char *out = (char *)malloc(cap ? cap : 1);
    int r = Fget32(b, f.id, oc, out, &len), e = Ferror32;
    if (oc >= f.n) sym_check(r == -1 && e == FNOTPRES, "getting an absent occurrence reports FNOTPRES");
    else if ((int)cap < f.v[oc].len) { sym_check(r == -1 && e == FNOSPACE && (int)len == f.v[oc].len, "a too small area is reported with the length needed"); sym_reach("get: no space"); }
    else { sym_check(r == 0 && (int)len == f.v[oc].len && same(f.v[oc].b, out, f.v[oc].len), "the value is returned with its length"); sym_reach("get"); }
  } else if (what == 2) {
    int oc = sym_pick("oc", 0, f.n); FLDLEN32 extra = sym_pick("extra", 0, 3), x = extra; char *p = Fgetalloc32(b, f.id, oc, &x);
    if (oc >= f.n) sym_check(!p && Ferror32 == FNOTPRES, "copying an absent occurrence reports FNOTPRES");
    else { sym_check(p && (int)x == f.v[oc].len && same(f.v[oc].b, p, f.v[oc].len), "the copy is the value"); memset(p + f.v[oc].len, 1, extra); free(p); sym_reach("getalloc"); }
  } else {
    FLDID32 id = BADFLDID; FLDOCC32 oc = 0; FLDLEN32 cap = sym_pick("cap", 0, 9), len = cap; char *out = (char *)malloc(cap ? cap : 1);
    int r = Fnext32(b, &id, &oc, out, &len), e = Ferror32; int k = -1; for (int i = 0; i < 3; i++) if (m.f[i].n && (k < 0 || m.f[i].id < m.f[k].id)) k = i;
    if (k < 0) sym_check(r == 0, "iteration of an empty buffer ends");
    else if ((int)cap < m.f[k].v[0].len) sym_check(r == -1 && e == FNOSPACE && (int)len == m.f[k].v[0].len, "a too small area is reported with the length needed");
    else sym_check(r == 1 && id == m.f[k].id && oc == 0 && (int)len == m.f[k].v[0].len && same(m.f[k].v[0].b, out, len), "iteration gives the first field");
  }
  sym_check(Fused32(b) == used, "reading changes nothing"); m_verify(b, m);
}
