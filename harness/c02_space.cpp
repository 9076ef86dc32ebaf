// C02: one operation on a buffer of exactly chosen size; reference is the same operation in a roomy buffer
#include "fmlmodel.h"
static model m, before;
static FBFR32 *make(long size) { FBFR32 *b = (FBFR32 *)malloc(size); sym_check(Finit32(b, size) == 0, "Finit32 of a sufficient size"); return b; }
static int nstart[MAXF];
static void fill(FBFR32 *b, model &x) {
  for (int i = 0; i < x.nf; i++) for (int o = 0; o < x.f[i].n; o++) sym_check(Fadd32(b, x.f[i].id, m_ptr(x.f[i].v[o]), m_len(x.f[i].v[o])) == 0, "a field that fits is added");
}
static int op, k, oc; static mval v;
static int apply(FBFR32 *b) {
  mfield &f = m.f[k];
  switch (op) {
    case 0: return Fadd32(b, f.id, m_ptr(v), m_len(v));
    case 1: return Fchg32(b, f.id, oc, m_ptr(v), m_len(v));
    case 2: return CFadd32(b, f.id, m_ptr(v), m_len(v), f.type);
    case 3: return CFchg32(b, f.id, oc, m_ptr(v), m_len(v), f.type);
  }
  return 0;
}
extern "C" void harness_main() {
  static const int lens[] = {0, 7, 8, 9};
  switch (sym_case()) {
    case 0: m_field(m, FLD_SHORT, 3); m_field(m, FLD_STRING, 1); break;
    case 1: m_field(m, FLD_LONG, 2); m_field(m, FLD_CARRAY, 1); break;
    case 2: m_field(m, FLD_CHAR, 7); m_field(m, FLD_DOUBLE, 7); break;
    case 3: m_field(m, FLD_STRING, 1); m_field(m, FLD_FML32, 2); break;
    case 4: m_field(m, FLD_FLOAT, 1); m_field(m, FLD_CARRAY, 2); break;
  }
  for (int i = 0; i < m.nf; i++) { int n = sym_pick("start", 0, 2); for (int o = 0; o < n; o++) { mval w = m_value(m.f[i], "v0", o ? 8 : 3); m_chg(m.f[i], -1, w); } }
  op = sym_pick("op", 0, 3); k = sym_pick("field", 0, m.nf - 1); mfield &f = m.f[k];
  if (f.type == FLD_FML32 && op >= 2) sym_end();
  int l = f.type == FLD_FML32 ? sym_pick("len", 0, 1) : f.type == FLD_STRING || f.type == FLD_CARRAY ? lens[sym_pick("len", 0, 3)] : 0;
  v = m_value(f, "v", l); oc = op & 1 ? sym_pick("oc", 0, f.n + 2) : f.n;
  FBFR32 *roomy = make(1000); fill(roomy, m); long u0 = Fused32(roomy);
  sym_check(apply(roomy) == 0, "an operation in a roomy buffer succeeds"); long u1 = Fused32(roomy);
  sym_check(Fused32(roomy) + Funused32(roomy) == 1000 && Fsizeof32(roomy) == 1000, "used + unused = size");
  before = m; m_chg(f, oc, v); m_verify(roomy, m);
  long size = u1 + sym_pick("spare", -20, 2);
  if (u1 - u0 > 20) size = u0 + (size - u1 + 20) * (u1 - u0) / 20;   // spread over what is needed
  if (size < u0) size = u0;
  FBFR32 *b = make(size); fill(b, before); sym_check(Fused32(b) == u0, "same contents use the same space");
  int r = apply(b), e = Ferror32;
  sym_check(Fsizeof32(b) == size, "the size does not change");
  if (size >= u1) { sym_check(r == 0, "an operation that fits succeeds"); sym_check(Fused32(b) == u1, "same contents use the same space"); m_verify(b, m); sym_reach("fits"); }
  else { sym_check(r == -1 && e == FNOSPACE, "an operation that does not fit reports FNOSPACE"); sym_check(Fused32(b) == u0, "a failed operation changes nothing"); m_verify(b, before); sym_reach("does not fit"); }
  sym_observe("r", &r, 4);
}
