// C01: any short history of add/change/delete/delete-all on a mix of fields, then every read
#include "fmlmodel.h"
#ifndef NOPS
#define NOPS 2
#endif
static int lens[4] = {0, 7, 8, 3};
static model m;
static mval value(mfield &f, const char *name, int variants) {
  int l = f.type == FLD_FML32 ? sym_pick("len", 0, 1) : 0; if (f.type == FLD_STRING || f.type == FLD_CARRAY) l = lens[sym_pick("len", 0, variants - 1)];
  return m_value(f, name, l);
}
extern "C" void harness_main() {
  switch (sym_case()) {
    case 0: m_field(m, FLD_SHORT, 3); m_field(m, FLD_STRING, 1); m_field(m, FLD_STRING, 2); break;
    case 1: m_field(m, FLD_LONG, 2); m_field(m, FLD_LONG, 5); m_field(m, FLD_CARRAY, 1); break;
    case 2: m_field(m, FLD_CHAR, 7); m_field(m, FLD_FLOAT, 7); m_field(m, FLD_DOUBLE, 7); break;
    case 3: m_field(m, FLD_SHORT, 1); m_field(m, FLD_SHORT, 2); m_field(m, FLD_SHORT, 0xffffff); break;
    case 5: m_field(m, FLD_FML32, 1); m_field(m, FLD_CARRAY, 4); m_field(m, FLD_FML32, 3); break;
    case 4: m_field(m, FLD_CARRAY, 1); m_field(m, FLD_STRING, 1); m_field(m, FLD_CHAR, 1); break;
  }
  static char mem[600] __attribute__((aligned(8)));
  FBFR32 *b = (FBFR32 *)mem;
  sym_check(Finit32(b, 600) == 0, "Finit32");
  // a starting content: up to two occurrences of each field
  for (int i = 0; i < m.nf; i++) {
    int n = sym_pick("start", 0, i == 0 ? 2 : 1);
    for (int o = 0; o < n; o++) { mval v = m_value(m.f[i], "v0", o ? 4 : 9); m_chg(m.f[i], -1, v); sym_check(Fadd32(b, m.f[i].id, m_ptr(v), m_len(v)) == 0, "a field that fits is added"); }
  }
  for (int k = 0; k < NOPS; k++) {
    mfield &f = m.f[sym_pick("field", 0, m.nf - 1)];
    int op = sym_pick("op", 0, 3);
    if (op == 0) { mval v = value(f, "v", 3); sym_check(Fadd32(b, f.id, m_ptr(v), m_len(v)) == 0, "a field that fits is added"); m_chg(f, -1, v); }
    else if (op == 1) {
      int oc = sym_pick("oc", 0, f.n + 1); mval v = value(f, "v", 3);
      sym_check(Fchg32(b, f.id, oc, m_ptr(v), m_len(v)) == 0, "a field that fits is changed"); m_chg(f, oc, v);
    } else if (op == 2) {
      int oc = sym_pick("oc", 0, f.n), r = Fdel32(b, f.id, oc);
      if (oc < f.n) { sym_check(r == 0, "a present occurrence is deleted"); m_del(f, oc); sym_reach("deleted"); } else sym_check(r == -1 && Ferror32 == FNOTPRES, "deleting an absent occurrence reports FNOTPRES");
    } else {
      int r = Fdelall32(b, f.id);
      if (f.n) { sym_check(r == 0, "all occurrences are deleted"); f.n = 0; sym_reach("deleted all"); } else sym_check(r == -1 && Ferror32 == FNOTPRES, "deleting an absent field reports FNOTPRES");
    }
  }
  m_verify(b, m);
  sym_observe("used", mem + 4, 4);
  sym_reach("end");
}
