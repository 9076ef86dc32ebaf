// C03: whole-buffer operations on every pair of small buffers against the set operation on reference multimaps
#define MAXF 3
#include "fmlmodel.h"
#ifndef MAXN
#define MAXN 2
#endif
static model d, s, e;
enum { UPDATE, JOIN, OJOIN, CONCAT, PROJ, PROJCPY, DELETE, CPY };
static void put(FBFR32 *b, model &m) { for (int i = 0; i < m.nf; i++) for (int o = 0; o < m.f[i].n; o++) sym_check(Fadd32(b, m.f[i].id, m_ptr(m.f[i].v[o]), m_len(m.f[i].v[o])) == 0, "a field that fits is added"); }
static int inlist(FLDID32 *l, FLDID32 id) { for (; *l != BADFLDID; l++) if (*l == id) return 1; return 0; }
extern "C" void harness_main() {
  int c = sym_case(), op = c % 16, mix = c / 16;
  static const int ty[3][3] = {{FLD_SHORT, FLD_STRING, FLD_STRING}, {FLD_LONG, FLD_LONG, FLD_CARRAY}, {FLD_CARRAY, FLD_DOUBLE, FLD_FML32}};
  for (int i = 0; i < 3; i++) { m_field(d, ty[mix][i], i + 1); m_field(s, ty[mix][i], i + 1); }
  for (int i = 0; i < 3; i++) {
    int n = sym_pick("dn", 0, i == 2 ? 1 : op == DELETE || op == PROJ || op == JOIN ? 3 : MAXN); for (int o = 0; o < n; o++) { mval v = m_value(d.f[i], "d", 2 + o); m_chg(d.f[i], -1, v); }
    if (op == PROJ || op == DELETE) continue;
    n = sym_pick("sn", 0, i == 2 ? 1 : MAXN); for (int o = 0; o < n; o++) { mval v = m_value(s.f[i], "s", o ? 1 : 9); m_chg(s.f[i], -1, v); }
  }
  FBFR32 *db = (FBFR32 *)malloc(500), *sb = (FBFR32 *)malloc(500); sym_check(Finit32(db, 500) == 0 && Finit32(sb, 500) == 0, "Finit32");
  put(db, d); put(sb, s); e = d;
  FLDID32 list[6]; int nl = 0;
  if (op == PROJ || op == PROJCPY || op == DELETE) {
    // any list of up to three ids: in any order, absent ones, repetitions
    int n = sym_pick("nl", 0, 3); for (int i = 0; i < n; i++) { int k = sym_pick("li", 0, 3); list[nl++] = k < 3 ? d.f[k].id : fid(FLD_CHAR, 77); }
    list[nl] = BADFLDID;
  }
  int r = -2; long su = Fused32(sb);
  switch (op) {
    case UPDATE: r = Fupdate32(db, sb); for (int i = 0; i < 3; i++) for (int o = 0; o < s.f[i].n; o++) m_chg(e.f[i], o, s.f[i].v[o]); break;
    case JOIN: r = Fjoin32(db, sb); for (int i = 0; i < 3; i++) { if (e.f[i].n > s.f[i].n) e.f[i].n = s.f[i].n; for (int o = 0; o < e.f[i].n; o++) e.f[i].v[o] = s.f[i].v[o]; } break;
    case OJOIN: r = Fojoin32(db, sb); for (int i = 0; i < 3; i++) for (int o = 0; o < e.f[i].n && o < s.f[i].n; o++) e.f[i].v[o] = s.f[i].v[o]; break;
    case CONCAT: r = Fconcat32(db, sb); for (int i = 0; i < 3; i++) for (int o = 0; o < s.f[i].n; o++) m_chg(e.f[i], -1, s.f[i].v[o]); break;
    case PROJ: r = Fproj32(db, list); for (int i = 0; i < 3; i++) if (!inlist(list, e.f[i].id)) e.f[i].n = 0; break;
    case PROJCPY: r = Fprojcpy32(db, sb, list); for (int i = 0; i < 3; i++) { e.f[i] = s.f[i]; if (!inlist(list, e.f[i].id)) e.f[i].n = 0; } break;
    case DELETE: r = Fdelete32(db, list); for (int i = 0; i < 3; i++) if (inlist(list, e.f[i].id)) e.f[i].n = 0; break;
    case CPY: r = Fcpy32(db, sb); e = s; break;

  }
  sym_check(r == 0, "an operation in a roomy buffer succeeds");
  m_verify(db, e); sym_check(Fsizeof32(db) == 500, "the size does not change");
  sym_check(Fused32(sb) == su, "the source is not changed"); m_verify(sb, s);
  // the same contents made another way have the same checksum
  FBFR32 *cb = (FBFR32 *)malloc(600); sym_check(Finit32(cb, 600) == 0, "Finit32"); put(cb, e);
  sym_check(Fused32(cb) == Fused32(db), "same contents use the same space");
  sym_reach("end");
  sym_observe("r", &r, 4);
}
