// C02: moving, copying and growing a buffer
#include "fmlmodel.h"
static model m;
extern "C" void harness_main() {
  int t = sym_case();
  static const int ty[3][3] = {{FLD_SHORT, FLD_STRING, FLD_CARRAY}, {FLD_LONG, FLD_CHAR, FLD_FML32}, {FLD_DOUBLE, FLD_FLOAT, FLD_STRING}};
  for (int i = 0; i < 3; i++) m_field(m, ty[t][i], i + 1);
  for (int i = 0; i < m.nf; i++) { int n = sym_pick("start", 0, 2); for (int o = 0; o < n; o++) { mval w = m_value(m.f[i], "v0", o ? 8 : 3); m_chg(m.f[i], -1, w); } }
  long size = 400; FBFR32 *b = (FBFR32 *)malloc(size); sym_check(Finit32(b, size) == 0, "Finit32");
  for (int i = 0; i < m.nf; i++) for (int o = 0; o < m.f[i].n; o++) sym_check(Fadd32(b, m.f[i].id, m_ptr(m.f[i].v[o]), m_len(m.f[i].v[o])) == 0, "a field that fits is added");
  int what = sym_pick("what", 0, 3); long used = Fused32(b);
  if (what == 0) { // a block of bytes
    FBFR32 *c = (FBFR32 *)malloc(size); memcpy(c, b, size); free(b); m_verify(c, m); sym_reach("moved");
    mval w = m_value(m.f[1], "v", 3); sym_check(Fadd32(c, m.f[1].id, m_ptr(w), m_len(w)) == 0, "a moved buffer works on"); m_chg(m.f[1], -1, w); m_verify(c, m);
  } else if (what == 1) { // copied to a buffer just large enough, too small, or larger
    long d = sym_pick("spare", -8, 8); if (used + d < Fneeded32(0, 0)) sym_end();
    FBFR32 *c = (FBFR32 *)malloc(used + d); sym_check(Finit32(c, used + d) == 0, "Finit32");
    int r = Fcpy32(c, b), e = Ferror32;
    if (d >= 0) { sym_check(r == 0, "a copy that fits succeeds"); sym_check(Fsizeof32(c) == used + d && Fused32(c) == used, "space accounting of the copy"); m_verify(c, m); sym_reach("copied"); }
    else sym_check(r == -1 && e == FNOSPACE, "a copy that does not fit reports FNOSPACE");
    m_verify(b, m);
  } else if (what == 2) { // grown or shrunk
    FLDOCC32 F = sym_pick("F", 1, 4); FLDLEN32 V = sym_pick("V", 1, 3) * 40; long n = Fneeded32(F, V);
    FBFR32 *c = Frealloc32(b, F, V);
    if (n >= used) { sym_check(c != nullptr, "reallocation to a sufficient size succeeds"); sym_check(Fsizeof32(c) == n && Funused32(c) == n - used, "size after reallocation"); m_verify(c, m); sym_reach("reallocated");
      int added = 0; mval w = m_value(m.f[2], "v", 8); while (Fadd32(c, m.f[2].id, m_ptr(w), m_len(w)) == 0 && added < 40) added++;
      sym_check(Ferror32 == FNOSPACE && Fused32(c) <= n, "a full buffer reports FNOSPACE"); sym_check(Foccur32(c, m.f[2].id) == m.f[2].n + added, "what was added before it was full is there"); }
    else { sym_check(c == nullptr && Ferror32 == FNOSPACE, "reallocation below the used size is refused"); m_verify(b, m); }
  } else { // minimum sizes
    long n = sym_pick("n", 0, 80); FBFR32 *c = (FBFR32 *)malloc(n + 1); int r = Finit32(c, n);
    sym_check(r == (n >= Fneeded32(0, 0) ? 0 : -1), "a buffer smaller than the minimum is refused"); if (r == 0) { sym_check(Fused32(c) == Fneeded32(0, 0) && Fused32(c) + Funused32(c) == n, "an empty buffer uses the minimum"); sym_reach("minimum"); }
  }
  sym_observe("used", &used, 8);
}
