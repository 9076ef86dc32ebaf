// C03: whole-buffer operations into destinations of every size; byte image; checksum
#define MAXF 3
#include "fmlmodel.h"
#include "env.h"
static model d, s, e;
static void put(FBFR32 *b, model &m) { for (int i = 0; i < m.nf; i++) for (int o = 0; o < m.f[i].n; o++) sym_check(Fadd32(b, m.f[i].id, m_ptr(m.f[i].v[o]), m_len(m.f[i].v[o])) == 0, "a field that fits is added"); }
extern "C" void harness_main() {
  int c = sym_case();
  m_field(d, FLD_SHORT, 1); m_field(d, FLD_STRING, 2); s = d;
  for (int i = 0; i < 2; i++) {
    int n = sym_pick("dn", 0, 2); for (int o = 0; o < n; o++) { mval v = m_value(d.f[i], "d", 2 + o); m_chg(d.f[i], -1, v); }
    n = sym_pick("sn", 0, 2); for (int o = 0; o < n; o++) { mval v = m_value(s.f[i], "s", o ? 1 : 9); m_chg(s.f[i], -1, v); }
  }
  if (c < 6) {
    int op = c;
    FBFR32 *sb = (FBFR32 *)malloc(400), *rb = (FBFR32 *)malloc(400); sym_check(Finit32(sb, 400) == 0 && Finit32(rb, 400) == 0, "Finit32"); put(sb, s); put(rb, d);
    long u0 = Fused32(rb); FLDID32 list[2] = {d.f[1].id, BADFLDID};
    auto run = [&](FBFR32 *b) { switch (op) { case 0: return Fupdate32(b, sb); case 1: return Fjoin32(b, sb); case 2: return Fojoin32(b, sb); case 3: return Fconcat32(b, sb); case 4: return Fprojcpy32(b, sb, list); default: return Fcpy32(b, sb); } };
    sym_check(run(rb) == 0, "an operation in a roomy buffer succeeds"); long u1 = Fused32(rb);
    long size = u0 + sym_pick("spare", 0, 9) * 8;
    FBFR32 *b = (FBFR32 *)malloc(size); sym_check(Finit32(b, size) == 0, "Finit32"); put(b, d); sym_check(Fused32(b) == u0, "same contents use the same space");
    int r = run(b), er = Ferror32;
    sym_check(r == 0 || (r == -1 && er == FNOSPACE), "success or FNOSPACE");
    if (size < u1) { sym_check(r == -1, "a result that does not fit reports FNOSPACE"); sym_reach("does not fit"); }
    if (size >= u1 + Fused32(sb)) sym_check(r == 0, "an operation with ample space succeeds");
    sym_check(Fsizeof32(b) == size && Fused32(b) <= size && Fused32(b) + Funused32(b) == size, "used + unused = size");
    if (r == 0) { sym_check(Fused32(b) == u1, "same contents use the same space"); e = d; switch (op) {
      case 0: for (int i = 0; i < 2; i++) for (int o = 0; o < s.f[i].n; o++) m_chg(e.f[i], o, s.f[i].v[o]); break;
      case 1: for (int i = 0; i < 2; i++) { if (e.f[i].n > s.f[i].n) e.f[i].n = s.f[i].n; for (int o = 0; o < e.f[i].n; o++) e.f[i].v[o] = s.f[i].v[o]; } break;
      case 2: for (int i = 0; i < 2; i++) for (int o = 0; o < e.f[i].n && o < s.f[i].n; o++) e.f[i].v[o] = s.f[i].v[o]; break;
      case 3: for (int i = 0; i < 2; i++) for (int o = 0; o < s.f[i].n; o++) m_chg(e.f[i], -1, s.f[i].v[o]); break;
      case 4: e = s; e.f[0].n = 0; break; case 5: e = s; break; } m_verify(b, e); sym_reach("fits"); }
    m_verify(sb, s);
  } else if (c == 6) { // byte image
    FBFR32 *sb = (FBFR32 *)malloc(400); sym_check(Finit32(sb, 400) == 0, "Finit32"); put(sb, s); long used = Fused32(sb);
    FILE *f = env_mem_file("", 0); sym_check(Fwrite32(sb, f) == 0, "writing succeeds"); m_verify(sb, s);
    static char img[600]; long n = env_mem_content(f, img, sizeof img);
    long size = used + sym_pick("spare", -6, 2) * 8; if (size < Fneeded32(0, 0)) sym_end();
    int cut = sym_pick("cut", 0, 3); long m = cut == 0 ? n : cut == 1 ? n - 1 : cut == 2 ? n / 2 : 3;
    f = env_mem_file(img, m); FBFR32 *b = (FBFR32 *)malloc(size); sym_check(Finit32(b, size) == 0, "Finit32");
    int r = Fread32(b, f), er = Ferror32;
    if (cut == 0 && size >= used) { sym_check(r == 0, "reading back succeeds"); m_verify(b, s); sym_check(Fchksum32(b) == Fchksum32(sb), "a byte image has the same checksum"); sym_reach("read back"); }
    else { sym_check(r == -1 && (er == FNOSPACE || er == FEUNIX), "a byte image that does not fit or is cut short is refused"); sym_check(Fused32(b) <= size, "used stays within the size"); sym_reach("refused"); }
    sym_check(Fsizeof32(b) == size, "the size does not change");
  } else { // equal buffers made in different ways
    FBFR32 *a = (FBFR32 *)malloc(400), *b = (FBFR32 *)malloc(400); memset(b, 0x5a, 400); sym_check(Finit32(a, 400) == 0 && Finit32(b, 400) == 0, "Finit32"); put(a, s);
    for (int i = 1; i >= 0; i--) for (int o = s.f[i].n - 1; o >= 0; o--) { mval w = m_value(s.f[i], "w", 5); sym_check(Fchg32(b, s.f[i].id, o, m_ptr(w), m_len(w)) == 0, "fits"); sym_check(Fchg32(b, s.f[i].id, o, m_ptr(s.f[i].v[o]), m_len(s.f[i].v[o])) == 0, "fits"); }
    m_verify(b, s); long ca = Fchksum32(a), cb = Fchksum32(b); sym_check(ca == cb, "equal buffers have equal checksums"); sym_reach("checksums"); sym_observe("chk", &ca, 8);
  }
}
