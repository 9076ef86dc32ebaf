// C05: print any buffer of named fields, read the text back, compare
#define MAXF 4
#include "fmlmodel.h"
#include "env.h"
static const char table[] = "*base 100\nF_SHORT 1 short\nF_LONG\t2\tlong - x\nF_CHAR 3 char\nF_STR 4 string\nF_ARR 5 carray\nF_NEST 6 fml32\nF_SHORT2 7 short\n";
static FLDID32 S = fid(FLD_SHORT, 101), L = fid(FLD_LONG, 102), C = fid(FLD_CHAR, 103), STR = fid(FLD_STRING, 104), A = fid(FLD_CARRAY, 105), N = fid(FLD_FML32, 106), S2 = fid(FLD_SHORT, 107);
#ifdef THOROUGH
#define NB 3
#else
#define NB 2
#endif
static void addsym(FBFR32 *b, FLDID32 id, const char *name, int n) {
  char v[16] __attribute__((aligned(8))) = {0}; int t = id >> 24;
  if (t == FLD_LONG) { int p = sym_pick("size", 0, 2); long l = 0; if (p == 0) l = sym_long(name), sym_assume(l >= -999 && l <= 999); else if (p == 1) l = (long)(1UL << 63) + sym_pick("e", 0, 1); else l = 0x7fffffffffffffffL - sym_pick("e", 0, 1); memcpy(v, &l, 8); n = 8; }
  else if (t == FLD_SHORT) { sym_bytes(v, 2, name); n = 2; } else if (t == FLD_CHAR) { sym_bytes(v, 1, name); n = 1; }
  else if (n) { sym_bytes(v, n, name); if (t == FLD_STRING) for (int i = 0; i < n; i++) sym_assume(v[i] != 0); }
  sym_check(Fadd32(b, id, v, n) == 0, "a field that fits is added");
}
static void same_fml(FBFR32 *a, FBFR32 *b) {
  FLDID32 ia = BADFLDID, ib = BADFLDID; FLDOCC32 oa = 0, ob = 0;
  for (int i = 0; i < 20; i++) {
    FLDLEN32 la = 2000, lb = 2000; char *va = (char *)malloc(2000), *vb = (char *)malloc(2000); int ra = Fnext32(a, &ia, &oa, va, &la), rb = Fnext32(b, &ib, &ob, vb, &lb);
    sym_check(ra == rb && ra != -1, "a printed buffer reads back with the same fields"); if (ra != 1) return;
    sym_check(ia == ib && oa == ob, "a printed buffer reads back with the same fields"); sym_check(la == lb, "a printed buffer reads back with values of the same length");
    if (ia >> 24 == FLD_FML32) same_fml((FBFR32 *)va, (FBFR32 *)vb); else sym_check(memcmp(va, vb, la) == 0, "a printed buffer reads back with the same values");
    free(va); free(vb); }
}
static FBFR32 *mk(int n) { FBFR32 *b = (FBFR32 *)malloc(n); sym_check(Finit32(b, n) == 0, "Finit32"); return b; }
extern "C" void harness_main() {
  fx_fmt_exact = 1; env_put_file("tbl", table, sizeof table - 1); env_set("FIELDTBLS32", "tbl"); env_set("FLDTBLDIR32", ".");
  FBFR32 *b = mk(900);
  switch (sym_case()) {
    case 0: addsym(b, S, "v", 0); break;
    case 1: addsym(b, L, "v", 0); break;
    case 2: addsym(b, C, "v", 0); addsym(b, C, "w", 0); break;
    case 3: addsym(b, STR, "v", sym_pick("n", 0, NB)); break;
    case 4: addsym(b, A, "v", sym_pick("n", 0, NB)); break;
    case 5: { int k = sym_pick("k", 0, 2); for (int i = 0; i < k; i++) addsym(b, A, "v", 1); addsym(b, STR, "w", 1); break; }
    case 6: case 7: { // nested, with fields before and after, empty nested buffers, two levels
      FBFR32 *n1 = mk(300), *n2 = mk(160); int deep = sym_pick("deep", 0, 2);
      if (sym_pick("inner", 0, 1)) addsym(n1, sym_case() == 6 ? C : STR, "i", 1);
      if (deep) { if (deep == 2) addsym(n2, C, "d", 1); sym_check(Fadd32(n1, N, (char *)n2, 0) == 0, "a field that fits is added"); }
      if (sym_pick("before", 0, 1)) { short x = 7; sym_check(Fadd32(b, S, (char *)&x, 0) == 0, "a field that fits is added"); }
      sym_check(Fadd32(b, N, (char *)n1, 0) == 0, "a field that fits is added");
      if (sym_pick("second", 0, 1)) sym_check(Fadd32(b, N, (char *)n2, 0) == 0, "a field that fits is added");
      break; }
    case 8: { // longer than the initial size of the reader's buffer
      static char big[1500]; memset(big, 'x', 1400); sym_bytes(big + 700, 1, "v"); sym_assume(big[700] != 0); b = mk(4000); char *p = big; sym_check(Fadd32(b, STR, p, 0) == 0, "a field that fits is added"); addsym(b, S, "w", 0); break; }
  }
  FILE *f = env_mem_file("", 0); sym_check(Ffprint32(b, f) == 0, "printing succeeds");
  static char txt[8000]; long n = env_mem_content(f, txt, sizeof txt);
  long size = Fsizeof32(b); FBFR32 *r = mk(size); short junk = 1; Fadd32(r, S2, (char *)&junk, 0);
  int rc = Fextread32(r, env_mem_file(txt, n)), e = Ferror32; sym_log("error", e);
  sym_check(rc != -1, "a printed buffer is read back"); sym_check(Fused32(r) == Fused32(b), "a printed buffer reads back with the same size");
  same_fml(b, r);
  sym_observe("text", txt, n); sym_reach("read back");
}
