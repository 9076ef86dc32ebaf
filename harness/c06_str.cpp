// C06: comparisons of strings, characters and byte arrays by content; subscripts and any-occurrence subscripts
#include "c06_common.h"
static const char *ops[] = {"<", ">", "<=", ">=", "==", "!="};
static int rel(int o, int c) { switch (o) { case 0: return c < 0; case 1: return c > 0; case 2: return c <= 0; case 3: return c >= 0; case 4: return c == 0; default: return c != 0; } }
static char va[3][4], vb[3][4]; static int na, nb;
static int put(FBFR32 *b, FLDID32 id, char v[][4], const char *name, int max) {
  int n = sym_pick("n", 0, max);
  for (int o = 0; o < n; o++) { int l = (id >> 24) == FLD_CHAR ? 1 : sym_pick("len", 0, 2); memset(v[o], 0, 4); if (l) sym_bytes(v[o], l, name); for (int i = 0; i < l; i++) sym_assume(v[o][i] != 0); sym_check(Fadd32(b, id, v[o], l) == 0, "a field that fits is added"); }
  return n;
}
extern "C" void harness_main() {
  FBFR32 *b = start(); int c = sym_case(), o = sym_pick("op", 0, 5); char e[120]; int want;
  static const FLDID32 f[] = {C1, T1, A1}, g[] = {C2, T2, A2}; static const char *fn[] = {"C1", "T1", "A1"}, *gn[] = {"C2", "T2", "A2"};
  if (c < 9) { // field against field, occurrence 0
    na = put(b, f[c / 3], va, "a", 1); nb = put(b, g[c % 3], vb, "b", 1);
    strcpy(e, fn[c / 3]); strcat(e, ops[o]); strcat(e, gn[c % 3]);
    want = rel(o, strcmp(na ? va[0] : "", nb ? vb[0] : "")); sym_reach("field and field");
  } else if (c < 15) { // against a constant, either side; the constant written with escapes
    int k = (c - 9) % 3; na = put(b, f[k], va, "a", 1); static const char *cs[] = {"", "a", "ab", "it\\27s", "\\5cx", "\\e9"}, *cv[] = {"", "a", "ab", "it's", "\\x", "\xe9"}; int q = sym_pick("const", 0, 5);
    if (c < 12) { strcpy(e, fn[k]); strcat(e, " "); strcat(e, ops[o]); strcat(e, " '"); strcat(e, cs[q]); strcat(e, "'"); want = rel(o, strcmp(na ? va[0] : "", cv[q])); }
    else { strcpy(e, "'"); strcat(e, cs[q]); strcat(e, "'"); strcat(e, ops[o]); strcat(e, fn[k]); want = rel(o, strcmp(cv[q], na ? va[0] : "")); }
    sym_reach("field and constant");
  } else if (c < 18) { // subscripts
    int k = c - 15; na = put(b, f[k], va, "a", 2); int oc = sym_pick("oc", 0, 2); char t[20]; strcpy(e, fn[k]); snprintf(t, sizeof t, "[%d]", oc); strcat(e, t); strcat(e, ops[o]); strcat(e, "'k'"); want = rel(o, strcmp(oc < na ? va[oc] : "", "k")); sym_reach("subscript");
  } else if (c < 21) { // any occurrence
    int k = c - 18; na = put(b, f[k], va, "a", 2); strcpy(e, fn[k]); strcat(e, "[?]"); strcat(e, ops[o]); strcat(e, "'k'"); want = 0; for (int i = 0; i < na; i++) want |= rel(o, strcmp(va[i], "k")); sym_reach("any subscript");
  } else { // numbers: subscripts, any occurrence, absent fields
    int n = sym_pick("n", 0, 2); long v[2]; short w = (short)sym_u16("w"); for (int i = 0; i < n; i++) { v[i] = sym_long("v"); sym_check(Fadd32(b, L1, (char *)&v[i], 0) == 0, "a field that fits is added"); } sym_check(Fadd32(b, S1, (char *)&w, 0) == 0, "a field that fits is added");
    if (c == 21) { strcpy(e, "L1[?] "); strcat(e, ops[o]); strcat(e, " S1"); want = 0; for (int i = 0; i < n; i++) want |= rel(o, v[i] < w ? -1 : v[i] > w); }
    else { strcpy(e, "L1[1] "); strcat(e, ops[o]); strcat(e, " S1"); long x = n > 1 ? v[1] : 0; want = rel(o, x < w ? -1 : x > w); }
  }
  char *tree = Fboolco32(e); sym_check(tree != nullptr, "an expression of the grammar compiles");
  int r = Fboolev32(b, tree); sym_check(r == want, "value of the expression"); sym_observe("r", &r, 4);
  char *t2 = again(tree); sym_check(Fboolev32(b, t2) == r, "a printed expression has the same value"); sym_reach("evaluated");
}
