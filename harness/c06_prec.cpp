// C06: longer chains of operators, at least one of each strength, against the reduction of the strongest operator first
#include "c06_common.h"
#ifndef NV
#define NV 5
#endif
static const char *ops[] = {"*", "-", "<", "!=", "^", "&&", "||"};
static const int prec[] = {70, 60, 50, 50, 30, 20, 10};
static long ap(int o, long a, long b) { switch (o) { case 0: return (long)((unsigned long)a * b); case 1: return (unsigned long)a - b; case 2: return a < b; case 3: return a != b; case 4: return a ^ b; case 5: return (a != 0) & (b != 0); default: return (a != 0) | (b != 0); } }
static long reduce(int n, long *v, int *o) { while (n > 1) { int best = 0; for (int i = 1; i < n - 1; i++) if (prec[o[i]] > prec[o[best]]) best = i; v[best] = ap(o[best], v[best], v[best + 1]); for (int i = best + 1; i + 1 < n; i++) v[i] = v[i + 1]; for (int i = best; i + 1 < n - 1; i++) o[i] = o[i + 1]; n--; } return v[0]; }
extern "C" void harness_main() {
  FBFR32 *b = start(); int o[NV - 1]; o[0] = sym_case(); int muls = o[0] == 0; for (int i = 1; i < NV - 1; i++) { o[i] = sym_pick("op", 0, 6); muls += o[i] == 0; }
  short s1 = (short)sym_u16("s1"), s2; long l1; if (muls) { static const short g[] = {-9, 5}; s2 = g[sym_pick("s2", 0, 1)]; static const long k[] = {-3, 0}; l1 = k[sym_pick("l1", 0, 1)]; } else { s2 = (short)sym_u16("s2"); l1 = sym_long("l1"); }
  sym_check(Fadd32(b, S1, (char *)&s1, 0) == 0 && Fadd32(b, S2, (char *)&s2, 0) == 0 && Fadd32(b, L1, (char *)&l1, 0) == 0, "a field that fits is added");
  char e[120] = ""; long v[] = {s1, l1, s2, 12, l1}; static const char *name[] = {"S1", "L1", "S2[0]", "12", "L1"};
  for (int i = 0; i < NV; i++) { strcat(e, name[i]); if (i < NV - 1) { strcat(e, " "); strcat(e, ops[o[i]]); strcat(e, " "); } }
  char *tree = Fboolco32(e); sym_check(tree != nullptr, "an expression of the grammar compiles"); long want = reduce(NV, v, o);
  sym_check(Fboolev32(b, tree) == (want != 0), "value of the expression"); 
  char e2[160] = "("; strcat(e2, e); strcat(e2, ") == L1[1]"); long w = sym_long("w"); sym_check(Fadd32(b, L1, (char *)&w, 0) == 0, "a field that fits is added"); char *t3 = Fboolco32(e2); sym_check(t3 != nullptr, "an expression of the grammar compiles"); sym_check(Fboolev32(b, t3) == (want == w), "numeric value of the expression"); sym_reach("evaluated");
  char *t2 = again(tree); sym_check(Fboolev32(b, t2) == (want != 0), "a printed expression has the same value");
}
