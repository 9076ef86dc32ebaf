// C06: integer expressions of up to three operands over symbolic field values, every operator combination, against a
// reference evaluator that works by repeated reduction of the strongest operator
#include "c06_common.h"
static const char *ops[] = {"*", "/", "%", "+", "-", "<", ">", "<=", ">=", "==", "!=", "^", "&&", "||"};
static const int prec[] = {70, 70, 70, 60, 60, 50, 50, 50, 50, 50, 50, 30, 20, 10};
static int bad;
static long ap(int o, long a, long b) {
  switch (o) { case 0: return (long)((unsigned long)a * b); case 1: if (b == 0) { bad = 1; return 0; } return a / b; case 2: if (b == 0) { bad = 1; return 0; } return a % b; case 3: return (unsigned long)a + b; case 4: return (unsigned long)a - b;
    case 5: return a < b; case 6: return a > b; case 7: return a <= b; case 8: return a >= b; case 9: return a == b; case 10: return a != b; case 11: return a ^ b; case 12: return (a != 0) & (b != 0); default: return (a != 0) | (b != 0); } }
static long un(const char *u, long a) { return *u == '-' ? -(unsigned long)a : *u == '!' ? a == 0 : *u == '~' ? ~a : a; }
static long reduce(int n, long *v, int *o) { // left to right among operators of equal strength
  while (n > 1) { int best = 0; for (int i = 1; i < n - 1; i++) if (prec[o[i]] > prec[o[best]]) best = i; v[best] = ap(o[best], v[best], v[best + 1]); for (int i = best + 1; i + 1 < n; i++) v[i] = v[i + 1]; for (int i = best; i + 1 < n - 1; i++) o[i] = o[i + 1]; n--; }
  return v[0]; }
#ifdef THOROUGH
#define NV 4
#define SOME 1
#else
#define NV 3
#define SOME 1
#endif
extern "C" void harness_main() {
  FBFR32 *b = start(); int o[3]; int divs = 0; for (int i = 0; i < NV - 1; i++) { static const int few[] = {0, 1, 4, 5, 9, 11, 12, 13}; o[i] = SOME && sym_case() >= 3 ? few[sym_pick("op", 0, 7)] : sym_pick("op", 0, 13); if (o[i] == 1 || o[i] == 2) divs++; }
  // division is decided on a grid of values, everything else on all values
  short s1, s2; long l1;
  if (divs) { static const long g[] = {0, -7, 2}; s1 = g[sym_pick("s1", 0, 2)]; l1 = g[sym_pick("l1", 0, 2)]; s2 = g[sym_pick("s2", 0, 1)]; }
  else { s1 = (short)sym_u16("s1"); int m = 0; for (int i = 0; i < NV - 1; i++) m += o[i] == 0; if (m > (sym_case() == 5 ? 0 : 1)) { static const short g2[] = {0, -9, 300}; s2 = g2[sym_pick("g2", 0, 2)]; } else s2 = (short)sym_u16("s2"); static const long k[] = {-3, 0, 7}; l1 = m ? k[sym_pick("k", 0, 2)] : sym_long("l1"); }
  sym_check(Fadd32(b, S1, (char *)&s1, 0) == 0 && Fadd32(b, S2, (char *)&s2, 0) == 0 && Fadd32(b, L1, (char *)&l1, 0) == 0, "a field that fits is added");
  int c = sym_case(), group = c / 6; // which operand carries a unary operator / which part is in parentheses
  static const char *un_[] = {"", "-", "!", "~", "+"};
  char e[100] = ""; long v[4] = {s1, l1, s2, 12}; static const char *name[] = {"S1", "L1", "S2[0]", "12"};
  const char *sp = o[0] & 1 ? " " : "";
  int u = c % 6; // 0..2: plain, paren left, paren right; 3: unary on first, 4: unary on second, 5: unary on a parenthesis
  const char *uo = u >= 3 ? un_[sym_pick("unary", 1, u == 5 ? 3 : 4)] : "";
  if (u == 3) v[0] = un(uo, v[0]); if (u == 4) v[1] = un(uo, v[1]);
  int lp = u == 1 ? 0 : u == 2 || u == 5 ? 1 : -1; // parenthesis around operands lp, lp+1
  for (int i = 0; i < NV; i++) {
    if (u == 5 && i == lp) strcat(e, uo);
    if (i == lp) strcat(e, "("); if ((u == 3 && i == 0) || (u == 4 && i == 1)) strcat(e, uo); strcat(e, name[i]); if (i == lp + 1 && lp >= 0) strcat(e, ")");
    if (i < NV - 1) { strcat(e, sp); strcat(e, ops[o[i]]); strcat(e, sp); }
  }
  char *tree = Fboolco32(e); sym_check(tree != nullptr, "an expression of the grammar compiles");
  int n = NV; int oo[3]; memcpy(oo, o, sizeof o);
  if (lp >= 0) { long r = ap(o[lp], v[lp], v[lp + 1]); if (u == 5) r = un(uo, r); v[lp] = r; for (int i = lp + 1; i + 1 < n; i++) v[i] = v[i + 1]; for (int i = lp; i + 1 < n - 1; i++) oo[i] = oo[i + 1]; n--; }
  long want = reduce(n, v, oo);
  int r = Fboolev32(b, tree);
  if (bad) { sym_check(r == -1, "division by zero is an error"); sym_reach("division by zero"); sym_check(Ffloatev32(b, tree) == -1, "division by zero is an error"); }
  else { sym_check(r == (want != 0), "value of the expression"); 
    if (divs) { double d = Ffloatev32(b, tree); sym_check(d == (double)want, "numeric value of the expression"); }
    else { char e2[140] = "("; strcat(e2, e); strcat(e2, ") == L1[1]"); long w = sym_long("w"); sym_check(Fadd32(b, L1, (char *)&w, 0) == 0, "a field that fits is added"); char *t3 = Fboolco32(e2); sym_check(t3 != nullptr, "an expression of the grammar compiles"); sym_check(Fboolev32(b, t3) == (want == w), "numeric value of the expression"); }
    sym_reach("evaluated"); sym_observe("r", &r, 4); }
  if (divs && o[0] > 3) return;
  char *t2 = again(tree); int r2 = Fboolev32(b, t2); sym_check(r2 == r, "a printed expression has the same value");
}
