// C06: any expression text is compiled or refused; what compiles can be evaluated and printed; long texts; decimals
#include "c06_common.h"
#ifdef THOROUGH
#define X 1
#else
#define X 0
#endif
static const struct { const char *pre; int n; const char *post; } T[] = {
  {"", 2 + X, ""}, {"S1", 2 + X, ""}, {"S1", 2 + X, "12"}, {"(S1", 2 + X, "2)"}, {"'", 1 + X, "'"}, {"'", 2 + X, "' == T1"}, {"T1 ", 2, " 'a'"}, {"S1[", 2 + X, "] == 1"}, {"S1 ", 2, " '.a'"}, {"1 ", 2 + X, ""}, {"A1[?]", 2, "C1"}, {"1", 1, "A1[?]"}, {"T1 %% '", 2 + X, "'"}, {"D1 ", 2, " 'x'"}, {"12/", 2, ""}, {"", 1, "S1[?]"}, {"N1", 2, "1"}, {"S1[9999999999", 1, "]"}};
static void use(FBFR32 *b, char *tree) { int r = Fboolev32(b, tree); sym_check(r == 0 || r == 1 || r == -1, "result of an evaluation"); Ffloatev32(b, tree); sym_reach("accepted"); if (r >= 0) { char *t = again(tree); sym_check(Fboolev32(b, t) == r, "a printed expression has the same value"); } sym_observe("r", &r, 4); }
extern "C" void harness_main() {
  FBFR32 *b = start(); int c = sym_case(); short s = 7; double d = -1e300; sym_check(Fadd32(b, S1, (char *)&s, 0) == 0 && Fadd32(b, D1, (char *)&d, 0) == 0 && Fadd32(b, T1, (char *)"abc", 0) == 0, "fields"); char ch = 'x'; sym_check(Fadd32(b, C1, &ch, 0) == 0, "fields");
  int nt = sizeof T / sizeof *T;
  if (c < nt) {
    auto &t = T[c]; char e[80]; long k = strlen(t.pre); strcpy(e, t.pre); sym_bytes(e + k, t.n, "t"); k += t.n; for (int i = 0; i < t.n; i++) { unsigned char x = e[k - 1 - i]; sym_assume(x != 0); if (!X && t.n > 1) { bool al = ((x >= 'a') & (x <= 'z')) | ((x >= 'A') & (x <= 'Z')) | ((x >= '0') & (x <= '9')); sym_assume(!al | (x == '0') | (x == '1') | (x == '7') | (x == 'S') | (x == 'T') | (x == 'a') | (x == 'x')); } } strcpy(e + k, t.post);
    char *tree = Fboolco32(e); if (tree) use(b, tree); else { sym_check(Ferror32 == FSYNTAX || Ferror32 == FBADNAME || Ferror32 == FEBADOP, "a refused expression reports an error"); sym_reach("refused"); }
  } else if (c == nt) { // long constants and long chains
    int len = sym_pick("len", 0, 3); static const int L[] = {1010, 1020, 2050, 5000}; static char e[6000]; char x = sym_range("x", 'a', 'z'); strcpy(e, "T1 == '"); for (int i = 0; i < L[len]; i++) e[7 + i] = i == 1000 ? x : 'q'; strcpy(e + 7 + L[len], "'");
    char *tree = Fboolco32(e); sym_check(tree != nullptr, "an expression of the grammar compiles"); sym_check(Fboolev32(b, tree) == 0, "value of the expression"); use(b, tree);
  } else if (c == nt + 1) { static char e[3000]; int n = sym_pick("n", 0, 2) * 100 + 1; e[0] = 0; for (int i = 0; i < n; i++) strcat(e, "S1+"); strcat(e, "1"); char *tree = Fboolco32(e); sym_check(tree != nullptr, "an expression of the grammar compiles"); sym_check(Ffloatev32(b, tree) == n * 7 + 1, "numeric value of the expression"); use(b, tree); }
  else { // decimals
    static const struct { const char *e; double v; } q[] = {{"1.5", 1.5}, {"-1.5", -1.5}, {"1.1 == D1[1]", 1}, {"0.5", 0.5}, {"!0.5", 0}, {"1.5*2", 3}, {"7/2", 3}, {"7/2.0", 3.5}, {"0.1+0.2 > 0.3", 1}, {"1.25 < 1.5 && 3.0 >= 3", 1}, {"D1 < 0", 1}, {"-D1 > 0", 1}, {"D1 == '1'", 0}, {"16777217.0 == 16777217", 1}, {"D1[1] != 1.1", 0}, {"F1 == 0.25", 1}, {"F1 * 4 == S1 - 6", 1}, {"1.5 - - 1", 2.5}, {"~1", -2}, {"'1.5' < 2.0", 1}, {"0.0", 0}};
    double dd = 1.1; float ff = 0.25; sym_check(Fadd32(b, D1, (char *)&dd, 0) == 0 && Fadd32(b, F1, (char *)&ff, 0) == 0, "fields");
    int i = sym_pick("i", 0, sizeof q / sizeof *q - 1); char *tree = Fboolco32((char *)q[i].e); sym_check(tree != nullptr, "an expression of the grammar compiles");
    sym_check(Ffloatev32(b, tree) == q[i].v, "numeric value of the expression"); sym_check(Fboolev32(b, tree) == (q[i].v != 0), "value of the expression"); use(b, tree);
  }
}
