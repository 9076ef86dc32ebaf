#pragma once
#define MAXF 3
#include "fmlmodel.h"
#include "env.h"
static const char table[] = "*base 100\nS1 1 short\nS2 2 short\nL1 3 long\nC1 4 char\nC2 5 char\nT1 6 string\nT2 7 string\nA1 8 carray\nA2 9 carray\nD1 10 double\nF1 11 float\nN1 12 fml32\n";
static FLDID32 S1 = fid(FLD_SHORT, 101), S2 = fid(FLD_SHORT, 102), L1 = fid(FLD_LONG, 103), C1 = fid(FLD_CHAR, 104), C2 = fid(FLD_CHAR, 105), T1 = fid(FLD_STRING, 106), T2 = fid(FLD_STRING, 107), A1 = fid(FLD_CARRAY, 108), A2 = fid(FLD_CARRAY, 109), D1 = fid(FLD_DOUBLE, 110), F1 = fid(FLD_FLOAT, 111);
static FBFR32 *start() {
  fx_fmt_exact = 1; env_put_file("tbl", table, sizeof table - 1); env_set("FIELDTBLS32", "tbl"); env_set("FLDTBLDIR32", ".");
  sym_check(Fldid32((char *)"S1") == S1, "field by name"); FBFR32 *b = (FBFR32 *)malloc(900); sym_check(Finit32(b, 900) == 0, "Finit32"); return b;
}
// prints a compiled expression and compiles the print
static char *again(char *tree) {
  FILE *f = env_mem_file("", 0); Fboolpr32(tree, f); static char txt[6000]; long n = env_mem_content(f, txt, sizeof txt - 1); txt[n] = 0;
  sym_check(n > 0 && txt[n - 1] == '\n', "a printed expression is a line"); char *t2 = Fboolco32(txt); sym_check(t2 != nullptr, "a printed expression compiles"); return t2;
}
