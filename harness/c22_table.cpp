// C22: field tables of every layout, read by the library and made into a header
#include "sym.h"
#include "env.h"
#include <string>
#include <fml32.h>
#define main mkfldhdr_main
#include "mkfldhdr32.cpp"
#undef main
namespace hx {
static const struct { const char *n; int t; } TY[] = {{"short", FLD_SHORT}, {"long", FLD_LONG}, {"char", FLD_CHAR}, {"float", FLD_FLOAT}, {"double", FLD_DOUBLE}, {"string", FLD_STRING}, {"carray", FLD_CARRAY}, {"fml32", FLD_FML32}};
static std::string text; static int layout;
static void sep() { static const char *s[] = {"\t", " ", " \t  "}; text += s[layout % 3]; }
static long number(const char *n, const char *pre, int symbolic) { uint8_t d = symbolic ? sym_range(n, 0, 9) : 3; text += pre; text += char('0' + d); return atol(pre) * 10 + d; }
static struct { const char *name; int type; long no; } F[4]; static int nf;
static void field(const char *name, long base, const char *pre, int symbolic, int ty) { text += name; sep(); long no = base + number(name, pre, symbolic); sep(); text += TY[ty].n; static const char *c[] = {"", "\t-\tcomment", " - a comment # $"}; text += c[layout % 3]; text += "\n"; F[nf].name = name; F[nf].type = TY[ty].t; F[nf].no = no; nf++; }
static void rest(int what) { if (what == 1) text += "# comment *base 7\n"; if (what == 2) text += "\n"; if (what == 3) text += "$/* raw */\n"; }
static const char *HDR;
extern "C" void harness_main() {
  fx_fmt_exact = 1; int c = sym_case(); layout = c % 3; int var = c / 3; // what is symbolic: 0 the base, 1 the first number, 2 the types, 3 what is between
  int t0 = var == 2 ? sym_pick("type", 0, 7) : 0, t1 = var == 2 ? (t0 + 3) % 8 : 5; if (var == 3) rest(sym_pick("line", 0, 3)); long base = 0;
  if (layout || var == 0) { text += "*base"; sep(); base = number("base", layout == 2 ? "123456" : "12", var == 0); text += layout == 2 ? " # from here" : ""; text += "\n"; }
  field("AA", base, base ? "" : "7", var == 1, t0); if (var == 3) rest(sym_pick("line", 0, 3)); field("AA_2", base, "12", var == 1, t1); std::string one = text, two; bool files = var == 0 ? sym_bool("two tables") : var == 3; if (files) text = ""; else { text += "*base 900\n"; base = 900; } if (files) base = 0; field("A", base, layout ? "800" : "2000", 0, 6); if (var == 3 && layout == 0 && sym_bool("no newline")) text.pop_back(); if (files) two = text; else one = text;
  env_put_file("t1", one.data(), one.size()); if (files) env_put_file("t2", two.data(), two.size()); env_set("FIELDTBLS32", files ? "t1,none,t2" : "t1"); env_set("FLDTBLDIR32", var != 1 ? "nodir:." : ".");
  bool idfirst = var == 0 && sym_bool("ids first"); FLDID32 id[3]; for (int i = 0; i < 3; i++) { id[i] = Fmkfldid32(F[i].type, F[i].no); if (idfirst) { char *n = Fname32(id[i]); sym_check(n && !strcmp(n, F[i].name), "an id maps to its name"); } FLDID32 got = Fldid32((char *)F[i].name); int e = Ferror32; sym_check(got == id[i] && !e, "a name maps to its type and number"); sym_check(Fldtype32(got) == F[i].type && Fldno32(got) == F[i].no, "the id holds type and number"); }
  for (int k = 0; k < 2; k++) { for (int i = 0; i < 3; i++) { char *n = Fname32(id[i]); int e = Ferror32; sym_check(n && !e && !strcmp(n, F[i].name), "an id maps to its name"); sym_check(Fldid32((char *)F[i].name) == id[i], "a name maps to its type and number"); } 
    static const char *un[] = {"AA_", "B", "", "aa", "AA_22"}; int u = var == 0 && k ? sym_pick("unknown", 0, 4) : (layout + var + k) % 5; FLDID32 x = Fldid32((char *)un[u]); int e = Ferror32; sym_check(x == BADFLDID && e == FBADNAME, "a name that is not listed is unknown"); FLDID32 y = id[0] ^ (u == 1 ? 1 : u == 2 ? 1 << 24 : 1 << 23); if (u == 4) y = BADFLDID; sym_assume(y != id[0] && y != id[1] && y != id[2]); char *n = Fname32(y); e = Ferror32; sym_check(!n && e == FBADFLD, "an id that is not listed is unknown");
    if (k == 0) { int un = var == 0 ? sym_pick("unload", 0, 2) : var; if (un == 0) break; if (un == 1) Fidnm_unload32(); else if (un == 2) Fnmid_unload32(); else break; sym_reach("unloaded"); } }
  if (var == 1 || var == 3) { static char *argv[] = {(char *)"mkfldhdr32", (char *)"t1", nullptr}; int rc = mkfldhdr_main(2, argv); sym_check(rc == 0, "a header is made"); static char h[2000]; long n = env_get_file("./t1.h", h, sizeof h - 1); sym_check(n > 0, "a header is made"); if (n > 0) { h[n] = 0; HDR = h; for (int i = 0; i < (files ? 2 : 3); i++) { std::string w = "#define " + std::string(F[i].name) + "\t((FLDID32)" + std::to_string(id[i]) + ")\t"; sym_check(strstr(h, w.c_str()) != nullptr, "the header defines the field as its id"); } int defs = 0; for (const char *p = h; (p = strstr(p, "#define ")); p++) defs++; sym_check(defs == (files ? 2 : 3), "the header defines the fields of the table only"); sym_reach("header"); } }
  sym_reach("end");
}
}
