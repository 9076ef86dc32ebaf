// C22: any text (a symbolic stretch in a template) as a field table: it reads as the grammar says or is refused as a whole
#include "sym.h"
#include "env.h"
#include <map>
#include <string>
#include <vector>
#include <fml32.h>
#define main mkfldhdr_main
#include "mkfldhdr32.cpp"
#undef main
namespace hx {
#ifdef THOROUGH
#define X 1
#else
#define X 0
#endif
static const struct { const char *pre; int n; const char *post; } T[] = {
  {"", 3 + X, ""}, {"A ", 2 + X, " short\nB 2 char\n"}, {"A 1 short\nB", 2 + X, "2 char\n"}, {"*base ", 2 + X, "0\nA 1 long\n"}, {"*base", 2 + X, "1\nA 1 long\n"}, {"A 1 sho", 2 + X, "\nB 2 char"}, {"A 1 short", 2 + X, "B 2 char\n"}, {"A 1 short\n", 2 + X, " 2 char\n"}, {"A 1677721", 2 + X, " string\n"}, {"*base 1677721", 2 + X, "\nA 9 string\n"}, {"A ", 1, "9999999999999999999 string\n"}, {"A 429496729", 1 + X, " string\n"}, {"*base 1844674407370955161", 1 + X, "\nA 9 string\n"}, {"*", 2 + X, "se 1\nA 9 string\n"}};
struct bad {}; static const unsigned char *t; static int n, i; static int at() { return i < n ? t[i] : -1; } static bool dig(int c) { return c >= '0' && c <= '9'; } static bool alpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static void blanks() { if (at() != ' ' && at() != '\t') throw bad(); while (at() == ' ' || at() == '\t') i++; } static void rest() { while (at() != -1 && at() != '\n') i++; }
static std::string word() { if (!alpha(at())) throw bad(); std::string s; while (alpha(at()) || dig(at()) || at() == '_') s += (char)t[i++]; return s; }
static long num() { if (!dig(at())) throw bad(); long v = 0; while (dig(at())) { v = v * 10 + (t[i++] - '0'); if (v > 0xffffff) v = 0x1000000; } if (v > 0xffffff) throw bad(); return v; }
struct field { std::string name; FLDID32 id; };
static std::vector<field> grammar() { static const std::map<std::string, int> ty = {{"short", 0}, {"long", 1}, {"char", 2}, {"float", 3}, {"double", 4}, {"string", 5}, {"carray", 6}, {"fml32", 10}}; std::vector<field> r; long base = 0; for (;;) { int c = at(); if (c == '#' || c == '$') rest(); else if (c == '*') { i++; std::string w = word(); if (w != "base") throw bad(); blanks(); base = num(); while (at() == ' ' || at() == '\t') i++; if (at() == '#') rest(); } else if (alpha(c)) { std::string name = word(); blanks(); long no = num(); blanks(); auto f = ty.find(word()); rest(); if (f == ty.end() || base + no < 1 || base + no > 0xffffff) throw bad(); r.push_back({name, (FLDID32)(f->second << 24 | (base + no))}); } else if (c == ' ' || c == '\t' || c == '\r' || c == '\v' || c == '\f') i++; if (at() == -1) return r; if (at() != '\n') throw bad(); i++; } }
extern "C" void harness_main() {
  auto &s = T[sym_case()]; static char txt[100]; int k = strlen(s.pre); memcpy(txt, s.pre, k); sym_bytes(txt + k, s.n, "t"); k += s.n; memcpy(txt + k, s.post, strlen(s.post)); k += strlen(s.post); t = (unsigned char *)txt; n = k; i = 0;
  bool ok = true; std::vector<field> want; try { want = grammar(); } catch (const bad &) { ok = false; }
  static const char first[] = "FIRST 77 short\n"; env_put_file("t0", first, sizeof first - 1); env_put_file("t1", txt, k); env_set("FIELDTBLS32", "t0,t1"); env_set("FLDTBLDIR32", "."); 
  if (!ok) { for (int r = 0; r < 2; r++) { FLDID32 x = Fldid32((char *)(r ? "FIRST" : "A")); int e = Ferror32; sym_check(x == BADFLDID && e == FFTSYNTAX, "a table with an error is reported"); char *m = Fname32(77); e = Ferror32; sym_check(!m && e == FFTSYNTAX, "a table with an error is reported"); } sym_reach("refused"); }
  else { sym_check(Fldid32((char *)"FIRST") == 77, "the fields of the other table"); for (size_t a = 0; a < want.size(); a++) { bool other = false; for (size_t b = 0; b < want.size(); b++) other |= b != a && (want[a].name == want[b].name || want[a].id == want[b].id); if (other || want[a].name == "FIRST" || want[a].id == 77) continue; sym_check(Fldid32((char *)want[a].name.c_str()) == want[a].id, "a name maps to its type and number"); char *m = Fname32(want[a].id); sym_check(m && want[a].name == m, "an id maps to its name"); } bool hasA = false; for (auto &f : want) hasA |= f.name == "ZZ"; if (!hasA) { FLDID32 x = Fldid32((char *)"ZZ"); int e = Ferror32; sym_check(x == BADFLDID && e == FBADNAME, "a name that is not listed is unknown"); } sym_reach("accepted"); }
  static char *argv[] = {(char *)"mkfldhdr32", (char *)"t1", nullptr}; int rc = mkfldhdr_main(2, argv); static char h[8]; sym_check((rc == 0) == ok && (env_get_file("./t1.h", h, 0) >= 0) == ok, "a header is made of tables without errors only");
}
}
