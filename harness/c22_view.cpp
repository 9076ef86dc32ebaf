// C22: view descriptions become headers with the structure they describe, or are refused
#include "sym.h"
#include "env.h"
#include <string>
#include <vector>
#define main viewc_main
#include "viewc32.cpp"
#undef main
namespace hx {
#ifdef THOROUGH
#define X 1
#else
#define X 0
#endif
static const struct { const char *pre; int n; const char *post; } T[] = {
  {"", 3 + X, ""}, {"VIEW a", 2 + X, "END\n"}, {"VIEW a\nlong b - 1 - - -", 2 + X, "END\n"}, {"VIEW a\nlong b - ", 2 + X, " - - -\nEND\n"}, {"VIEW a\nstring b - 2 ", 2 + X, " 3 \"x\"\nEND\n"}, {"VIEW a\nstring b F 2 - ", 2 + X, " -\nEND\n"}, {"VIEW a\nlong ", 2 + X, " - 1 - - -\nEND\n"}, {"VIEW a\nlong b - 1 - ", 1 + X, " -\nEND\n"}, {"VIEW a\n", 2 + X, "a\n$raw\nEND\n"}, {"VIEW a\nlong b - 1 - - -\nEN", 2 + X, "\n"}, {"VIEW a\nEND\n", 2 + X, ""}, {"VIEW a\nlong b - 1 - - -\nEND\n", 1, "ng c - 1 - - -\n"}, {"long c - 1 - - -\nVIEW ", 1 + X, "\nEND"}, {"VIEW a\nlong b - 9999999999999999999", 1, " - - -\nEND\n"}};
struct bad {}; static const unsigned char *t; static int n, i; static int at() { return i < n ? t[i] : -1; } static bool dig(int c) { return c >= '0' && c <= '9'; } static bool alpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static void blanks() { if (at() != ' ' && at() != '\t') throw bad(); while (at() == ' ' || at() == '\t') i++; } static std::string rest() { std::string s; while (at() != -1 && at() != '\n') s += (char)t[i++]; return s; }
static std::string word() { if (!alpha(at())) throw bad(); std::string s; while (alpha(at()) || dig(at()) || at() == '_') s += (char)t[i++]; return s; }
static std::string num() { if (!dig(at())) throw bad(); std::string s; while (dig(at())) s += (char)t[i++]; if (s.size() > 18) throw bad(); return s; } static std::string oword() { if (at() == '-') { i++; return ""; } return word(); } static std::string onum() { if (at() == '-') { i++; return ""; } return num(); }
static std::string grammar() { std::string o; bool open = false, done = false; for (;;) { int c = at(); if (c == '#') rest(); else if (c == '$') { i++; o += rest() + "\n"; } else if (alpha(c)) { std::string w = word(); if (w == "END") { if (!open || done) throw bad(); done = true; o += "};\n"; } else if (w == "VIEW") { if (open) throw bad(); blanks(); o += "struct " + word() + " {\n"; open = true; } else { if (!open || done) throw bad(); blanks(); std::string name = word(); blanks(); oword(); blanks(); long count = atol(num().c_str()); blanks(); std::string fl = oword(); blanks(); std::string size = onum(); blanks(); rest(); bool text = w == "string" || w == "carray"; if (!size.empty() && !text && w != "dec_t") throw bad(); for (char f : fl) if (f != 'C' && f != 'L') throw bad();
      std::string dim = count > 1 ? "[" + std::to_string(count) + "]" : ""; if (fl.find('L') != std::string::npos) o += "\tunsigned int\tL_" + name + dim + ";\n"; if (fl.find('C') != std::string::npos) o += "\tint\tC_" + name + ";\n"; o += "\t" + (text ? "char" : w) + "\t" + name + dim + (size.empty() ? "" : "[" + size + "]") + ";\n"; } } else if (c == ' ' || c == '\t' || c == '\r' || c == '\v' || c == '\f') i++; if (at() == -1) { if (!done) throw bad(); return o; } if (at() != '\n') throw bad(); i++; } }
extern "C" void harness_main() {
  fx_fmt_exact = 1; auto &s = T[sym_case()]; static char txt[100]; int k = strlen(s.pre); memcpy(txt, s.pre, k); sym_bytes(txt + k, s.n, "t"); k += s.n; memcpy(txt + k, s.post, strlen(s.post)); k += strlen(s.post); t = (unsigned char *)txt; n = k; i = 0;
  bool ok = true; std::string want; try { want = grammar(); } catch (const bad &) { ok = false; }
  static const char *paths[] = {"v.v", "d/v.v", "v", "d.d/v"}, *outs[] = {"./v.h", ".//v.h", "./v.h", ".//v.h"}; int p = sym_case() % 4; 
  if (p == 1) env_mkdir("d"); if (p == 3) env_mkdir("d.d"); env_put_file(paths[p], txt, k); const char *argv[] = {"viewc32", "-n", paths[p], nullptr}; int rc = viewc_main(3, (char **)argv); static char h[4000]; long got = env_get_file(outs[p], h, sizeof h);
  if (!ok) { sym_check(rc != 0 && got == -1, "a description with an error is refused"); sym_reach("refused"); } else { sym_check(rc == 0 && got == (long)want.size() && !memcmp(h, want.data(), got), "the structure described"); sym_reach("accepted"); }
}
}
