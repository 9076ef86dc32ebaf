// C19: any text (a symbolic stretch in a template) either reads as what the grammar says or is refused
#include "sym.h"
#include "env.h"
#include <sstream>
#include <string>
#include "ubbreader.h"
#ifdef THOROUGH
#define X 1
#else
#define X 0
#endif
static const struct { const char *pre; int n; const char *post; } T[] = {
  {"", 3 + X, ""}, {"*RESOURCES\nA", 2 + X, "1\n"}, {"*GROUPS\nG K", 2 + X, "V\n"}, {"*GROUPS\nG K=V", 2 + X, "L=W\nH\n"}, {"*", 2 + X, "\nA B=C\n"}, {"*SERVERS\n\"", 2 + X, "\" K=\"V\"\n"}, {"*MACHINES\nm L=\"a", 2 + X, "b\"\n"}, {"*GROUPS\nG K=V\n", 2 + X, " L=W\n"}, {"*RESOURCES\nA 1\n", 2 + X, "B 2\n"}, {"*NOTHING\nA K=V\n*GROUPS", 2 + X, "G K=V\n"}};
// ---- the grammar, on a byte string
struct bad {}; typedef std::vector<std::pair<std::string, std::map<std::string, std::string>>> list;
static const unsigned char *t; static int n, i; static bool sp(int c) { return c == ' ' || c == '\t' || c == '\r' || c == '\v' || c == '\f'; } static int at() { return i < n ? t[i] : -1; }
static bool blanks() { int j = i; while (sp(at())) i++; return i > j; } static bool alpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static bool word(std::string &s) { s = ""; if (at() == '"') { i++; while (at() != '"') { if (at() == -1) throw bad(); s += (char)t[i++]; } i++; return true; } if (at() == -1 || at() == '#' || at() == '\n' || sp(at())) return false; do s += (char)t[i++]; while (at() != -1 && at() != '#' && at() != '=' && at() != '\n' && !sp(at())); return true; }
static bool line_end() { blanks(); if (at() == '#') while (at() != -1 && at() != '\n') i++; if (at() != '\n') return false; i++; return true; }
struct result { std::map<std::string, std::string> res; list mach, grp, srv; };
static result grammar() { result r; r.res = ubbconfig().resources; std::string section; for (;;) { if (line_end()) continue; if (at() == -1) return r; if (at() == '*') { i++; if (!alpha(at())) throw bad(); section = ""; while (alpha(at()) || (at() >= '0' && at() <= '9') || at() == '_') section += (char)t[i++]; if (!line_end()) throw bad(); continue; }
    std::string name, k, v; if (!word(name)) throw bad(); blanks(); if (section == "RESOURCES") { if (!word(v)) throw bad(); blanks(); if (at() != '\n') throw bad(); i++; r.res[name] = v; continue; }
    std::map<std::string, std::string> p; for (;;) { blanks(); if (at() == '\n') { i++; if (!blanks()) break; } if (!word(k)) throw bad(); blanks(); if (at() != '=') throw bad(); i++; blanks(); if (!word(v)) throw bad(); p.insert({k, v}); } if (section == "SERVERS") r.srv.push_back({name, p}); if (section == "GROUPS") r.grp.push_back({name, p}); if (section == "MACHINES") r.mach.push_back({name, p}); } }
template <class A, class B> static bool same(const A &a, const B &b) { if (a.size() != b.size()) return false; auto q = b.begin(); for (auto &e : a) { if (e.first != q->first) return false; auto &p = q->second; if (p.size() != e.second.size()) return false; for (auto &kv : e.second) { auto f = p.find(kv.first); if (f == p.end() || f->second != kv.second) return false; } ++q; } return true; }
extern "C" void harness_main() {
  auto &s = T[sym_case()]; static char txt[100]; int k = strlen(s.pre); memcpy(txt, s.pre, k); sym_bytes(txt + k, s.n, "t"); k += s.n; memcpy(txt + k, s.post, strlen(s.post)); k += strlen(s.post); t = (unsigned char *)txt; n = k; i = 0;
  bool ok = true; result want; try { want = grammar(); } catch (const bad &) { ok = false; }
  bool got = true; ubbconfig c; try { std::istringstream in(std::string(txt, k)); ubbreader p(in); c = p.parse(); } catch (const basic_parser_error &) { got = false; }
  sym_check(got == ok, ok ? "a text that follows the grammar is read" : "a text that does not follow the grammar is refused"); if (!ok) { sym_reach("refused"); return; }
  sym_check(c.resources.size() == want.res.size(), "the resources read"); for (auto &e : want.res) { auto f = c.resources.find(e.first); sym_check(f != c.resources.end() && f->second == e.second, "the resources read"); } sym_check(same(c.machines, want.mach), "the machines read"); sym_check(same(c.groups, want.grp), "the groups read"); sym_check(same(c.servers, want.srv), "the servers read"); sym_reach("accepted");
}
