// C25: the server, client and transaction-manager builders: what is generated and what is compiled, for any services, files and resource managers
#include "sym.h"
#include "env.h"
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <algorithm>
#include <cstring>
#define main buildserver_main
#include "buildserver.cpp"
#undef main
#define main buildclient_main
#include "buildclient.cpp"
#undef main
#define main buildtms_main
#include "buildtms.cpp"
#undef main
namespace hx {
static int ran, status; static std::string cmd, code, cfile; static bool gone;
static int onsystem(const char *c) { ran++; cmd = c; size_t a = cmd.find(' '), b = cmd.find(' ', a + 1); cfile = cmd.substr(a + 1, b - a - 1); static char buf[6000]; long n = env_get_file(cfile.c_str(), buf, sizeof buf); gone = n < 0; code = n > 0 ? std::string(buf, n) : ""; return status << 8; }
static bool has(const std::string &s, const std::string &w) { return s.find(w) != std::string::npos; }
static std::string name(const char *n, const char *rest) { std::string s(1, 'A' + sym_range(n, 0, 25)); return s + rest; }
static std::string lng(const char *nm, const char *rest) { std::string b = name(nm, rest); static const int n[] = {0, 300, 1500}; int k = sym_pick("long", 0, 2); return b + std::string(n[k], 'd'); }
static int count(const std::string &s, const std::string &w) { int n = 0; for (size_t p = 0; (p = s.find(w, p)) != std::string::npos; p++) n++; return n; }
static std::string word(const std::string &s, size_t p, const char *skip) { while (p < s.size() && strchr(skip, s[p])) p++; size_t e = p; while (e < s.size() && !strchr(", \n{};\"&", s[e])) e++; return s.substr(p, e - p); }
extern "C" void harness_main() {
  int c = sym_case(); env_set("TUXDIR", "tux"); env_on_system = onsystem; bool cc = sym_bool("compiler given"), cf = sym_bool("flags given"); if (cc) env_set("CC", "gcc-9"); if (cf) env_set("CFLAGS", "-g -O2"); status = sym_pick("compiler says", 0, 1) * 3; std::string CC = cc ? "gcc-9" : "cc"; std::ostringstream out, er; auto *o0 = std::cout.rdbuf(out.rdbuf()); auto *e0 = std::cerr.rdbuf(er.rdbuf()); std::vector<std::string> a; auto run = [&](int (*m)(int, char **)) { std::vector<const char *> v; for (auto &s : a) v.push_back(s.c_str()); v.push_back(nullptr); int rc = m(a.size(), (char **)&v[0]); std::cout.rdbuf(o0); std::cerr.rdbuf(e0); return rc; };
  if (c < 6) { // 0 services, 1 files, 2 resource managers, 3 malformed resource managers, 4 no place for the file, 5 options
    std::string o = c == 1 ? lng("o", "srv") : "srv"; a = {"buildserver", "-o", o}; int ns = c == 0 ? sym_pick("services", 0, 3) : 1; std::vector<std::pair<std::string, std::string>> sv; for (int i = 0; i < ns; i++) { int k = c == 0 ? sym_pick("form", 0, 2) : 0; std::string n = name("service", i ? "x" : "SVC"), f = name("function", "fn"); if (k == 0) f = n; if (k == 2) n = ""; a.push_back("-s"); a.push_back(k == 0 ? n : n + ":" + f); sv.push_back({n, f}); }
    int nf = c == 1 ? sym_pick("first", 0, 2) : 1, nl = c == 1 ? sym_pick("last", 0, 2) : 0; std::vector<std::string> ff, lf; for (int i = 0; i < nf; i++) { ff.push_back(name("f", ".c -I x")); a.push_back("-f"); a.push_back(ff.back()); } for (int i = 0; i < nl; i++) { lf.push_back(name("l", "lib.a")); a.push_back("-l"); a.push_back(lf.back()); }
    bool threads = c != 3 && sym_bool("threads"), keep = (c == 5 || c == 0) && sym_bool("keep"), verbose = c == 5 && sym_bool("verbose"); if (threads) a.push_back("-t"); if (keep) a.push_back("-k"); if (verbose) a.push_back("-v"); std::string sw = "tmnull_switch", lflags; bool unknown = false, bad = false;
    if (c == 2 || c == 3) { std::string rm; bool com = sym_bool("comment"); if (com) rm += "# RM:x:y\n\n"; std::string s1 = name("switch", "sw1"), s2 = name("switch", "sw2"); rm += "ONE:" + s1 + ":-lone -L/x\n"; bool second = sym_bool("second"); if (second) rm += "TWO:" + s2 + ":\n"; if (c == 3) { int k = sym_pick("malformed", 0, 2); rm += k == 0 ? "THREE\n" : k == 1 ? "THREE:sw\n" : "THREE:sw"; bad = true; } bool nofile = c == 2 && sym_bool("no file"); if (!nofile) env_put_file("tux/udataobj/RM", rm.data(), rm.size()); int k = sym_pick("resource manager", 0, 2); a.push_back("-r"); a.push_back(k == 0 ? "ONE" : k == 1 ? "TWO" : "NONE"); if (k == 0) { sw = s1; lflags = "-lone -L/x"; } if (k == 1) sw = s2; unknown = nofile || k == 2 || (k == 1 && !second); }
    if (c == 4) { env_faults = F_MKSTEMP; env_fault_budget = 1; } int rc = run(buildserver_main);
    if (bad || unknown || env_fault_hit) { sym_check(rc != 0 && !ran && !er.str().empty(), "an unknown or malformed resource manager, or a file that cannot be written, is an error and nothing is compiled"); sym_check(env_file_count() == (c == 2 || c == 3 ? (env_get_file("tux/udataobj/RM", nullptr, 0) >= 0) : 0), "nothing is left behind"); sym_reach("refused"); return; }
    sym_check(ran == 1 && !gone, "the generated program is compiled once"); sym_check(rc == status, "the compiler's result is the result"); std::string want = CC + " " + cfile + " -Itux/include"; for (auto &f : ff) want += " " + f; want += " -Ltux/lib"; if (c == 2) want += " " + lflags; want += " -lfuxedo -lpthread -o " + o; for (auto &l : lf) want += " " + l; want += " "; if (cf) want += "-g -O2"; sym_check(cmd == want, "the compiler is given exactly the files, libraries and flags asked for, in order"); sym_check(cfile.size() > 2 && cfile.substr(cfile.size() - 2) == ".c", "a C program");
    sym_check(env_get_file(cfile.c_str(), nullptr, 0) >= 0 ? keep : !keep, "the generated program is kept exactly when asked"); if (verbose) { sym_check(has(out.str(), cmd), "the command is shown when asked"); } else sym_check(out.str().empty(), "nothing is shown unless asked");
    size_t p = code.find("_tmdsptchtbl[] = {"); sym_check(p != std::string::npos, "there is a table of services"); p = code.find('{', p) + 1; for (size_t i = 0; i <= sv.size(); i++) { p = code.find('{', p); sym_check(p != std::string::npos, "table"); size_t e = code.find('}', p); std::string ent = code.substr(p + 1, e - p - 1), w = i < sv.size() ? "\"" + sv[i].first + "\", \"" + sv[i].second + "\", " + sv[i].second + ", 0, 0, NULL" : "NULL, NULL, NULL, 0, 0, NULL"; sym_check(ent == w, "the table has one entry for every service asked for, in order, and an end"); p = e; if (i < sv.size()) sym_check(has(code.substr(0, code.find("_tmdsptchtbl")), "void " + sv[i].second + "(TPSVCINFO *);"), "every function is declared"); }
    size_t q = code.find("tmsvrargs = {"); sym_check(q != std::string::npos && word(code, q + 13, " \n&") == sw && has(code, "extern struct xa_switch_t " + sw + ";"), "the server uses the resource manager asked for"); sym_check(count(code, threads ? "_tmbuilt_with_thread_option = 1;" : "_tmbuilt_with_thread_option = 0;") == 1 && count(code, "_tmbuilt_with_thread_option =") == 1, "the server is multi-threaded exactly when asked"); sym_check(has(code, "_tmstartserver(argc, argv, _tmgetsvrargs())"), "the program starts the server"); sym_reach("server"); if (c == 2) sym_reach("resource manager"); if (keep) sym_reach("kept"); }
  else if (c == 6) { std::string o = lng("o", "cl"); a = {"buildclient", "-o", o}; int nf = sym_pick("first", 0, 2), nl = sym_pick("last", 0, 2); std::string want = CC + " -Itux/include"; for (int i = 0; i < nf; i++) { a.push_back("-f"); a.push_back(i ? name("f", ".c") : lng("f", ".c")); want += " " + a.back(); } want += " -Ltux/lib -lfuxedo -lpthread -o " + o; for (int i = 0; i < nl; i++) { a.push_back("-l"); a.push_back(name("l", ".a")); want += " " + a.back(); } bool v = sym_bool("verbose"); if (v) a.push_back("-v"); int rc = run(buildclient_main); sym_check(ran == 1 && rc == status && cmd == want, "the compiler is given exactly the files and libraries asked for, in order"); sym_check(v ? has(out.str(), cmd) : out.str().empty(), "the command is shown when asked"); sym_reach("client"); }
  else { a = {"buildtms", "-o"}; a.push_back(lng("o", "tms")); a.push_back("-r"); a.push_back(lng("r", "RM")); bool v = sym_bool("verbose"); if (v) a.push_back("-v"); int rc = run(buildtms_main); sym_check(ran == 1 && rc == status && cmd == "$TUXDIR/bin/buildserver -r \"" + a[4] + "\" -o \"" + a[2] + "\" -s .TM:TM" + (v ? " -v" : ""), "a transaction manager is a server of the resource manager with the service .TM"); sym_reach("transaction manager"); }
  sym_reach("end");
}
}
