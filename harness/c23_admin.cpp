// C23: the console of tmadmin: every queue of any registry in one line with its true values, for any sequence of commands
#include "world.h"
#include <iostream>
#include <sstream>
#define main tmadmin_main
#include "tmadmin.cpp"
#undef main
#ifndef MAXA
#define MAXA 3
#endif
namespace hx {
static std::string left(std::string s, size_t n) { while (s.size() < n) s += ' '; return s; }
static std::string right(std::string s, size_t n) { while (s.size() < n) s = ' ' + s; return s; }
static std::string text, errs; static size_t pos; static int rc;
static void run(const std::string &in, const char *o1 = nullptr) {
  std::istringstream is(in); std::ostringstream out, er; auto *i0 = std::cin.rdbuf(is.rdbuf()); auto *o0 = std::cout.rdbuf(out.rdbuf()); auto *e0 = std::cerr.rdbuf(er.rdbuf());
  static const char *argv[3]; argv[0] = "tmadmin"; argv[1] = o1; argv[2] = nullptr; rc = tmadmin_main(o1 ? 2 : 1, (char **)argv);
  std::cin.rdbuf(i0); std::cout.rdbuf(o0); std::cerr.rdbuf(e0); std::cin.clear(); text = out.str(); errs = er.str(); pos = 0; }
static std::string line() { size_t e = text.find('\n', pos); sym_check(e != std::string::npos, "the report has all its lines"); std::string s = text.substr(pos, e - pos); pos = e + 1; return s; }
static void prompt() { sym_check(text.compare(pos, 2, "> ") == 0, "every command is answered before the next one is asked for"); pos += 2; }
static unsigned char *base; static size_t size; static uint64_t snap[8192];
extern "C" void harness_main() {
  int c = sym_case(); mib &m = world(6, 4, 6, 4, 4); checked_copy("site", m.mach().lmid); base = (unsigned char *)env_shm_ptr(0); size = env_shm_size(0) / 8 * 8; 
  if (c == 0) { // options
    int k = sym_pick("option", 0, 3); static const char *o[] = {"-h", "--help", "-v", "--nothing"}; run("pq\n", o[k]); sym_check(text.find("Queue Name") == std::string::npos && text.find("> ") == std::string::npos, "asking for help or the version opens no console");
    if (k < 2) sym_check(rc == 0 && text.find("usage") != std::string::npos && text.find("tmadmin") != std::string::npos, "help is shown"); else if (k == 2) sym_check(rc == 0 && text.find(VERSION) != std::string::npos && text.find("usage") == std::string::npos, "the version is shown"); else sym_check(rc != 0 && text.empty() && errs.find("usage") != std::string::npos, "an unknown option is refused"); sym_reach("option"); return; }
  int ns = c == 1 ? sym_pick("servers", 0, MAXA) : c == 2 ? 2 : 1; std::vector<std::string> qn{".BBL"}, sn{"BBL"}; std::vector<int> cnt{1}; static const char *qs[] = {"q", "queue0", "a.queue.of.some.length"}; for (int i = 0; i < ns; i++) { std::string name = i == 1 ? "a.server.of.some.length" : "s"; if (i == 0) name += c != 1 || ns > 1 ? 'x' : (char)sym_range("name", 'a', 'z'); int k = c == 1 ? sym_pick("queue", 0, 2) : i; std::string q = qs[k]; m.make_server(10 + i, 1, name, "", q); size_t j = 0; while (j < qn.size() && qn[j] != q) j++; if (j == qn.size()) qn.push_back(q), sn.push_back(""), cnt.push_back(0); cnt[j]++; sn[j] += "|" + name + "|"; }
  int n = c == 1 ? 1 : c, k[8]; std::string in; static const char *cmd[] = {"pq", "printqueue", "h", "help", "", "pqx", "p", " pq"}; for (int i = 0; i < n; i++) { k[i] = c == 1 ? sym_pick("command", 0, 1) : c == 2 ? sym_pick("command", 0, 7) : sym_pick("command", 0, 4); in += cmd[k[i]]; if (i + 1 < n || k[i] == 4 || sym_bool("newline")) in += "\n"; }
  memcpy(snap, base, size); run(in); uint64_t *w = (uint64_t *)base; for (size_t i = 0; i < size / 8; i++) sym_check(w[i] == snap[i], "a report changes nothing"); sym_check(env_lock_depth == 0, "the lock is given back"); sym_check(rc == 0 && errs.empty(), "the console ends without a failure");
  for (int i = 0; i < n; i++) { prompt(); if (k[i] < 2) { sym_check(line().compare(0, 9, "Prog Name") == 0 && line().compare(0, 3, "---") == 0, "the report has its headings"); for (size_t j = 0; j < qn.size(); j++) { std::string l = line(); // a queue of several servers names one of them
          size_t sp = l.find(' '); std::string first = l.substr(0, sp); if (j) sym_check(sn[j].find("|" + first + "|") != std::string::npos, "a queue is listed with a server of it"); else sym_check(first == "BBL", "a queue is listed with a server of it"); sym_check(l == left(first, 14) + " " + left(qn[j], 9) + " " + right(std::to_string(cnt[j]), 9) + " " + right("0", 9) + " " + right("0", 9) + " " + right("0", 9) + "     " + left("site", 8), "every queue is listed once with its true values"); sym_reach("queue"); } }
    else if (k[i] < 4) { sym_check(line().compare(0, 4, "help") == 0, "help lists the commands"); sym_check(line().compare(0, 10, "printqueue") == 0, "help lists the commands"); sym_check(line().compare(0, 11, "printserver") == 0, "help lists the commands"); sym_reach("help"); } else sym_reach("nothing"); }
  prompt(); sym_check(pos == text.size(), "nothing more is reported"); sym_reach("end");
}
}
