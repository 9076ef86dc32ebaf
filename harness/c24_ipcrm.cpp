// C24: tmipcrm on any registry and any answers: exactly the system's own IPC resources are listed, and removed only when told so
#include "world.h"
#include <iostream>
#include <sstream>
#define main tmipcrm_main
#define print tmipcrm_print
#define input tmipcrm_input
#include "tmipcrm.cpp"
#undef main
namespace hx {
extern "C" void harness_main() {
  int c = sym_case(); mib &m = world(6, 6, 6, 4, 4); int other = fux::ipc::qcreate(), osem = fux::ipc::seminit(IPC_PRIVATE, 1); shmat(shmget(99, 64, 0600 | IPC_CREAT), nullptr, 0);
  std::vector<int> own; for (int i = 1; i < 4; i++) { m.make_server(i, 1, "s", "", "q" + std::to_string(i)); if (sym_bool("started")) own.push_back(m.make_service_rqaddr(i)); } std::vector<int> was;
  for (int i = 0; i < 3; i++) { size_t a = m.make_accesser(800 + i); int k = c == 3 || c >= 5 ? i : sym_pick("client", 0, 2); if (k >= 1) { int q = m.accessers().at(a).rpid = fux::ipc::qcreate(); if (k == 2) { fux::ipc::qdelete(q); m.accessers().at(a).invalidate(); was.push_back(q); } else own.push_back(q); } else sym_reach("killed before it had a queue"); if (k == 2 && i == 2) sym_reach("left"); }
  if (c == 4 && own.size()) { fux::ipc::qdelete(own[0]); was.push_back(own[0]); own.erase(own.begin()); sym_reach("already gone"); } int sem = m->mainsem; bool yes = c == 0 || c == 4, told = yes; bool noconf = c == 5; if (noconf) env_set("TUXCONFIG", "");
  static const char *lines[] = {"y", "n", "", "yes", "Y"}; std::string in; int asked = 0; bool decided = yes; bool help = c == 6; if (!yes) for (int i = 0; i < (noconf || help ? 1 : c); i++) { int k = sym_pick("answer", 0, 4); in += lines[k]; if (i + 1 < c || sym_bool("newline")) in += "\n"; if (!decided) { asked++; if (k == 0) told = decided = true; if (k == 1) decided = true; } }
  std::istringstream is(in); std::ostringstream out, er; auto *i0 = std::cin.rdbuf(is.rdbuf()); auto *o0 = std::cout.rdbuf(out.rdbuf()); auto *e0 = std::cerr.rdbuf(er.rdbuf()); static const char *argv[] = {"tmipcrm", "-y", nullptr}; if (help) { argv[1] = "-h"; told = false; } int rc = tmipcrm_main(yes || help ? 2 : 1, (char **)argv); std::cin.rdbuf(i0); std::cout.rdbuf(o0); std::cerr.rdbuf(e0); std::string s = out.str();
  if (noconf) { sym_check(rc != 0, "without a configuration it fails"); told = false; sym_reach("no configuration"); } else sym_check(rc == 0, "tmipcrm succeeds"); for (int q : own) sym_check(env_q_exists(q) == !told, "the system's queues are removed exactly when told so"); sym_check(env_sem_exists(sem) == !told && env_shm_exists(3000) == !told, "the lock and the registry are removed exactly when told so"); sym_check(env_q_exists(other) && env_sem_exists(osem) && env_shm_exists(3001) && !env_foreign_rm, "nothing of anybody else is removed");
  if (help) { sym_check(out.str().find("resources") == std::string::npos, "asking for help does nothing else"); sym_reach("help"); } else if (!noconf) { std::string want = "Message Queues:\n"; size_t p = s.find(want); sym_check(p != std::string::npos, "the resources are listed"); for (int q : own) sym_check(s.find("        " + std::to_string(q) + "\n", p) != std::string::npos, "every queue is listed"); sym_check(s.find("        " + std::to_string(other) + "\n") == std::string::npos && s.find(" 0\n") == std::string::npos && s.find("-1") == std::string::npos, "no queue of anybody else is listed"); sym_check(s.find("        " + std::to_string(sem) + "\n") != std::string::npos && s.find("        3000\n") != std::string::npos, "lock and registry are listed"); }
  sym_reach(told ? "removed" : "kept"); sym_reach("end");
}
}
