// C20: one monitor pass while a client notes its time, ends, starts or is replaced, or a server is started, before any access of the monitor to the shared registry
#include "shared.h"
#include "world.h"
#include "watchdog.h"
namespace hx {
static mib *M; static int life[128]; static const int NA = 2; static int q[NA], fresh = -1, what, who; static long now;
static int onkill(int pid, int sig) { sh_access(sh_lo); return life[pid] ? 0 : -ESRCH; }
static std::chrono::steady_clock::time_point at(long ns) { return std::chrono::steady_clock::time_point(std::chrono::nanoseconds(ns)); }
static void join(int pid) { auto l = M->data_lock(); life[pid] = 1; size_t i = M->make_accesser(pid); fresh = M->accessers().at(i).rpid = fux::ipc::qcreate(); }
static void leave(int i) { auto l = M->data_lock(); fux::ipc::qdelete(M->accessers().at(i).rpid); M->accessers().at(i).invalidate(); life[50 + i] = 0; }
static bool acted; static void other() { acted = true;
  if (what == 0) M->accessers().at(who).rpid_timeout = INVALID_TIME; // its reply came
  else if (what == 1) M->accessers().at(who).rpid_timeout = at(now + 1000); // waits again
  else if (what == 2) leave(who);
  else if (what == 3) { leave(who); join(60); } // another client gets its place
  else if (what == 4) join(60);
  else { auto l = M->data_lock(); M->servers().at(1).pid = 71; life[71] = 1; } } // a server is started (its predecessor is dead)
extern "C" void harness_main() {
  int c = sym_case(); mib &m = world(); M = &m; env_on_kill = onkill; now = 5000000000000L; long to[NA]; bool wait[NA]; what = c; who = sym_pick("who", 0, NA - 1);
  for (int i = 0; i < NA; i++) { life[50 + i] = 1; size_t p = m.make_accesser(50 + i); auto &a = m.accessers().at(p); q[i] = a.rpid = fux::ipc::qcreate(); if ((wait[i] = sym_bool("waiting"))) { to[i] = now - 128 + sym_range("timeout", 0, 255); a.rpid_timeout = at(to[i]); } }
  size_t s = m.make_server(1, 1, "s", "", "q"); m.servers().at(s).pid = 70; m.servers().at(s).state = state_t::ACTive; life[70] = c == 5 ? 0 : 1;
  if (c < 2) sym_assume(wait[who] | c);
  sh_lo = (char *)m.operator->(); sh_hi = sh_lo + mib::needed(w_cfg); sh_may = [] { return env_lock_depth == 0; }; sh_other = other; env_on_clock = [] { sh_access(sh_lo); };
  wd_now = now; monitor_pass(); sh_other = nullptr; sym_check(sh_points > 0, "the registry is used"); sym_check(env_lock_depth == 0, "the monitor gives the lock back");
  for (int i = 0; i < NA; i++) { bool due = wait[i] && to[i] < now, changed = acted && i == who && what < 4; if (changed && what >= 2) continue; int n = env_q_len(q[i]); if (changed ? !due : true) sym_check(changed ? n == 0 : n == due, "a wake-up is sent to a caller exactly when its waiting time has passed"); else sym_check(n <= 1, "one wake-up at most"); sym_check(m.accessers().at(i).valid() && m.accessers().at(i).pid == 50 + i && m.accessers().at(i).rpid == q[i], "a live client's entry is unchanged"); sym_check(env_q_exists(q[i]), "a live client keeps its queue"); }
  if (fresh != -1) { sym_check(env_q_exists(fresh) && env_q_len(fresh) == 0, "a client that has just started is not woken up"); bool found = false; for (size_t i = 0; i < m.accessers()->len; i++) found |= m.accessers().at(i).valid() && m.accessers().at(i).rpid == fresh && m.accessers().at(i).pid == 60; sym_check(found, "a client that has just started stays registered"); sym_reach("new client"); }
  if (what == 5) { int p = m.servers().at(s).pid; sym_check(p == (acted ? 71 : 0), "a dead server is forgotten, one started in its place is not"); } else sym_check(m.servers().at(s).pid == 70, "a live server stays");
  sym_reach(acted ? "met" : "not met");
}
}
