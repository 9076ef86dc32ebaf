// C20: one monitor pass over every mix of live, dead, waiting, expired clients and live or dead servers
#include "world.h"
#include "watchdog.h"
namespace hx {
static const int NA = 3, NV = 3; static int life[128]; // by pid: 0 gone, 1 alive, 2 alive, of another user
static int onkill(int pid, int sig) { sym_check(sig == 0, "the monitor only looks at processes"); sym_check(pid > 0, "no process group is looked at"); return pid < 128 ? (life[pid] == 1 ? 0 : life[pid] == 2 ? -EPERM : -ESRCH) : -ESRCH; }
extern "C" void harness_main() {
  int c = sym_case(); mib &m = world(); env_on_kill = onkill; long now = 5000000000000L + sym_range("now", 0, 255); env_now_ns = now; int q[NA]; int kind[NA]; long to[NA]; bool wait[NA], full[NA], gone[NA];
  for (int i = 0; i < NA; i++) { kind[i] = (i == c % 3) ? sym_pick("client", 0, 4) : sym_pick("client", 0, 1) * 2 + 1; int pid = 50 + i; size_t at = m.make_accesser(pid); auto &a = m.accessers().at(at); q[i] = a.rpid = fux::ipc::qcreate(); wait[i] = full[i] = gone[i] = false;
    // kinds: 0 ended, 1 alive, 2 alive of another user, 3 dead, 4 dead before it had a queue
    life[pid] = kind[i] == 1 ? 1 : kind[i] == 2 ? 2 : 0; if (kind[i] == 4) { fux::ipc::qdelete(a.rpid); a.rpid = q[i] = -1; }
    if (kind[i] && sym_bool("waiting")) { wait[i] = true; to[i] = 5000000000000L + sym_range("timeout", 0, 255); a.rpid_timeout = std::chrono::steady_clock::time_point(std::chrono::nanoseconds(to[i])); }
    if (kind[i] == 1 && i == c % 3) { gone[i] = c >= 3 && sym_bool("queue gone"); if (gone[i]) fux::ipc::qdelete(q[i]); } }
  for (int i = 0; i < NA; i++) if (kind[i] == 0) { fux::ipc::qdelete(q[i]); m.accessers().at(i).invalidate(); q[i] = -1; }
  env_queue_cap = c >= 6 ? 0 : 100; int spid[NV], alive_s[NV]; for (int i = 0; i < NV; i++) { size_t s = m.make_server(i + 1, 1, "s", "", "q"); spid[i] = sym_bool("started") ? 70 + i : 0; alive_s[i] = i == c % 3 ? sym_pick("alive", 0, 2) : sym_bool("alive"); if (spid[i]) life[70 + i] = alive_s[i]; m.servers().at(s).pid = spid[i]; m.servers().at(s).state = state_t::ACTive; }
  wd_now = now; monitor_pass();
  sym_check(env_lock_depth == 0, "the monitor gives the lock back"); sym_check(env_snd_blocking == 0, "the monitor does not wait for a caller");
  for (int i = 0; i < NA; i++) { auto &a = m.accessers().at(i); bool want = kind[i] && wait[i] && to[i] < now && q[i] != -1 && !gone[i] && env_queue_cap; bool may = want || (kind[i] >= 3 && wait[i] && to[i] < now && q[i] != -1);
    if (q[i] != -1 && !gone[i] && kind[i] < 3) { int n = env_q_len(q[i]); sym_check(want ? n == 1 : n == 0, "a wake-up is sent to a caller exactly when its waiting time has passed"); if (n) { fux::ipc::msg r; fux::ipc::qrecv(q[i], r, 0, 0); sym_check(r->cat == fux::ipc::unblock, "a wake-up is a wake-up"); sym_reach("wake-up"); } } }
  sym_check(env_lock_depth == 0, "the monitor gives the lock back");
  for (int i = 0; i < NV; i++) { auto &s = m.servers().at(i + 1); sym_check(s.pid == (spid[i] && alive_s[i] ? spid[i] : 0), "a server is forgotten exactly when its process is gone"); sym_check(s.state == state_t::ACTive && s.srvid == i + 1 && s.grpno == 1, "a server's entry is otherwise unchanged"); if (spid[i] && !alive_s[i]) sym_reach("dead server"); }
  for (int i = 0; i < NA; i++) { auto &a = m.accessers().at(i); bool dead = kind[i] >= 3; sym_check(a.valid() == (kind[i] == 1 || kind[i] == 2), "a client is forgotten exactly when its process is gone"); if (kind[i] == 1 || kind[i] == 2) sym_check(a.pid == 50 + i && a.rpid == q[i] && (a.rpid_timeout.time_since_epoch().count() == (wait[i] ? to[i] : INVALID_TIME.time_since_epoch().count())), "a live client's entry is unchanged"); else sym_check(a.rpid == -1, "a free place has no queue");
    if (q[i] != -1 && !gone[i]) sym_check(env_q_exists(q[i]) == !dead, "a queue is removed exactly with its dead client"); if (dead) sym_reach("dead client"); }
  int r = m.make_accesser(99); sym_check(r <= NA && (r == NA || kind[r] == 0 || kind[r] >= 3), "a live client's place is not given away"); sym_reach("end");
}
}
