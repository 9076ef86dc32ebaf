// C12: starting and stopping a system: every change to the registry is made under its lock, and nothing other processes do meanwhile is lost
#include "world.h"
#include <iostream>
#include <sstream>
#include "fux.h"
#include <tpadm.h>
#define main tmboot_main
#define start tmboot_start
#include "tmboot.cpp"
#undef start
#undef main
#define main tmshutdown_main
#include "tmshutdown.cpp"
#undef main
namespace hx {
static mib *M; static unsigned char *base; static size_t size; static uint64_t snap[8192]; static bool watching; static int acts = 1, cur = -1; static bool o_acc, o_adv, o_pid; static size_t osrv; static int omsq, outcome, life[512];
static uint64_t *own_timeout() { static uint64_t none; for (size_t i = 0; i < M->accessers()->len; i++) { auto &a = M->accessers().at(i); if (a.pid == env_pid) return (uint64_t *)&a.rpid_timeout; } return &none; }
static void save() { memcpy(snap, base, size); }
static void compare() { if (!watching) return; uint64_t *w = (uint64_t *)base, *t = own_timeout(); for (size_t i = 0; i < size / 8; i++) if (w[i] != snap[i] && w + i != t) sym_fail("the registry is changed only by holders of its lock"); }
static void others() { if (!acts || !sym_bool("another process acts")) return; acts--; int k = sym_pick("act", 0, 2); if (k == 0) { size_t i = M->make_accesser(900); M->accessers().at(i).rpid = omsq; o_acc = true; } else if (k == 1) { M->advertise("NEW", M->servers().at(osrv).rqaddr, osrv); o_adv = true; } else { M->servers().at(osrv).pid = 0; o_pid = true; } sym_reach("another process"); }
static void on_lock(int) { sym_check(env_lock_depth == 1, "the lock is not taken twice"); compare(); others(); save(); }
static void on_unlock(int) { save(); }
static void oncall(const char *) { if (!env_lock_depth) compare(); }
static void world_acts(int i) { if (!env_lock_depth) { compare(); M->servers().at(i).state = state_t::ACTive; save(); } } // the server itself, under its lock
static int onfork() { sym_check(!env_lock_depth, "the lock is not held while a process is started"); compare(); for (cur++; cur == 2 || M->servers().at(cur).pid; cur++) ; if (outcome == 2) return -EAGAIN; life[200 + cur] = 1; return 200 + cur; }
static void onsleep() { sym_check(!env_lock_depth, "the lock is not held while waiting"); compare(); if (outcome == 0) world_acts(cur); else life[200 + cur] = 0; }
static int onkill(int p, int) { return p == env_pid || life[p] ? 0 : -ESRCH; }
static int onwait(int p, int *, int) { return life[p] ? 0 : p; }
static int onempty(int id, long) { sym_check(!env_lock_depth, "the lock is not held while waiting"); compare(); for (int i = 3; i >= 0; i--) { auto &v = M->servers().at(i); int q = M->queues().at(v.rqaddr).msqid; if (env_q_len(q) <= 0) continue; fux::ipc::msg r; fux::ipc::qrecv(q, r, 0, 0); v.state = state_t::INActive; save(); fux::ipc::msg a; a.set_data(nullptr, 0); a->mtype = r->cd; a->cd = r->cd; a->rval = outcome ? TPESVCERR : TPMINVAL; a->cat = fux::ipc::application; a->flags = 0; a->rcode = 0; fux::ipc::qsend(id, a, 0, fux::ipc::noblock); return 1; } sym_fail("waits for an answer nobody gives"); }
extern "C" void harness_main() {
  int c = sym_case(); M = &world(6, 6, 6, 4, 4); mib &m = *M; m.mach().blocktime = 15000; env_set("PATH", "/bin"); m.make_group(1, "GA", "", "", ""); base = (unsigned char *)env_shm_ptr(0); size = env_shm_size(0) / 8 * 8; sym_check(base && size < sizeof snap, "the registry"); bool boot = c == 0; outcome = sym_pick("outcome", 0, 2);
  for (int i = 1; i < 4; i++) m.make_server(i, 1, "srv", "", "q" + std::to_string(i)); osrv = 2; for (int i = 0; i < 4; i++) { auto &v = m.servers().at(i); v.autostart = i != 2; m.make_service_rqaddr(i); bool run = !boot || i == 2 || sym_bool("running"); v.pid = run ? 100 + i : 0; v.state = run ? state_t::ACTive : state_t::INActive; life[100 + i] = 1; } omsq = m.queues().at(m.servers().at(2).rqaddr).msqid;
  env_on_lock = on_lock; env_on_unlock = on_unlock; env_on_call = oncall; env_on_fork = onfork; env_on_sleep = onsleep; env_on_kill = onkill; env_on_wait = onwait; env_on_empty = onempty; env_faults = F_SEMOP; env_fault_budget = c == 2 ? 1 : 0; save(); watching = true;
  std::ostringstream out, er; auto *o0 = std::cout.rdbuf(out.rdbuf()); auto *e0 = std::cerr.rdbuf(er.rdbuf()); static const char *ba[] = {"tmboot", "-y", nullptr}, *sa[] = {"tmshutdown", "-g", "GA", nullptr}; if (boot) tmboot_main(2, (char **)ba); else tmshutdown_main(3, (char **)sa); std::cout.rdbuf(o0); std::cerr.rdbuf(e0); compare(); watching = false; env_faults = 0; sym_check(!env_lock_depth, "the lock is given back");
  int n = 0, k = 0; for (size_t i = 0; i < m.accessers()->len; i++) n += m.accessers().at(i).pid == 900 && m.accessers().at(i).rpid == omsq; sym_check(n == o_acc, "a registration made meanwhile is kept"); size_t s = m.find_service("NEW"); for (size_t i = 0; i < m.advertisements()->len; i++) k += m.advertisements().at(i).service == s && s != mib::badoff; sym_check(k == o_adv, "an advertisement made meanwhile is kept"); sym_check(m.servers().at(2).pid == (o_pid ? 0 : 102), "what the monitor has found is kept"); sym_reach(boot ? "started" : "stopped"); sym_reach("end");
}
}
