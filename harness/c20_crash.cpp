// C20: a client's note of its waiting time, and a client that is killed at any of its calls to the system
#include "world.h"
#include "watchdog.h"
namespace hx {
static mib *M; static int point, calls, replyq = -1, srvq, cd1, sent, waits, lastq = -1; static bool killed, watching, between; static jmp_buf dead; static long start, block, dl; static size_t me;
static accesser *own() { for (size_t i = 0; i < M->accessers()->len; i++) if (M->accessers().at(i).pid == 77) return &M->accessers().at(i); return nullptr; }
static long when(accesser &a) { return a.rpid_timeout.time_since_epoch().count(); }
static void oncall(const char *n) { if (!watching) return; if (calls++ == point) { killed = true; between = env_q_created() > 0 && lastq == -2; watching = false; longjmp(dead, 1); } if (!strcmp(n, "msgget")) lastq = -2; else if (lastq == -2) lastq = 0; }
static void onrcv(int id, long) { if (!watching) return; auto *a = own(); sym_check(a && a->rpid == id, "a client waits on the queue it has registered"); sym_check(env_lock_depth == 0, "a client does not wait with the lock"); if (!waits++) dl = start + block * 1000000; sym_check(when(*a) == dl, "while a client waits the end of its waiting time is on record"); }
static int onempty(int id, long) { // 0 answer, 1 wake-up after the time, 2 an old wake-up, 3 a late answer to something else
  int k = waits < 3 ? sym_pick("arrives", 0, 4) : 0; if (k == 4) return -EINTR; fux::ipc::msg r; r->mtype = 1; r->flags = 0; r->rcode = 0; r->rval = TPMINVAL; r->cat = fux::ipc::application; r.set_data(nullptr, 0); long more = sym_range("later", 0, 255) * 1000000L; if (k == 0) r->cd = cd1; if (k == 1) { r->cat = fux::ipc::unblock; r->cd = 0; env_now_ns = dl + 1; } if (k == 2) { r->cat = fux::ipc::unblock; r->cd = 0; sym_assume(env_now_ns + more < dl); env_now_ns += more; } if (k == 3) { r->cd = cd1 + 1; r->mtype = r->cd; } bool w = watching; watching = false; fux::ipc::qsend(id, r, 0, fux::ipc::noblock); watching = w; return 1; }
extern "C" void harness_main() {
  int c = sym_case(); M = &world(6, 6, 6, 4, 4); mib &m = *M; m.mach().blocktime = 15000; size_t s = m.make_server(7, 2, "srv", "", "qm"); srvq = m.make_service_rqaddr(s); m.advertise("SVC", m.servers().at(s).rqaddr, s); int live = m.make_accesser(60); int lq = m.accessers().at(live).rpid = fux::ipc::qcreate(); if (sym_bool("used place")) { int o = m.make_accesser(61); m.accessers().at(o).rpid = fux::ipc::qcreate(); m.accessers().at(o).rpid_timeout = std::chrono::steady_clock::time_point(std::chrono::nanoseconds(5)); fux::ipc::qdelete(m.accessers().at(o).rpid); m.accessers().at(o).invalidate(); }
  int before = env_q_created(); env_pid = 77; env_on_call = oncall; env_on_rcv = onrcv; env_on_empty = onempty; env_on_kill = [](int p, int) { return p == 60 || (p == 77 && !killed) ? 0 : -ESRCH; }; point = c == 0 ? -1 : sym_pick("killed at", 0, 13); env_now_ns = 5000000000000L; bool done = false; int calls1 = 0, rc = -2, e = 0;
  if (setjmp(dead) == 0) { watching = true; int bt = sym_pick("waiting time", 0, 2); block = 15000; if (bt == 1) { block = 700; tpsblktime(700, TPBLK_MILLISECOND | TPBLK_ALL); } if (bt == 2) { block = 3000; }
    cd1 = tpacall((char *)"SVC", nullptr, 0, 0); sym_check(cd1 > 0, "asked"); if (bt == 2) tpsblktime(3, TPBLK_SECOND | TPBLK_NEXT); env_now_ns += 12345; start = env_now_ns; char *d = tpalloc((char *)"STRING", nullptr, 8); long n; int cd = cd1; rc = tpgetrply(&cd, &d, &n, 0); e = tperrno; auto *a = own(); sym_check(a != nullptr && when(*a) == INVALID_TIME.time_since_epoch().count(), "a client that no longer waits has no waiting time on record"); sym_check(rc == 0 || e == TPETIME || e == TPEOS, "outcome"); if (rc == 0) sym_reach("answered"); else sym_reach(e == TPETIME ? "timed out" : "interrupted"); if (e == TPETIME) sym_check(env_now_ns > dl, "a caller is not timed out early"); int rq = a->rpid; tpterm(); sym_check(own() == nullptr && !env_q_exists(rq), "a client that leaves takes its registration and its queue with it"); done = true; sym_reach("left"); }
  watching = false; if (killed) { env_process_died(); sym_check(env_lock_depth == 0, "the lock is free again"); sym_reach("killed"); } env_pid = 4242; env_now_ns += 1000000000000L;
  monitor_pass();
  sym_check(own() == nullptr, "a client that is gone is forgotten"); sym_check(m.accessers().at(live).pid == 60 && m.accessers().at(live).rpid == lq && env_q_exists(lq) && env_q_len(lq) == 0, "other clients are left alone"); sym_check(!env_foreign_rm && env_q_exists(srvq), "nothing of anybody else is removed"); if (!between) for (int q = before; q < env_q_created(); q++) sym_check(!env_q_exists(1000 + q), "the queue of a client that is gone is removed"); int at = m.make_accesser(78); sym_check(at != live && when(m.accessers().at(at)) == INVALID_TIME.time_since_epoch().count() && m.accessers().at(at).rpid == -1, "a new client does not start waiting"); sym_reach("end"); (void)done; (void)calls1;
}
}
