// C24: tmshutdown on any registry: which servers are asked to stop, in which order, how often, and what is removed afterwards
#include "world.h"
#include <iostream>
#include <sstream>
#include "fux.h"
#include <tpadm.h>
#define main tmshutdown_main
#include "tmshutdown.cpp"
#undef main
namespace hx {
static const int N = 4; static mib *M; static int was[N], how[N], life[512], asked[N], lastsrv = N, noq[N]; static bool sel[N]; static int busy, busyq; static state_t st0[N]; // was: 0 no process, 1 running, 2 gone. how: 0 stops, 1 refuses, 2 never answers, 3 has no queue; busy: times its queue is still full
static const int SRV[N] = {0, 5, 6, 5}, GRP[N] = {0, 1, 1, 2}; static long now0;
static bool due(int i) { return sel[i] && was[i] == 1 && st0[i] != state_t::INActive; }
static int onempty(int id, long) {
  sym_check(!env_lock_depth, "the lock is not held while waiting"); int n = 0, at = -1; for (int i = 0; i < N; i++) { int k = env_q_len(M->queues().at(i == 2 ? 1 : i).msqid); if (i != 2 && k > 0) { n += k; at = i; } }
  if (!n) { // nothing was asked, or the server did not answer
    if (lastsrv < N && how[lastsrv] == 2) { env_now_ns += 20000000000L; fux::ipc::msg r; r->cat = fux::ipc::unblock; r->cd = 0; r->mtype = 1; fux::ipc::qsend(id, r, 0, fux::ipc::noblock); return 1; } sym_fail("waits for an answer nobody gives"); }
  sym_check(n == 1, "one server is asked at a time"); fux::ipc::msg q; fux::ipc::qrecv(M->queues().at(at).msqid, q, 0, 0); sym_check(!strcmp(q->servicename, ".stop"), "a server is asked to stop"); sym_check(q->replyq == id && q->cd > 0 && q->cat == fux::ipc::application && !(q->flags & TPTRAN), "the answer is awaited"); char *d = tpalloc((char *)"FML32", nullptr, 1024); q.get_data(&d); FBFR32 *f = (FBFR32 *)d; sym_check(Foccur32(f, TA_SRVID) == 1 && Foccur32(f, TA_GRPNO) == 1, "the server is named"); long s = 0, g = 0; FLDLEN32 ln = sizeof s; CFget32(f, TA_SRVID, 0, (char *)&s, &ln, FLD_LONG); ln = sizeof g; CFget32(f, TA_GRPNO, 0, (char *)&g, &ln, FLD_LONG);
  int i = lastsrv - 1; while (i >= 0 && !(due(i) && how[i] != 3)) i--; sym_check(i >= 0, "a server is asked that is not to be asked"); sym_check(s == SRV[i] && g == GRP[i] && at == (i == 2 ? 1 : i), "the servers are asked in reverse order, each on its own queue"); asked[i]++; lastsrv = i;
  if (how[i] == 2) return onempty(id, 0); if (how[i] == 0) { M->servers().at(i).state = state_t::INActive; life[100 + i] = 2; } fux::ipc::msg r; r.set_data(d, 0); r->mtype = q->cd; r->cd = q->cd; r->rval = how[i] == 0 ? TPMINVAL : TPESVCERR; r->rcode = 0; r->flags = 0; r->cat = fux::ipc::application; r->replyq = -1; fux::ipc::qsend(id, r, 0, fux::ipc::noblock); tpfree(d); return 1; }
static int onkill(int p, int s) { sym_check(s == 0, "no process is killed"); return p == env_pid || life[p] == 1 ? 0 : -ESRCH; }
static int onsnd(int id, const void *, size_t, int flg) { if (busy > 0 && id == busyq) { busy--; sym_check(flg & IPC_NOWAIT, "waiting for room is limited"); sym_reach("full"); return -EAGAIN; } return 0; }
static int count(const std::string &s, const char *w) { int n = 0; for (size_t p = 0; (p = s.find(w, p)) != std::string::npos; p++) n++; return n; }
extern "C" void harness_main() {
  int c = sym_case(); M = &world(6, 6, 6, 4, 4); mib &m = *M; const char *names[] = {"BBL", "srvA", "srvB", "srvC"}; m.make_group(1, "GA", "", "", ""); m.make_group(2, "GB", "", "", ""); m.mach().blocktime = 15000;
  m.make_queue("unused1"); int other = fux::ipc::qcreate(), osem = fux::ipc::seminit(IPC_PRIVATE, 1); void *om = shmat(shmget(99, 64, 0600 | IPC_CREAT), nullptr, 0);
  for (int i = 1; i < N; i++) m.make_server(SRV[i], GRP[i], names[i], "", i == 3 ? "q3" : "shared"); // queue 0: .BBL, 1: unused, 2: shared, 3: q3
  // put the queues at the places used above
  std::swap(m.queues()[1], m.queues()[2]); for (int i = 1; i < N; i++) m.servers().at(i).rqaddr = i == 3 ? 3 : 1;
  int mode = c / N; bool si = mode == 1 || mode == 3, sg = mode == 2 || mode == 3; int sid = si ? sym_pick("srvid", 4, 6) : -1; int gsel = sg ? sym_pick("group", 0, 2) : -1; const char *gn[] = {"GA", "GB", "GC"};
  for (int i = 0; i < N; i++) { bool focus = i == c % N; was[i] = focus ? sym_pick("process", 0, 2) : sym_bool("running"); how[i] = focus ? sym_pick("answer", 0, 3) : 0; auto &v = m.servers().at(i); if (was[i]) { v.pid = 100 + i; life[100 + i] = was[i]; } else v.pid = 0; int k = focus ? sym_pick("state", 0, 2) : was[i] ? 0 : 2; st0[i] = v.state = k == 0 ? state_t::ACTive : k == 1 ? state_t::SUSpended : state_t::INActive; sel[i] = (sid == -1 || SRV[i] == sid) && (gsel == -1 || GRP[i] == gsel + 1); if (i != 2) m.make_service_rqaddr(i); }
  int c3 = c % N; if (how[c3] == 3) { int q = c3 == 2 ? 1 : c3; fux::ipc::qdelete(m.queues().at(q).msqid); if (sym_bool("never had one")) m.queues().at(q).msqid = -1; if (q == 1) { how[1] = how[2] = 3; } }
  int dead = m.make_accesser(801); m.accessers().at(dead).rpid = -1; int cl = m.make_accesser(802); int clq = m.accessers().at(cl).rpid = fux::ipc::qcreate(); int nq = env_q_created(); int msq[N]; for (int i = 0; i < N; i++) msq[i] = m.queues().at(i).msqid; int sem = m->mainsem;
  if (was[c3] == 1 && how[c3] == 0) { busy = sym_pick("full for a while", 0, 1) * 4; busyq = msq[c3 == 2 ? 1 : c3]; env_on_msgsnd = onsnd; }
  env_on_empty = onempty; env_on_kill = onkill; now0 = env_now_ns; std::string id = std::to_string(sid); std::vector<const char *> av = {"tmshutdown"}; bool help = mode == 4; if (help) av.push_back("-h"); else av.push_back("-y"); if (si) { av.push_back("-i"); av.push_back(id.c_str()); } if (sg) { av.push_back("-g"); av.push_back(gn[gsel]); } int n = av.size(); av.push_back(nullptr);
  std::ostringstream out, er; auto *o0 = std::cout.rdbuf(out.rdbuf()); auto *e0 = std::cerr.rdbuf(er.rdbuf()); int rc = tmshutdown_main(n, (char **)&av[0]); std::cout.rdbuf(o0); std::cerr.rdbuf(e0); std::string s = out.str();
  sym_check(rc == 0, "tmshutdown succeeds"); if (help) { sym_check(lastsrv == N && env_shm_exists(3000) && env_q_exists(msq[0]) == (how[0] != 3), "asking for help stops nothing"); sym_reach("help"); return; } int ok = 0, bad = 0; bool whole = !si && !sg; env_lock_depth = whole ? 0 : env_lock_depth; sym_check(!env_lock_depth, "the lock is given back");
  for (int i = 0; i < N; i++) { sym_check(asked[i] == (due(i) && how[i] != 3), "every server selected and running is asked once, and no other"); auto &v = m.servers().at(i); if (!due(i)) { sym_check(v.state == st0[i], "a server that is not asked is left alone"); sym_reach(was[i] == 2 ? "gone" : "not asked"); } else if (how[i] == 0) { ok++; sym_check(v.state == state_t::INActive, "stopped"); sym_reach("stopped"); } else { bad++; sym_reach(how[i] == 1 ? "refused" : how[i] == 2 ? "no answer" : "no queue"); } sym_check(v.srvid == SRV[i] && v.grpno == GRP[i] && v.pid == (was[i] ? 100 + i : 0), "a server's entry is otherwise unchanged"); }
  sym_check(count(s, "shutdown succeeded") == ok && count(s, "shutdown failed") == bad && count(s, "Server Id") == ok + bad, "the outcome is reported for every server asked");
  for (int i = 0; i < N; i++) if (i != 2 && !(how[i] == 3)) sym_check(env_q_exists(msq[i]) == !whole, "the request queues are removed exactly with the whole system"); sym_check(env_q_exists(clq) == !whole && env_sem_exists(sem) == !whole && env_shm_exists(3000) == !whole, "reply queues, lock and registry are removed exactly with the whole system"); sym_check(env_q_exists(other) && env_sem_exists(osem) && env_shm_exists(3001) && !env_foreign_rm, "nothing of anybody else is removed"); for (int q = nq; q < env_q_created(); q++) sym_check(!env_q_exists(1000 + q), "no reply queue of tmshutdown is left"); (void)om; sym_reach(whole ? "whole" : "part"); sym_reach("end");
}
}
