// C12: the processes of a system, one after the other; whenever the lock is taken, others may have used the registry meanwhile
#include <cstddef>
#include <new>
#include "tx_common.h"
#include "watchdog.h"
namespace hx {
enum { CLIENT, SERVER, OWNTX, PARTICIPANT, MONITOR, ADMIN };
static unsigned char *base; static size_t size; static uint64_t snap[8192]; static int mode; static bool watching;
// ---- what this process does to the registry while it does not hold the lock
static uint64_t *own_timeout() { static uint64_t none; for (size_t i = 0; i < M->accessers()->len; i++) { auto &a = M->accessers().at(i); if (a.pid == env_pid) return (uint64_t *)&a.rpid_timeout; } return &none; }
static void save() { for (size_t i = 0; i < M->transactions().len; i++) { XID &x = M->transactions()[i].xid; if (x.formatID != -1) memset(x.data + x.gtrid_length + x.bqual_length, 0, sizeof x.data - x.gtrid_length - x.bqual_length); } memcpy(snap, base, size); }
static void compare() { if (!watching) return; uint64_t *w = (uint64_t *)base; uint64_t *t = own_timeout(); uint32_t *c = &(*M)->counter; for (size_t i = 0; i < size / 8; i++) if (w[i] != snap[i]) { if (w + i == t || (char *)(w + i) == (char *)c) continue; // a process's own waiting time, and the atomic counter
    sym_fail("the registry is changed only by holders of its lock"); } }
// ---- other processes
static int acts = 1; static bool o_acc, o_tx, o_adv, o_un, o_end, o_grown; static XID ox; static size_t osrv, osrv2; static int omsq; static fux::gttid oid;
static bool noqueue; static void others() { if (!acts || !sym_bool("another process acts")) return; acts--; int k = sym_pick("act", 0, noqueue ? 6 : 5); try { if (k == 0) { size_t i = M->make_accesser(900); M->accessers().at(i).rpid = omsq; o_acc = true; } else if (k == 1) { oid = M->transactions().start(ox, 0); o_tx = true; } else if (k == 2) { M->advertise("OTH", M->servers().at(osrv).rqaddr, osrv); o_adv = true; } else if (k == 3) { M->unadvertise("OLD", M->servers().at(osrv).rqaddr, osrv); o_un = true; } else if (k == 4) { M->advertise("NEW", M->servers().at(osrv).rqaddr, osrv); o_grown = true; } else if (k == 6) { M->make_service_rqaddr(2); } else { M->accessers().at(0).invalidate(); o_end = true; } sym_reach("another process"); } catch (const std::out_of_range &) {} }
static void on_lock(int) { sym_check(env_lock_depth == 1, "the lock is not taken twice"); compare(); others(); save(); }
static void on_unlock(int) { save(); }
static int count_adv(const char *n, size_t srv) { size_t s = M->find_service(n); int c = 0; for (size_t i = 0; i < M->advertisements()->len; i++) { auto &a = M->advertisements().at(i); c += s != mib::badoff && a.service == s && a.server == srv && a.queue == M->servers().at(srv).rqaddr; } return c; }
static int count_acc(int pid) { int c = 0; for (size_t i = 0; i < M->accessers()->len; i++) c += M->accessers().at(i).pid == pid; return c; }
static void settled() { // nothing anybody did is lost
  sym_check(env_lock_depth == 0, "the lock is given back"); compare(); for (size_t i = 0; i < M->services()->len; i++) for (size_t j = 0; j < i; j++) sym_check(strcmp(M->services().at(i).servicename, M->services().at(j).servicename), "no service is registered twice");
  sym_check(count_acc(900) == o_acc, "a registration made meanwhile is kept"); if (o_acc) for (size_t i = 0; i < M->accessers()->len; i++) if (M->accessers().at(i).pid == 900) sym_check(M->accessers().at(i).rpid == omsq, "a registration made meanwhile is kept"); sym_check(count_acc(800) == !o_end, "other registrations are kept");
  if (o_tx) { sym_check(same(M->transactions().at(oid).xid, ox), "a transaction started meanwhile is kept"); } sym_check(live_transactions() >= o_tx, "a transaction started meanwhile is kept"); sym_check(count_adv("OTH", osrv) == o_adv && count_adv("NEW", osrv) == o_grown && count_adv("OLD", osrv) == !o_un, "other servers' advertisements are kept"); sym_check(count_adv("OLD", osrv2) == 1, "other servers' advertisements are kept"); }
// ---- this process
static int rq; static int step; static bool stopping;
static int x_ok(char *, int, long) { return XA_OK; } static int startrc; static int x_start(XID *, int, long) { sym_check(!env_lock_depth, "the lock is not held while the resource manager works"); return startrc; } static int x_end(XID *, int, long) { sym_check(!env_lock_depth, "the lock is not held while the resource manager works"); return XA_OK; }
static xa_switch_t sw = {"RM", TMNOFLAGS, 0, x_ok, x_ok, x_start, x_end, x_end, x_end, x_end, rec0, x_end, com0};
static int wait_client(int id, long) { sym_check(!env_lock_depth, "the lock is not held while waiting"); compare(); msg r; r->cat = fux::ipc::unblock; r->cd = 0; env_now_ns += 16000L * 1000000; if (sym_bool("answered")) { r->cat = fux::ipc::application; r->rval = TPMINVAL; r->cd = step; r->flags = 0; r->rcode = 0; r.set_data(nullptr, 0); } fux::ipc::qsend(id, r, 0, fux::ipc::noblock); return 1; }
static void client() { int k = sym_pick("call", 0, 4); const char *svc[] = {"OLD", "MINE", "NOBODY", "NEW", "averyveryverylongservicename.averyveryverylong"}; int cd = tpacall((char *)svc[k], nullptr, 0, sym_bool("noreply") ? TPNOREPLY : 0); step = cd; if (cd > 0) { env_on_empty = wait_client; char *d = tpalloc((char *)"STRING", nullptr, 8); long n; if (sym_bool("cancel")) tpcancel(cd); else tpgetrply(&cd, &d, &n, 0); tpfree(d); sym_reach("called"); } if (sym_bool("leaves")) { int r = count_acc(env_pid); tpterm(); sym_check(count_acc(env_pid) == 0, "a client that leaves is no longer registered"); if (r) sym_reach("left"); } }
static void r2(TPSVCINFO *s) { tpreturn(TPSUCCESS, 0, nullptr, 0, 0); }
static void send(const char *svc, bool tran, fux::gttid id, bool stop) { msg m; if (stop) { fux::fml32buf b; b.put(TA_SRVID, 0, 7L); b.put(TA_GRPNO, 0, 2L); m.set_data((char *)b.ptr(), 0); } else m.set_data(nullptr, 0); strcpy(m->servicename, stop ? ".stop" : svc); m->replyq = omsq; m->cd = 1; m->flags = tran ? TPTRAN : 0; m->gttid = id; m->cat = fux::ipc::application; m->rval = 0; m->rcode = 0; fux::ipc::qsend(rq, m, 0, fux::ipc::notime); }
static XID bx; static fux::gttid bid; static char longname[300];
static void r1(TPSVCINFO *s) { sym_check(!env_lock_depth, "the lock is not held while a routine runs"); compare();
  if (mode == SERVER) { int k = sym_pick("routine", 0, 5); int rc, e; if (k == 0) { sym_check(tpadvertise((char *)"S2", r2) == 0, "advertise"); sym_check(count_adv("S2", 2) == 1, "a service advertised is registered"); if (sym_bool("withdraw")) { sym_check(tpunadvertise((char *)"S2") == 0 && count_adv("S2", 2) == 0, "a service withdrawn is not registered"); sym_reach("withdrawn"); } } else if (k == 1) { rc = tpadvertise((char *)"MINE", r2); e = tperrno; sym_check(rc == -1 && e == TPEMATCH, "refused"); } else if (k == 2) { rc = tpunadvertise((char *)"S9"); e = tperrno; sym_check(rc == -1 && e == TPENOENT, "refused"); } else if (k == 3) { sym_check(tpunadvertise((char *)"MINE") == 0 && count_adv("MINE", 2) == 0, "withdraw own"); } else if (k == 4) { sym_check(tpadvertise((char *)"OTH", r2) == 0 && count_adv("OTH", 2) == 1, "advertise"); } else { // no more places
      int n = 0; char nm[8] = "X0"; while ((rc = tpadvertise(nm, r2)) == 0 && n < 12) { nm[1]++; n++; } e = tperrno; sym_check(rc == -1 && e == TPELIMIT, "refused"); sym_reach("table full"); } sym_reach("served"); }
  if (mode == PARTICIPANT) { sym_check(M->transactions().has_joined(bid, M->find_group(2)), "joined"); if (sym_bool("own end")) tx_commit(); sym_reach("joined"); if (sym_bool("fails")) tpreturn(TPFAIL, 0, nullptr, 0, 0); } tpreturn(TPSUCCESS, 0, nullptr, 0, 0); }
static int wait_server(int id, long) { sym_check(!env_lock_depth, "the lock is not held while waiting"); compare(); if (mode == SERVER) { sym_check(id == M->queues().at(M->servers().at(2).rqaddr).msqid, "a server waits on its registered queue"); rq = id; } if (id != rq) { sym_end(); } if (step == 0) { step = 1; int k = mode == PARTICIPANT ? sym_pick("id", 0, 2) : 0; if (mode == PARTICIPANT && k == 1) startrc = XAER_RMFAIL; if (mode == SERVER || k < 2) send("MINE", mode == PARTICIPANT, bid, false); else send("MINE", true, 77, false); } else { stopping = true; send("", false, 0, true); } return 1; }
static int mainloop(int) { return 0; } static int thrinit(int, char **) { return 0; } static void thrdone() {}
static void server() { static tmdsptchtbl_t tab[] = {{"MINE", "m", r1, 0, 0, nullptr}, {nullptr, nullptr, nullptr, 0, 0, nullptr}}; static tmsvrargs_t args; args.xa_switch = &sw; args.tmdsptchtbl = tab; args.svrinit = [](int, char **) { return mode == PARTICIPANT ? tpopen() : 0; }; args.svrdone = [] {}; args.mainloop = mainloop; args.svrthrinit = thrinit; args.svrthrdone = thrdone; env_on_empty = wait_server; static const char *argv[] = {"srv", "-A", "-i", "7", "-g", "2", nullptr}; M->servers().at(2).mindispatchthreads = 1;
  save(); int rc = _tmstartserver(6, (char **)argv, &args); sym_check(rc == 0 && stopping, "the server ends"); if (mode == PARTICIPANT) { sym_check(same(M->transactions().at(bid).xid, bx), "the transaction goes on"); M->transactions().end(bid); save(); } sym_reach("stopped"); }
static void owntx() { fux::glob::xasw = &sw; fux::tx::grpno = sym_bool("in a group") ? 2 : 0; env_on_empty = wait_client; sym_check(tx_open() == TX_OK, "open"); if (sym_bool("chained")) tx_set_transaction_control(TX_CHAINED); int f = sym_pick("trouble", 0, 2); if (f == 1) startrc = XAER_RMFAIL; if (f == 2) { for (int i = 0; i < 99; i++) { XID x = {3, 1, 0, ""}; x.data[0] = i; M->transactions().start(x, 0); } if (!sym_bool("one place")) { XID x = {3, 1, 0, "~"}; M->transactions().start(x, 0); acts = 0; } else acts = 0; save(); }
  bool begun = tx_begin() == TX_OK; if (!begun && f == 2) sym_reach("no place"); if (begun) { if (sym_bool("suspend")) { TPTRANID t; sym_check(tpsuspend(&t, 0) == 0 && tpresume(&t, 0) == 0, "suspend and resume"); ((char *)t.info)[40]++; tpresume(&t, 0); } if (sym_bool("commit")) tx_commit(); else tx_rollback(); sym_reach("ended"); } }
static void monitor() { env_on_kill = [](int pid, int) { return pid == 801 || pid == 71 ? -ESRCH : 0; }; env_on_empty = nullptr; size_t d = M->make_accesser(801); bool nq = sym_bool("no queue"); M->accessers().at(d).rpid = nq ? -1 : fux::ipc::qcreate(); M->accessers().at(d).rpid_timeout = std::chrono::steady_clock::time_point(std::chrono::nanoseconds(1)); if (!nq && sym_bool("queue gone")) fux::ipc::qdelete(M->accessers().at(d).rpid); M->servers().at(1).pid = 71; M->servers().at(2).pid = 72; save(); monitor_pass(); sym_check(count_acc(801) == 0 && M->servers().at(1).pid == 0 && M->servers().at(2).pid == 72, "the monitor's work is done"); sym_reach("monitored"); }
static void admin() { fux::fml32buf in; FBFR32 *out = (FBFR32 *)tpalloc((char *)"FML32", nullptr, 4096); const char *cls[] = {"T_DOMAIN", "T_MACHINE", "T_SERVICE", "T_SERVER", "T_QUEUE", "T_NOTHING", "T_SERVER"}; int k = sym_pick("class", 0, 6); in.put(TA_CLASS, 0, std::string(cls[k])); in.put(TA_OPERATION, 0, std::string(k == 6 ? "SET" : "GET")); if (k == 6) { in.put(TA_SRVGRP, 0, std::string(sym_bool("group") ? "G2" : "G9")); in.put(TA_SRVID, 0, 77L); in.put(TA_STATE, 0, std::string("NEW")); in.put(TA_SERVERNAME, 0, std::string("name")); if (sym_bool("complete")) in.put(TA_RCMD, 0, std::string("")); } if (tpadmcall(in.ptr(), &out, 0) == 0) sym_reach("asked"); else sym_reach("refused"); }
extern "C" void harness_main() {
  M = &world(6, 6, 6, 4, 4); M->mach().blocktime = 15000; M->make_group(1, "G1", "", "", ""); M->make_group(2, "G2", "RM:x", "", ""); mode = sym_case() % 6; acts = 1 + sym_case() / 6; base = (unsigned char *)env_shm_ptr(0); size = env_shm_size(0) / 8 * 8; sym_check(base && size < sizeof snap, "the registry");
  osrv = M->make_server(5, 1, "oth", "", "qo"); omsq = M->make_service_rqaddr(osrv); M->advertise("OLD", M->servers().at(osrv).rqaddr, osrv); size_t s = M->make_server(7, 2, "srv", "", "qm"); sym_check(s == 2, "place"); rq = M->make_service_rqaddr(s); osrv2 = M->make_server(6, 1, "oth2", "", "q3"); M->make_service_rqaddr(osrv2); M->advertise("OLD", M->servers().at(osrv2).rqaddr, osrv2); if (mode != SERVER && mode != PARTICIPANT) M->advertise("MINE", M->servers().at(s).rqaddr, s); M->accessers().at(M->make_accesser(800)).rpid = omsq; ox = {2, 2, 0, "ot"}; bx = {2, 2, 1, "abc"}; if (mode == PARTICIPANT) bid = M->transactions().start(bx, 0);
  if (mode == SERVER && sym_bool("no queue yet")) { fux::ipc::qdelete(rq); M->queues().at(M->servers().at(s).rqaddr).msqid = -1; noqueue = true; rq = -5; } env_on_lock = on_lock; env_on_unlock = on_unlock; env_faults = F_SEMOP; env_fault_budget = sym_case() >= 6; save(); watching = true;
  if (mode == CLIENT) client(); else if (mode == SERVER || mode == PARTICIPANT) server(); else if (mode == OWNTX) owntx(); else if (mode == MONITOR) monitor(); else admin();
  settled(); sym_reach("end");
}
}
