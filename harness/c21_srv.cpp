// C21: calls of a server's routine: service names of every kind, also ones registered before the server was restarted
#include <cstddef>
#include "tx_common.h"
extern "C" { int tpadvertise(char *, void (*)(TPSVCINFO *)); }
static int rq, step; static bool stopping; static char longname[300]; static size_t srv;
static int count_adv(const char *n) { size_t s = M->find_service(n); int c = 0; for (size_t i = 0; i < M->advertisements()->len; i++) { auto &a = M->advertisements().at(i); c += s != mib::badoff && a.service == s && a.server == srv && a.queue == M->servers().at(srv).rqaddr; } return c; }
static int total() { int c = 0; for (size_t i = 0; i < M->advertisements()->len; i++) c += M->advertisements().at(i).service != mib::badoff; return c; }
static void r2(TPSVCINFO *) { tpreturn(TPSUCCESS, 0, nullptr, 0, 0); }
static int done(int rc) { int e = tperrno; if (rc == -1) sym_check((e >= TPEABORT) & (e <= TPEMATCH), "a failed call sets a defined error code"); else sym_check(e == 0, "a call that succeeded leaves no error code"); return e; }
static void r1(TPSVCINFO *) {
  int k = sym_pick("name", 0, 8); char *n = k == 0 ? nullptr : k == 1 ? (char *)"" : k == 2 ? (char *)"MINE" : k == 3 ? (char *)"BEFORE" : k == 4 ? (char *)"NEW" : k == 5 ? (char *)"OTHERS" : longname; int len = k == 6 ? XATMI_SERVICE_NAME_LENGTH - 1 : k == 7 ? XATMI_SERVICE_NAME_LENGTH : 298; longname[len] = 0; bool nofunc = sym_bool("no routine"), same = sym_bool("the routine of MINE"), full = sym_bool("no place"); if (full) { char nm[8] = "X0"; try { for (int i = 0; i < 40; i++) { M->advertise(nm, M->servers().at(1).rqaddr, 1); nm[1]++; } } catch (const std::out_of_range &) {} }
  int before = total(), rc, e;
  if (sym_bool("withdraw")) { rc = tpunadvertise(n); e = done(rc); if (k < 2) sym_check(rc == -1 && e == TPEINVAL, "no name"); else if (k == 2) sym_check(rc == 0 && count_adv(n) == 0 && total() == before - 1, "withdrawn"); else sym_check(rc == -1 && e == TPENOENT && total() == before, "only own services are withdrawn"); sym_reach("withdraw"); }
  else { rc = tpadvertise(n, nofunc ? nullptr : same ? r1 : r2); e = done(rc); if (k < 2 || nofunc || k >= 7) sym_check(rc == -1 && (e == TPEINVAL || (k >= 7 && full && e == TPELIMIT)) && total() == before, "arguments that make no service"); else if (k == 2) sym_check(same ? rc == 0 : rc == -1 && e == TPEMATCH, "one name is one routine"); else if (k == 3) sym_check(rc == 0 && count_adv(n) == 1 && total() == before, "a service still registered is advertised again"); else if (full && !(k == 5 && rc == 0)) { sym_check(rc == -1 && e == TPELIMIT && total() == before, "no place"); sym_reach("no place"); } else { sym_check(rc == 0 && count_adv(n) == 1 && total() == before + 1, "advertised"); sym_check(tpunadvertise(n) == 0 && total() == before, "and withdrawn"); sym_reach("advertised"); } }
  if (sym_bool("joins as client")) { sym_check(tpinit(nullptr) == -1 && tperrno == TPEPROTO && tpterm() == -1 && tperrno == TPEPROTO, "not a client"); sym_reach("not a client"); }
  step = 2; tpreturn(TPSUCCESS, 0, nullptr, 0, 0); }
static void send(bool stop) { msg m; if (stop) { fux::fml32buf b; b.put(TA_SRVID, 0, 7L); b.put(TA_GRPNO, 0, 2L); m.set_data((char *)b.ptr(), 0); } else m.set_data(nullptr, 0); strcpy(m->servicename, stop ? ".stop" : "MINE"); m->replyq = -1; m->cd = 0; m->flags = 0; m->gttid = fux::bad_gttid; m->cat = fux::ipc::application; m->rval = 0; m->rcode = 0; fux::ipc::qsend(rq, m, 0, fux::ipc::notime); }
static int wait_server(int id, long) { if (id != rq) sym_end(); if (step == 0) { step = 1; send(false); } else { sym_check(step == 2, "the routine was run"); sym_check(!stopping, "stops once"); stopping = true; send(true); } return 1; }
static int x_ok(char *, int, long) { return XA_OK; } static int x_start(XID *, int, long) { return XA_OK; }
static xa_switch_t sw = {"RM", TMNOFLAGS, 0, x_ok, x_ok, x_start, x_start, x_start, x_start, x_start, rec0, x_start, com0};
extern "C" void harness_main() {
  M = &world(4, 12, 6, 4, 3); memset(longname, 'N', 299); M->make_group(1, "G1", "", "", ""); M->make_group(2, "G2", "", "", ""); size_t o = M->make_server(5, 1, "oth", "", "qo"); M->make_service_rqaddr(o); M->advertise("OTHERS", M->servers().at(o).rqaddr, o); srv = M->make_server(7, 2, "srv", "", "qm"); M->make_service_rqaddr(srv); rq = M->queues().at(M->servers().at(srv).rqaddr).msqid; M->advertise("BEFORE", M->servers().at(srv).rqaddr, srv); M->servers().at(srv).mindispatchthreads = 1;
  static tmdsptchtbl_t tab[] = {{"MINE", "m", r1, 0, 0, nullptr}, {nullptr, nullptr, nullptr, 0, 0, nullptr}}; static tmsvrargs_t args; args.xa_switch = &sw; args.tmdsptchtbl = tab; args.svrinit = [](int, char **) { return 0; }; args.svrdone = [] {}; args.mainloop = [](int) { return 0; }; args.svrthrinit = [](int, char **) { return 0; }; args.svrthrdone = [] {}; env_on_empty = wait_server; static const char *argv[] = {"srv", "-A", "-i", "7", "-g", "2", nullptr};
  int rc = _tmstartserver(6, (char **)argv, &args); sym_check(rc == 0 && stopping, "the server goes on until it is stopped"); sym_reach("end");
}
