// C17: a group's transaction manager (real _tmstartserver, dispatch loop and TM service); the harness is the coordinators and the resource manager
#include "tx_common.h"
extern "C" void TM(TPSVCINFO *);
static const int SRV = 7, GRP = 2; static int rq, cq, nreq, calls, lastfn, lastrm; static long lastfl; static XID lastxid; static int rmret; static bool stopping, valid; static long fn, rmid, flags; static XID want; static int cd;
static int x_open(char *, int, long) { return XA_OK; } static int x_work(XID *, int, long) { sym_fail("a transaction manager does no work of its own in a transaction"); }
static int two(int f, XID *x, int r, long fl) { sym_check(++calls == 1, "the resource manager is told once"); lastfn = f; lastxid = *x; lastrm = r; lastfl = fl; sym_check(env_lock_depth == 0, "the registry is not locked while the resource manager works"); return rmret; }
static int x_prep(XID *x, int r, long f) { return two(0, x, r, f); } static int x_com(XID *x, int r, long f) { return two(1, x, r, f); } static int x_rb(XID *x, int r, long f) { return two(2, x, r, f); }
static xa_switch_t sw = {"RM", TMNOFLAGS, 0, x_open, x_open, x_work, x_work, x_rb, x_prep, x_com, rec0, x_work, com0};
static void send() { // one request of a coordinator
  int k = nreq == 0 ? sym_case() : 9; valid = true; calls = 0; cd = nreq == 0 ? sym_range("cd", 1, 1000) : 7; fn = k < 3 ? k : 1; rmid = sym_range("rmid", 1, 30000); flags = k == 9 ? 0 : sym_long("flags"); rmret = sym_int("result"); fux::fml32buf b; want.formatID = nreq == 0 ? 31 : 1; want.gtrid_length = nreq == 0 ? 6 : 2; want.bqual_length = nreq == 0 && sym_bool("no bqual") ? 0 : 1; for (int i = 0; i < 8; i++) want.data[i] = nreq == 0 ? 0xf0 + i : i; uint8_t s = sym_range("digit", 0, 15), t = sym_range("digit2", 0, 15); want.data[1] = s * 16 + t;
  char x[64]; strcpy(x, nreq == 0 ? want.bqual_length ? "31.f0??f2f3f4f5.f6" : "31.f0??f2f3f4f5" : "1.00??.02"); char *q = strchr(x, '?'); bool upper = k == 9 ? false : sym_bool("upper case"); q[0] = (s < 10 ? '0' : (upper ? 'A' : 'a') - 10) + s; q[1] = (t < 10 ? '0' : 'a' - 10) + t; std::string xs = x;
  if (k == 3) { fn = sym_long("function"); sym_assume(fn < 0 || fn > 2); } else if (k == 4) { valid = false; static const char *bad[] = {"", "1", "1.0", "1.0g", "x.00", "1.00.0", "1.00.00.00", "a1.00", "-.00", "99999999999999999999.00", "."}; xs = bad[sym_pick("bad", 0, 10)]; }
  b.put(TA_XID, 0, xs); b.put(TA_XAFUNC, 0, fn); b.put(TA_RMID, 0, rmid); b.put(TA_FLAGS, 0, flags); if (k == 5) { valid = false; FLDID32 f[] = {TA_XID, TA_XAFUNC, TA_RMID, TA_FLAGS}; Fdel32(b.ptr(), f[sym_pick("missing", 0, 3)], 0); }
  msg m; if (k == 6) { valid = false; m.set_data(nullptr, 0); } else if (k == 7) { valid = false; char *p = tpalloc((char *)"STRING", nullptr, 32); strcpy(p, "not a command at all"); m.set_data(p, 0); tpfree(p); } else m.set_data((char *)b.ptr(), 0); strcpy(m->servicename, ".TM"); m->replyq = cq; m->cd = cd; m->flags = 0; m->gttid = fux::bad_gttid; m->cat = fux::ipc::application; m->rval = 0; m->rcode = 0; fux::ipc::qsend(rq, m, 0, fux::ipc::notime); }
static void done_check() { sym_check(env_q_len(cq) == 1, "a coordinator gets exactly one answer"); msg m; fux::ipc::qrecv(cq, m, 0, 0); sym_check(m->cd == cd, "the answer is for the coordinator's call"); if (!valid) { sym_check(m->rval != TPMINVAL && calls == 0, "an invalid command is refused"); sym_reach("refused"); return; }
  sym_check(m->rval == TPMINVAL, "a command is answered"); char *p = tpalloc((char *)"FML32", nullptr, 1024); m.get_data(&p); long ret = 0x5555555555; sym_check(CFget32((FBFR32 *)p, TA_XARET, 0, (char *)&ret, nullptr, FLD_LONG) != -1, "the answer carries the result"); tpfree(p);
  if (fn < 0 || fn > 2) { sym_check(calls == 0 && ret == XAER_INVAL, "an unknown command does nothing"); sym_reach("unknown"); return; } sym_check(calls == 1 && lastfn == fn, "the resource manager is told the coordinator's command"); sym_check(same(lastxid, want), "the resource manager is told the coordinator's transaction"); sym_check(lastrm == rmid && lastfl == flags, "the resource manager is told the coordinator's parameters"); sym_check(ret == rmret, "the coordinator gets the resource manager's result"); sym_reach(fn == 0 ? "prepare" : fn == 1 ? "commit" : "rollback"); }
static int on_empty(int id, long) { sym_check(id == rq, "waits on its own queue"); if (nreq) done_check(); if (nreq < 2) { send(); nreq++; return 1; } msg m; fux::fml32buf b; b.put(TA_SRVID, 0, (long)SRV); b.put(TA_GRPNO, 0, (long)GRP); m.set_data((char *)b.ptr(), 0); strcpy(m->servicename, ".stop"); m->replyq = cq; m->cd = 9; m->flags = 0; m->cat = fux::ipc::application; fux::ipc::qsend(rq, m, 0, fux::ipc::notime); stopping = true; return 1; }
static int mainloop(int) { return 0; } static int thrinit(int, char **) { return 0; } static void thrdone() {}
extern "C" void harness_main() {
  M = &world(); M->mach().blocktime = 15000; M->make_group(1, "G1", "", "", ""); M->make_group(GRP, "G2", "RM:x", "", ""); int s = M->make_server(SRV, GRP, "TMS", "", "q1"); M->servers().at(s).mindispatchthreads = 1; rq = M->make_service_rqaddr(s); cq = fux::ipc::qcreate();
  static tmdsptchtbl_t tab[] = {{".TM", "TM", TM, 0, 0, nullptr}, {nullptr, nullptr, nullptr, 0, 0, nullptr}}; static tmsvrargs_t args; args.xa_switch = &sw; args.tmdsptchtbl = tab; args.svrinit = tpsvrinit; args.svrdone = tpsvrdone; args.mainloop = mainloop; args.svrthrinit = thrinit; args.svrthrdone = thrdone;
  env_on_empty = on_empty; static const char *argv[] = {"TMS", "-A", "-i", "7", "-g", "2", nullptr}; int rc = _tmstartserver(6, (char **)argv, &args); sym_check(rc == 0 && stopping && nreq == 2, "a server ends when it is told to"); sym_reach("end");
}
