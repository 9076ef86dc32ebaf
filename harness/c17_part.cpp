// C17: a server taking part in its callers' transactions (real _tmstartserver and dispatch loop); the harness is the callers, the routine and the resource manager
#include <stdexcept>
#include "tx_common.h"
enum { RET, FWD, FAILS, OWNEND, BADID, NOSTART, NOEND, PLAIN, LEFT, NORM, SUSP };
static const int SRV = 7, GRP = 2; static int rq, cq, oq, nreq, plan, cd, sidx; static bool stopping, ran, tran, bad; static fux::gttid id; static XID mine, begun; static int starts, ends; static long endflags; static int rval; static int startrc, endrc; static bool began, closed; static int how; static int nested; static bool suspended; static int resumes;
static int x_open(char *, int, long) { return XA_OK; }
static int x_start(XID *x, int rm, long fl) { sym_check(rm == GRP, "own group"); sym_check(env_lock_depth == 0, "the registry is not locked while the resource manager works"); if (began) { begun = *x; sym_check(fl == TMNOFLAGS, "a new transaction is started"); starts++; return XA_OK; } if (suspended) { sym_check(fl == TMRESUME && same(*x, mine), "the suspended transaction is resumed"); suspended = false; resumes++; return XA_OK; } sym_check(tran && fl == TMJOIN && same(*x, mine), "the resource manager joins the transaction of the request"); sym_check(!ran, "work starts before the routine"); starts++; sym_check(M->transactions().has_joined(id, M->find_group(GRP)), "the group is registered as taking part before its work starts"); return startrc; }
static int x_end(XID *x, int rm, long fl) { sym_check(rm == GRP && same(*x, began ? begun : mine), "the work of the transaction ends"); if (fl == TMSUSPEND) { suspended = true; return XA_OK; } sym_check(env_q_len(cq) == 0 && env_q_len(oq) == nested, "the work ends before anybody is answered"); ends++; endflags = fl; return endrc; }
static int x_two(XID *, int, long) { sym_fail("the transaction manager's part is not done here"); }
static xa_switch_t sw = {"RM", TMNOFLAGS, 0, x_open, x_open, x_start, x_end, x_two, x_two, x_two, rec0, x_two, com0};
static void call_other(bool notran) { int r = tpacall((char *)"OTHER", nullptr, 0, TPNOREPLY | (notran ? TPNOTRAN : 0)); bool in = tpgetlev() == 1; sym_check(r == 0, "a routine can call other services"); msg m; fux::ipc::qrecv(oq, m, 0, 0); if (in && !notran) { sym_check((m->flags & TPTRAN) && same(M->transactions().at(m->gttid).xid, began ? begun : mine), "calls made in a transaction are part of it"); sym_reach("passed on"); } else { sym_check(!(m->flags & TPTRAN) && m->gttid == fux::bad_gttid, "calls outside a transaction are part of none"); sym_reach("not passed on"); } }
static void routine(TPSVCINFO *s) {
  ran = true; bool in = tran && plan != NORM; sym_check(((s->flags & TPTRAN) != 0) == tran, "a routine is told whether it is in a transaction"); if (sym_case() != NORM) { sym_check(tpgetlev() == (in ? 1 : 0), "a routine is in its caller's transaction"); if (in) sym_check(starts == 1 && !ends, "a routine runs within the transaction"); TXINFO ti; sym_check(tx_info(&ti) == (in ? 1 : 0), "tx_info"); if (in) sym_check(same(ti.xid, mine), "a routine is in its caller's transaction"); }
  if (plan == RET || (plan == PLAIN && sym_case() != NORM)) call_other(sym_bool("notran"));
  if (plan == OWNEND || (plan == FAILS && how == 2)) { int k = sym_pick("own end", 0, 3); if (k == 0) { sym_check(tx_commit() == TX_PROTOCOL_ERROR, "only the process that began a transaction ends it"); } else if (k == 1) sym_check(tx_rollback() == TX_PROTOCOL_ERROR, "only the process that began a transaction ends it"); else if (k == 2) { int r = tpcommit(0), e = tperrno; sym_check(r == -1 && e == TPEPROTO, "only the process that began a transaction ends it"); } else { int r = tpabort(0), e = tperrno; sym_check(r == -1 && e == TPEPROTO, "only the process that began a transaction ends it"); } sym_check(tpgetlev() == 1 && !ends, "a refused end changes nothing"); call_other(false); }
  if (plan == SUSP) { TPTRANID t; sym_check(tpsuspend(&t, 0) == 0 && tpgetlev() == 0 && suspended, "a routine can suspend the transaction"); call_other(false); sym_check(tpresume(&t, 0) == 0 && tpgetlev() == 1, "a routine can resume the transaction"); call_other(false); int r = tx_commit(); sym_check(r == TX_PROTOCOL_ERROR && !ends, "only the process that began a transaction ends it"); }
  if (plan == LEFT) { began = true; sym_check(tpbegin(0, 0) == 0 && starts == 1, "a routine can begin a transaction"); call_other(false); }
  if (plan == FWD || (plan == NOEND && how == 2)) tpforward((char *)"OTHER", s->data, s->len, 0);
  if (plan == FAILS || (plan == LEFT && how == 1)) { if (how == 0) return; throw std::runtime_error("routine"); }
  if (plan == LEFT && how == 2) tpforward((char *)"OTHER", s->data, s->len, 0);
  tpreturn(rval, 5, s->data, s->len, 0); }
static void send() {
  plan = nreq == 0 ? sym_case() : nreq == 1 ? (sym_case() == NORM ? NORM : RET) : PLAIN; tran = plan != PLAIN && plan != LEFT; ran = bad = began = false; starts = ends = 0; startrc = endrc = XA_OK; cd = 3 + nreq; rval = TPSUCCESS; how = 0; if (plan == RET || plan == NORM || plan == SUSP) rval = sym_bool("fails") ? TPFAIL : TPSUCCESS; if (plan == FAILS || plan == LEFT || plan == NOEND) how = sym_pick("how", 0, 2); if (plan == NOEND && how == 1) rval = TPFAIL;
  if (plan == NOSTART) { startrc = sym_int("xa_start result"); sym_assume(startrc != XA_OK); } if (plan == NOEND) { endrc = sym_int("xa_end result"); sym_assume(endrc != XA_OK); }
  static int next = 0; if (tran) { mine.formatID = 1; mine.gtrid_length = 4; mine.bqual_length = 1; memset(mine.data, 0x30 + next++, 5); id = M->transactions().start(mine, M->find_group(1)); }
  msg m; char *p = tpalloc((char *)"STRING", nullptr, 16); strcpy(p, "in"); m.set_data(p, 0); tpfree(p); strcpy(m->servicename, "S"); m->replyq = cq; m->cd = cd; m->flags = tran ? TPTRAN : 0; m->gttid = tran ? id : fux::bad_gttid; if (plan == BADID) { bad = true; m->gttid = sym_u16("id"); sym_assume(m->gttid != id); M->transactions().start({2, 1, 0, "x"}, 0); M->transactions().end(id + 1); } m->cat = fux::ipc::application; m->rval = 0; m->rcode = 0; fux::ipc::qsend(rq, m, 0, fux::ipc::notime); }
static void done_check() {
  sym_check(env_lock_depth == 0, "the lock is given back"); bool in = tran && !bad && plan != NORM && plan != NOSTART; sym_check(ran == (!bad && plan != NOSTART), "a request is served if its transaction can be joined"); sym_check(starts == (bad || plan == NORM || plan == PLAIN ? 0 : 1), "a server joins a transaction once"); sym_check(ends == (in || began), "a server's part of the work ends with its reply"); sym_check(!suspended, "nothing stays suspended");
  bool fwd = plan == FWD || (plan == NOEND && how == 2 && 0); bool ok = rval == TPSUCCESS && plan != FAILS && plan != NOEND && plan != LEFT && plan != BADID && plan != NOSTART; if (in) sym_check((endflags == TMSUCCESS) == ((plan == RET || plan == SUSP || plan == OWNEND || plan == NOEND) ? (rval == TPSUCCESS) : plan == FWD), "work that failed is ended as failed");
  if (tran && !bad) { XID &x = M->transactions().at(id).xid; sym_check(same(x, mine), "the transaction goes on"); sym_check(M->transactions().has_joined(id, M->find_group(1)), "the transaction goes on"); if (plan != NORM && plan != NOSTART) sym_check(M->transactions().has_joined(id, M->find_group(GRP)), "a group that worked takes part"); }
  if (tran) M->transactions().end(id); sym_check(live_transactions() == 0, "a server's own transactions do not outlive its reply");
  if (fwd) { sym_check(env_q_len(oq) == 1 && env_q_len(cq) == 0, "a forwarded request is passed on"); msg m; fux::ipc::qrecv(oq, m, 0, 0); sym_check((m->flags & TPTRAN) && m->gttid == id, "a forwarded request stays in its transaction"); sym_reach("forwarded"); return; }
  sym_check(env_q_len(oq) == 0 && env_q_len(cq) == 1, "a request gets exactly one reply"); msg m; fux::ipc::qrecv(cq, m, 0, 0); sym_check(m->cd == cd, "the reply is for the call"); if (ok) { sym_check(m->rval == TPMINVAL && m->rcode == 5, "a reply carries the routine's return value"); sym_reach("reply"); } else if (rval == TPFAIL) { sym_check(m->rval == TPESVCFAIL || (plan == NOEND && m->rval == TPESVCERR), "a reply carries the routine's return value"); sym_reach("failure reply"); } else { sym_check(m->rval == TPESVCERR, "the caller is told that the transaction cannot be committed"); sym_reach("error reply"); }
  if (began) sym_reach("left open"); }
static int on_empty(int id, long) { sym_check(id == rq, "waits on its own queue"); if (nreq) done_check(); if (nreq < 3) { send(); nreq++; return 1; } msg m; fux::fml32buf b; b.put(TA_SRVID, 0, (long)SRV); b.put(TA_GRPNO, 0, (long)GRP); m.set_data((char *)b.ptr(), 0); strcpy(m->servicename, ".stop"); m->replyq = cq; m->cd = 9; m->flags = 0; m->cat = fux::ipc::application; fux::ipc::qsend(rq, m, 0, fux::ipc::notime); stopping = true; return 1; }
static int svrinit(int, char **) { return sym_case() == NORM ? 0 : tpopen(); } static void svrdone() {} static int mainloop(int) { return 0; } static int thrinit(int, char **) { return 0; } static void thrdone() {}
extern "C" void harness_main() {
  M = &world(); M->mach().blocktime = 15000; M->make_group(1, "G1", "", "", ""); M->make_group(GRP, "G2", "RM:x", "", ""); sidx = M->make_server(SRV, GRP, "srv", "", "q1"); M->servers().at(sidx).mindispatchthreads = 1; rq = M->make_service_rqaddr(sidx); cq = fux::ipc::qcreate(); int s2 = M->make_server(8, 1, "other", "", "q2"); oq = M->make_service_rqaddr(s2); M->advertise("OTHER", M->servers().at(s2).rqaddr, s2);
  static tmdsptchtbl_t tab[] = {{"S", "s", routine, 0, 0, nullptr}, {nullptr, nullptr, nullptr, 0, 0, nullptr}}; static tmsvrargs_t args; args.xa_switch = &sw; args.tmdsptchtbl = tab; args.svrinit = svrinit; args.svrdone = svrdone; args.mainloop = mainloop; args.svrthrinit = thrinit; args.svrthrdone = thrdone;
  env_on_empty = on_empty; static const char *argv[] = {"srv", "-A", "-i", "7", "-g", "2", nullptr}; int rc = _tmstartserver(6, (char **)argv, &args); sym_check(rc == 0 && stopping && nreq == 3, "a server ends when it is told to"); sym_reach("end");
}
