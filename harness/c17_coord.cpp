// C17: the process that ends a transaction; participants answer, refuse, fail, keep silent or cannot be reached
#include "tx_common.h"
#ifndef ODD
#define ODD 2
#endif
static const int N = 3; static const int grp[N] = {5, 6, 7}; static int tmq[N]; static bool joined[N], reach[N], removed[N]; static int votes[N], outcomes[N], prepares[N]; static bool silent[N], voted[N]; static long res2[N]; static int odd = ODD; static XID cur;
static int endrc; static int x_open(char *, int, long) { return XA_OK; } static int x_start(XID *x, int, long) { cur = *x; return XA_OK; } static int ends; static int x_end(XID *x, int, long fl) { if (fl == TMSUSPEND) return XA_OK; sym_check(same(*x, cur), "own work ends"); ends++; return endrc; } static int x_two(XID *, int, long) { sym_fail("the transaction manager's part is not done here"); }
static xa_switch_t sw = {"RM", TMNOFLAGS, 0, x_open, x_open, x_start, x_end, x_two, x_two, x_two, rec0, x_two, com0};
static accesser &me() { for (size_t i = 0; i < M->accessers().length(); i++) if (M->accessers().at(i).pid == env_pid) return M->accessers().at(i); sym_fail("the process is registered"); }
static int fq, fcd; static bool foreign_sent; static int latecd, latei = -1; static bool maybe[N]; static bool reverse; static bool timedout;
static void send_reply(int cd, int q, char *p, long rval) { msg r; r.set_data(p, 0); r->mtype = cd; r->cd = cd; r->rval = rval; r->rcode = 0; r->flags = 0; r->cat = fux::ipc::application; fux::ipc::qsend(q, r, 0, fux::ipc::notime); }
static void foreign() { char *p = tpalloc((char *)"STRING", nullptr, 16); strcpy(p, "mine"); send_reply(fcd, me().rpid, p, TPMINVAL); tpfree(p); foreign_sent = true; }
static bool strange(const char *what) { if (!odd || !sym_bool(what)) return false; odd--; return true; }
static void answer(int i) { // the transaction manager of group i serves one request
  msg m; fux::ipc::qrecv(tmq[i], m, 0, 0); sym_check(!strcmp(m->servicename, ".TM") && m->gttid == fux::bad_gttid && !(m->flags & TPTRAN), "the transaction manager is called outside the transaction"); sym_check(joined[i], "a group that did not take part is told nothing"); char *p = tpalloc((char *)"FML32", nullptr, 1024); m.get_data(&p); FBFR32 *f = (FBFR32 *)p; long fn = -1, rm = -1; CFget32(f, TA_XAFUNC, 0, (char *)&fn, nullptr, FLD_LONG); CFget32(f, TA_RMID, 0, (char *)&rm, nullptr, FLD_LONG); sym_check(rm == grp[i], "the group that took part is told"); char xs[400]; FLDLEN32 xl = sizeof xs; CFget32(f, TA_XID, 0, xs, &xl, FLD_STRING); XID x = fux::to_xid(xs); sym_check(same(x, cur), "the transaction told is the one ended");
  sym_check(ends == 1, "a participant is told only after the caller's own work has ended"); long rc = XA_OK, rval = TPMINVAL; bool put = true, quiet = false;
  if (fn == 0) { sym_check(++prepares[i] == 1 && !outcomes[i], "a participant is asked once"); if (strange("vote")) { int k = sym_pick("vote kind", 0, 5); if (k == 0) rc = XA_RBROLLBACK; else if (k == 1) rc = XAER_RMFAIL; else if (k == 2) put = false; else if (k == 3) { rval = TPESVCFAIL; } else if (k == 4) quiet = true; else rc = sym_int("vote code"); } else if (sym_bool("read only")) rc = XA_RDONLY; voted[i] = put && !quiet && rval == TPMINVAL && (rc == XA_OK || rc == XA_RDONLY); votes[i] = put && !quiet && rval == TPMINVAL ? rc : XAER_RMFAIL; if (quiet && sym_bool("late")) latecd = m->cd, latei = i; }
  else { sym_check(fn == 1 || fn == 2, "commit or rollback"); sym_check(!outcomes[i], "a participant is told one outcome once"); outcomes[i] = fn; res2[i] = XA_OK; if (strange("result")) { int k = sym_pick("result kind", 0, 3); if (k == 0) rc = fn == 1 ? XA_HEURRB : XA_HEURCOM; else if (k == 1) rc = XAER_RMFAIL; else if (k == 2) quiet = true; else rc = XA_HEURMIX; res2[i] = quiet ? XAER_RMFAIL : rc; } }
  if (!quiet) { if (put) CFchg32(f, TA_XARET, 0, (char *)&rc, 0, FLD_LONG); else Fdel32(f, TA_XARET, 0); send_reply(m->cd, m->replyq, p, rval); } tpfree(p); }
static int on_empty(int id, long) {
  sym_check(env_lock_depth == 0, "no lock is held while waiting"); if (id != me().rpid) sym_end(); if (latecd && ends && sym_bool("late answer now")) { maybe[latei] = true; char *p = tpalloc((char *)"FML32", nullptr, 256); long rc = XA_OK; CFchg32((FBFR32 *)p, TA_XARET, 0, (char *)&rc, 0, FLD_LONG); send_reply(latecd, id, p, TPMINVAL); tpfree(p); latecd = 0; return 1; }
  if (!foreign_sent && sym_bool("foreign reply now")) { foreign(); return 1; }
  for (int k = 0; k < N; k++) { int i = reverse ? N - 1 - k : k; if (reach[i] && !removed[i] && env_q_len(tmq[i]) > 0) { answer(i); return 1; } }
  long w = me().rpid_timeout.time_since_epoch().count(); sym_check(w >= env_now_ns && w <= env_now_ns + 15000L * 1000000, "a waiting process is registered with its time limit"); env_now_ns = w + 1; msg r; r->cat = fux::ipc::unblock; r->cd = 0; r->rval = 0; r->rcode = 0; fux::ipc::qsend(id, r, 0, fux::ipc::noblock); timedout = true; return 1; }
extern "C" void harness_main() {
  M = &world(5, 8, 8, 4); M->mach().blocktime = 15000; M->make_group(4, "G4", "", "", ""); int cs = sym_case(); bool commit = cs & 1; int missing = (cs >> 1) % 4, dead = cs / 8 % 4; // one group may have no TM, one may have lost its queue
  for (int i = 0; i < N; i++) { char nm[8] = "G5", q[8] = "q5"; nm[1] += i; q[1] += i; M->make_group(grp[i], nm, "", "", ""); reach[i] = missing != i + 1; if (reach[i]) { int s = M->make_server(1, grp[i], "TMS", "", q); tmq[i] = M->make_service_rqaddr(s); M->advertise(".TM", M->servers().at(s).rqaddr, s); } }
  int s = M->make_server(9, 4, "app", "", "q9"); fq = M->make_service_rqaddr(s); M->advertise("APP", M->servers().at(s).rqaddr, s); fux::tx::grpno = grp[0]; fux::glob::xasw = &sw; env_on_empty = on_empty;
  sym_check(tx_open() == TX_OK, "open"); if (sym_bool("chained")) tx_set_transaction_control(TX_CHAINED); TXINFO ti; tx_info(&ti); bool chained = ti.transaction_control == TX_CHAINED; sym_check(tx_begin() == TX_OK, "begin"); XID mine = cur; fcd = tpacall((char *)"APP", nullptr, 0, TPNOTRAN); sym_check(fcd > 0, "an application call"); joined[0] = true;
  for (int i = 1; i < N; i++) { joined[i] = sym_bool("joins"); if (joined[i]) M->transactions().join(fux::tx::gttid(), M->find_group(grp[i])); } if (missing && !joined[missing - 1]) sym_end(); if (dead) { if (missing == dead || !joined[dead - 1]) sym_end(); removed[dead - 1] = true; fux::ipc::qdelete(tmq[dead - 1]); }
  reverse = sym_bool("reverse"); endrc = XA_OK; if (strange("own end")) endrc = sym_bool("rollback code") ? XA_RBROLLBACK : XAER_RMFAIL; XID after = cur; (void)after; int rc = commit ? tx_commit() : tx_rollback(); XID next = cur; cur = mine;
  for (int i = 0; i < N; i++) if (maybe[i]) voted[i] = outcomes[i] == 1; // slow, but perhaps still in time
  bool allvoted = true, lost = false; int committed = 0, rolled = 0; for (int i = 0; i < N; i++) if (joined[i]) { if (!reach[i] || removed[i]) { lost = true; allvoted = false; } else { if (commit) sym_check(prepares[i] == 1, "every participant is asked for its vote"); else sym_check(prepares[i] == 0, "a rollback asks nobody"); allvoted = allvoted && voted[i]; committed += outcomes[i] == 1; rolled += outcomes[i] == 2; } }
  sym_check(!committed || !rolled, "all participants are told the same outcome"); if (committed) sym_check(commit && allvoted && endrc == XA_OK, "a transaction is committed only when everybody agreed"); for (int i = 0; i < N; i++) if (joined[i] && reach[i] && !removed[i] && !(commit && votes[i] == XA_RDONLY)) sym_check(outcomes[i] != 0, "no participant is left without an outcome");
  if (commit && allvoted && endrc == XA_OK) sym_check(!rolled, "a transaction everybody agreed on is committed"); bool odd2 = false, heur = false; for (int i = 0; i < N; i++) if (outcomes[i] && res2[i] != XA_OK) { odd2 = true; heur = heur || res2[i] != XAER_RMFAIL; }
  int base = rc <= TX_NO_BEGIN ? rc - TX_NO_BEGIN : rc; if (!commit) { sym_check(heur ? base == TX_MIXED || base == TX_COMMITTED : base == TX_OK, "the caller is told the outcome"); sym_reach("rollback"); } else if (allvoted && endrc == XA_OK) { sym_check((base == TX_OK) == !odd2, "the caller is told the outcome"); sym_check(base == TX_OK || base == TX_MIXED || base == TX_HAZARD || base == TX_ROLLBACK, "the caller is told the outcome"); sym_reach(odd2 ? "commit with failures" : "commit"); } else { sym_check(heur ? base == TX_MIXED : base == TX_ROLLBACK, "the caller is told the outcome"); sym_reach("refused"); } if (lost) sym_reach("unreachable");
  if (timedout) sym_reach("no answer"); sym_check(live_transactions() == chained, "a finished transaction occupies no place"); sym_check(tx_info(nullptr) == chained, "afterwards the caller is not in the transaction"); if (chained) { sym_check(!same(next, mine), "chained: a new transaction"); } else sym_check(tx_begin() == TX_OK, "another transaction can begin");
  // the application's own call is still answered
  if (!foreign_sent) foreign(); char *d = tpalloc((char *)"STRING", nullptr, 16); long len = 0; env_on_empty = nullptr; int cd = fcd, g = tpgetrply(&cd, &d, &len, TPNOTRAN & 0); sym_check(g == 0 && !strcmp(d, "mine") && len == 5, "replies to the application are not taken by the transaction's end"); sym_reach("end");
}
