// C16: the calls of one application process against the transaction state table of the TX specification
#include "world.h"
#include <tpadm.h>
#include "ipc.h"
#include "misc.h"
#include "fux.h"
#include "trx.h"
using fux::ipc::msg;
namespace fux::tx { extern uint16_t grpno; } namespace fux::glob { extern xa_switch_t *xasw; }
#ifndef MORE
#define MORE 1
#endif
static mib *M; static int tmq, myq; static const int GRP = 5;
static int budget; static bool faulted; static int xa_err() { static const int e[] = {XAER_RMERR, XAER_RMFAIL, XAER_PROTO, XA_RBROLLBACK}; return e[sym_pick("xa error", 0, 2)]; }
static bool fault() { if (!budget || !sym_bool("xa fails")) return false; budget--; return faulted = true; }
static int opened; static int assoc; static XID axid; // 0 none, 1 active, 2 suspended
static std::vector<XID> used;
static bool same(const XID &a, const XID &b) { return a.formatID == b.formatID && a.gtrid_length == b.gtrid_length && a.bqual_length == b.bqual_length && !memcmp(a.data, b.data, a.gtrid_length + a.bqual_length); }
static int x_open(char *i, int rm, long fl) { sym_check(rm == GRP && fl == TMNOFLAGS && !strcmp(i, "db=1"), "the resource manager of the group is opened with its configured string"); if (fault()) return xa_err(); opened++; return XA_OK; }
static int x_close(char *i, int rm, long fl) { sym_check(rm == GRP && fl == TMNOFLAGS && !strcmp(i, "bye"), "the resource manager of the group is closed with its configured string"); sym_check(assoc != 1, "a resource manager is not closed inside a transaction"); if (fault()) return xa_err(); opened = 0; return XA_OK; }
static int x_start(XID *x, int rm, long fl) { sym_check(rm == GRP && opened, "work starts at an open resource manager"); sym_check(assoc != 1, "work does not start inside a transaction"); if (fl == TMRESUME) sym_check(assoc == 2 && same(*x, axid), "the transaction resumed is the one suspended"); else { sym_check(fl == TMNOFLAGS, "a new transaction starts"); for (auto &u : used) sym_check(!same(u, *x), "a transaction identifier is new"); } if (fault()) return xa_err(); assoc = 1; axid = *x; used.push_back(*x); return XA_OK; }
static int x_end(XID *x, int rm, long fl) { sym_check(rm == GRP && assoc == 1 && same(*x, axid), "work ends for the current transaction"); sym_check(fl == TMSUCCESS || fl == TMSUSPEND || fl == TMFAIL, "work ends"); if (fault()) { if (fl != TMSUSPEND) assoc = 0; return xa_err(); } assoc = fl == TMSUSPEND ? 2 : 0; return XA_OK; }
static int x_two(XID *, int, long) { sym_fail("the transaction manager's part is not done here"); }
static int x_rec(XID *, long, int, long) { return 0; } static int x_com(int *, int *, int, long) { return 0; }
static xa_switch_t sw = {"RM", TMNOFLAGS, 0, x_open, x_close, x_start, x_end, x_two, x_two, x_two, x_rec, x_two, x_com};
// the model
static int S, chained; static long when, timeout; static XID cur; static bool has_sus; static XID sus; static TPTRANID susid; static int live;
static int told_prepare, told_commit, told_rollback, vote, result2, hbudget;
static int on_empty(int id, long) { // the transaction manager of the group answers
  if (env_q_len(tmq) == 0) sym_end(); sym_check(env_lock_depth == 0, "no lock is held while waiting"); msg m; fux::ipc::qrecv(tmq, m, 0, 0); sym_check(!strcmp(m->servicename, ".TM") && m->gttid == fux::bad_gttid, "the transaction manager is called"); char *p = tpalloc((char *)"FML32", nullptr, 1024); m.get_data(&p); FBFR32 *f = (FBFR32 *)p; long fn = -1, rm = -1; CFget32(f, TA_XAFUNC, 0, (char *)&fn, nullptr, FLD_LONG); CFget32(f, TA_RMID, 0, (char *)&rm, nullptr, FLD_LONG); sym_check(rm == GRP, "the group that took part is told"); char xs[400]; FLDLEN32 xl = sizeof xs; CFget32(f, TA_XID, 0, xs, &xl, FLD_STRING); XID x = fux::to_xid(xs); sym_check(same(x, cur), "the transaction told is the one ended");
  long rc = XA_OK; if (fn == 0) { told_prepare++; static const int v[] = {XA_OK, XA_RDONLY, XA_RBROLLBACK, XAER_NOTA}; vote = v[sym_pick("vote", 0, 2)]; rc = vote; } else { if (fn == 1) told_commit++; else told_rollback++; result2 = XA_OK; if (hbudget && sym_bool("heuristic")) { hbudget = 0; static const int h[] = {XA_HEURMIX, XA_HEURHAZ, XA_HEURRB, XA_HEURCOM, XAER_RMFAIL}; result2 = h[sym_pick("outcome", 0, 4)]; } rc = result2; }
  CFchg32(f, TA_XARET, 0, (char *)&rc, 0, FLD_LONG); msg r; r.set_data(p, 0); r->mtype = m->cd; r->cd = m->cd; r->rval = TPMINVAL; r->rcode = 0; r->flags = 0; r->cat = fux::ipc::application; fux::ipc::qsend(m->replyq, r, 0, fux::ipc::notime); tpfree(p); return 1; }
static void audit() {
  sym_check(env_lock_depth == 0, "the lock is given back"); TXINFO i; memset(&i, 0x55, sizeof i); int rc = tx_info(&i), lev = tpgetlev(), lerr = tperrno; if (S == 0) { sym_check(rc == TX_PROTOCOL_ERROR, "nothing but opening works before opening"); sym_check(lev == -1 && lerr == TPEPROTO, "nothing but opening works before opening"); }
  else { bool in = S >= 3; sym_check(rc == (in ? 1 : 0) && lev == (in ? 1 : 0), "the information call tells whether the caller is in a transaction"); if (in) { sym_check(same(i.xid, cur), "the information call gives the identifier of the transaction"); sym_check(assoc == 1 && same(axid, cur), "inside a transaction work is done for it"); } else { sym_check(i.xid.formatID == -1, "the information call gives no identifier outside a transaction"); sym_check(assoc != 1, "outside a transaction no work is done for one"); }
    sym_check(i.when_return == when && i.transaction_control == chained && i.transaction_timeout == timeout, "the information call gives the characteristics set"); if (in) sym_check(i.transaction_state == TX_ACTIVE, "a transaction is active"); }
  if (S < 3) { sym_check(!fux::tx::transactional() && fux::tx::gttid() == fux::bad_gttid, "calls outside a transaction carry none"); } else { sym_check(fux::tx::transactional(), "calls inside a transaction carry it"); auto g = fux::tx::gttid(); sym_check(same(M->transactions().at(g).xid, cur), "calls inside a transaction carry it"); for (size_t k = 0; k < M->transactions().max_groups; k++) sym_check((M->transactions().has_joined(g, k) != 0) == (k == M->find_group(GRP)), "a new transaction has its starter as the only participant"); }
  int n = 0; auto &t = M->transactions(); for (size_t k = 0; k < t.len; k++) if (t[k].xid.formatID != -1) { n++; sym_check((S >= 3 && same(t[k].xid, cur)) || (has_sus && same(t[k].xid, sus)), "a finished transaction occupies no place"); } sym_check(n == (S >= 3) + has_sus, "every unfinished transaction has its place"); }
static void began() { TXINFO i; tx_info(&i); cur = i.xid; }
static void ended(int rc, bool commit, bool startfails) { // after tx_commit or tx_rollback that was allowed
  int base = rc <= TX_NO_BEGIN ? rc - TX_NO_BEGIN : rc; bool nobegin = rc <= TX_NO_BEGIN; (void)startfails;
  bool ok = commit && told_rollback == 0, heur = result2 == XA_HEURMIX || result2 == XA_HEURHAZ || (commit ? result2 == (ok ? XA_HEURRB : XA_HEURCOM) : result2 == XA_HEURCOM) || (ok && result2 == XAER_RMFAIL);
  if (heur) { sym_check(base == TX_MIXED || base == TX_HAZARD || base == TX_ROLLBACK || (!commit && base == TX_COMMITTED), "the caller is told that the outcome is not the one asked for"); if (result2 == XA_HEURMIX) sym_check(base == TX_MIXED, "a mixed outcome is told"); if (result2 == XA_HEURHAZ) sym_check(base == TX_HAZARD, "an unknown outcome is told"); sym_reach("heuristic outcome"); }
  if (commit) { sym_check(told_prepare == 1, "a participant is asked for its vote"); if (vote == XA_RBROLLBACK) sym_check(!ok, "a refusal rolls back"); if (vote == XA_OK && !ok) sym_check(told_rollback == 1, "a participant is told the outcome"); if (vote == XA_OK && ok) sym_check(told_commit == 1, "a participant is told the outcome"); sym_check(told_commit + told_rollback == (vote != XA_RDONLY), "a participant is told one outcome"); if (heur) ; else if (vote != XA_RDONLY) sym_check(base == (ok ? TX_OK : TX_ROLLBACK), "the caller is told the outcome"); else sym_check(base == TX_OK || base == TX_ROLLBACK, "the caller is told the outcome"); sym_reach(ok ? "committed" : "rolled back"); }
  else { sym_check(told_prepare == 0 && told_commit == 0 && told_rollback == 1, "a rollback is told"); if (!heur) sym_check(base == TX_OK, "a rollback succeeds"); sym_reach("aborted"); }
  if (!chained) { sym_check(!nobegin, "unchained: no new transaction"); S = 1; } else if (nobegin) { sym_check(faulted, "a new transaction begins in chained mode"); S = 2; sym_reach("no begin"); } else { S = 4; XID old = cur; began(); sym_check(!same(old, cur) && cur.formatID != -1, "chained: a new transaction begins"); sym_reach("chained"); } }
enum { OPEN, CLOSE, BEGIN, COMMIT, ROLLBACK, WHEN, CONTROL, TIMEOUT, SUSPEND, RESUME, TPB, BADARG, OPS };
static void op(int o) {
  faulted = false; told_prepare = told_commit = told_rollback = 0; vote = XA_OK; result2 = XA_OK; int rc;
  switch (o) {
  case OPEN: rc = tx_open(); if (faulted) { sym_check(rc == TX_ERROR || rc == TX_FAIL, "a resource manager that cannot be opened is told"); } else { sym_check(rc == TX_OK, "opening succeeds"); if (S == 0) S = chained ? 2 : 1; } break;
  case CLOSE: rc = tx_close(); if (S >= 3) sym_check(rc == TX_PROTOCOL_ERROR, "closing inside a transaction is refused"); else if (faulted) sym_check(rc == TX_ERROR || rc == TX_FAIL, "a resource manager that cannot be closed is told"); else { sym_check(rc == TX_OK, "closing succeeds"); S = 0; } break;
  case BEGIN: case TPB: { long t = 0; if (o == TPB) { t = sym_range("tpbegin timeout", 0, 1000); rc = tpbegin(t, 0); int e = tperrno; if (S) timeout = t; if (rc == -1) { sym_check(e == (S == 0 || S >= 3 ? TPEPROTO : TPERMERR), "a refused begin leaves its error"); rc = S == 0 || S >= 3 ? TX_PROTOCOL_ERROR : TX_ERROR; } else sym_check(e == 0 && rc == 0, "a successful begin leaves no error"); } else rc = tx_begin();
    if (S == 0 || S >= 3) { sym_check(rc == TX_PROTOCOL_ERROR, "a transaction is begun only outside one, after opening"); sym_reach("refused"); } else if (faulted) sym_check(rc == TX_ERROR || rc == TX_FAIL, "a transaction that cannot start is told"); else { sym_check(rc == TX_OK, "a transaction begins"); S += 2; began(); sym_reach("begun"); } break; }
  case COMMIT: if (sym_bool("tp call")) { rc = tpcommit(0); int e = tperrno; if (S < 3) { sym_check(rc == -1 && e == TPEPROTO, "commit needs a transaction"); break; } if (chained) { int s = sym_pick("skip", 0, 0); (void)s; sym_end(); } ended(rc == 0 ? TX_OK : e == TPEABORT ? TX_ROLLBACK : e == TPEHEURISTIC ? TX_MIXED : e == TPEHAZARD ? TX_HAZARD : -99, true, false); sym_check(rc == 0 ? e == 0 : rc == -1, "errors"); break; } rc = tx_commit(); if (S < 3) { sym_check(rc == TX_PROTOCOL_ERROR, "commit needs a transaction"); break; } ended(rc, true, false); break;
  case ROLLBACK: if (sym_bool("tp call")) { rc = tpabort(0); int e = tperrno; if (S < 3) { sym_check(rc == -1 && e == TPEPROTO, "rollback needs a transaction"); break; } if (chained) sym_end(); ended(rc == 0 ? TX_OK : e == TPEHEURISTIC ? TX_MIXED : e == TPEHAZARD ? TX_HAZARD : e == TPEPROTO ? TX_COMMITTED : -99, false, false); break; } rc = tx_rollback(); if (S < 3) { sym_check(rc == TX_PROTOCOL_ERROR, "rollback needs a transaction"); break; } ended(rc, false, false); break;
  case WHEN: { long v = sym_long("when"); rc = tx_set_commit_return(v); if (S == 0) sym_check(rc == TX_PROTOCOL_ERROR, "nothing but opening works before opening"); else if (v != 0 && v != 1) sym_check(rc == TX_EINVAL, "characteristics accept only valid values"); else { sym_check(rc == TX_OK, "characteristics accept valid values"); when = v; } break; }
  case CONTROL: { long v = sym_long("control"); rc = tx_set_transaction_control(v); if (S == 0) sym_check(rc == TX_PROTOCOL_ERROR, "nothing but opening works before opening"); else if (v != 0 && v != 1) sym_check(rc == TX_EINVAL, "characteristics accept only valid values"); else { sym_check(rc == TX_OK, "characteristics accept valid values"); if (v) { chained = 1; S += S & 1; } else { chained = 0; S -= !(S & 1); } } break; }
  case TIMEOUT: { long v = sym_long("timeout"); rc = tx_set_transaction_timeout(v); if (S == 0) sym_check(rc == TX_PROTOCOL_ERROR, "nothing but opening works before opening"); else if (v < 0) sym_check(rc == TX_EINVAL, "characteristics accept only valid values"); else { sym_check(rc == TX_OK, "characteristics accept valid values"); timeout = v; } break; }
  case SUSPEND: { TPTRANID id; memset(&id, 0, sizeof id); if (S >= 3 && has_sus) sym_end(); rc = tpsuspend(&id, 0); int e = tperrno; if (S < 3) sym_check(rc == -1 && e == TPEPROTO, "suspending needs a transaction"); else if (faulted) { sym_check(rc == -1 && e == TPERMERR, "a transaction that cannot be suspended is told"); sym_reach("suspend failed"); } else { sym_check(rc == 0 && e == 0, "a transaction is suspended"); has_sus = true; sus = cur; susid = id; S -= 2; sym_reach("suspended"); } break; }
  case RESUME: { TPTRANID id = susid; int k = has_sus ? sym_pick("what", 0, 1) : 1; if (k == 1) { int w = sym_pick("wrong", 0, 2); memset(&id, 0, sizeof id); if (w == 0) { id.info[0] = 1; id.info[1] = sym_long("gtrid"); id.info[2] = sym_long("bqual"); } else if (w == 1) id.info[0] = -1; else if (has_sus) { id = susid; ((char *)id.info)[24 + 7] ^= 0x40; } }
    if (k == 0 && assoc != 2 && S < 3) sym_end(); rc = tpresume(&id, 0); int e = tperrno; if (k) { sym_check(rc == -1 && (e == TPEINVAL || e == TPETRAN || e == TPEPROTO), "only a suspended transaction can be resumed"); sym_reach("wrong id"); } else if (S == 0 || S >= 3) sym_check(rc == -1 && e == TPEPROTO, "resuming inside a transaction is refused"); else if (faulted) sym_check(rc == -1 && e == TPERMERR, "a transaction that cannot be resumed is told"); else { sym_check(rc == 0 && e == 0, "a suspended transaction is resumed"); has_sus = false; cur = sus; S += 2; sym_reach("resumed"); } break; }
  case BADARG: { int k = sym_pick("call", 0, 5); long fl = sym_long("flags"); if (fl == 0) sym_end(); TPTRANID id; memset(&id, 0, sizeof id); int r2 = k == 0 ? tpbegin(0, fl) : k == 1 ? tpcommit(fl) : k == 2 ? tpabort(fl) : k == 3 ? tpsuspend(&id, fl) : k == 4 ? tpsuspend(nullptr, 0) : tpresume(nullptr, 0); int e = tperrno; sym_check(r2 == -1 && e == TPEINVAL, "invalid arguments are refused"); sym_reach("bad argument"); } }
  audit(); }
extern "C" void harness_main() {
  M = &world(); M->mach().blocktime = 15000; M->make_group(4, "G4", "", "", ""); M->make_group(GRP, "G5", "RM:db=1", "bye", ""); int s4 = M->make_server(1, 4, "TMS", "", "q4"); M->make_service_rqaddr(s4); M->advertise(".TM", M->servers().at(s4).rqaddr, s4); int s = M->make_server(1, GRP, "TMS", "", "q1"); tmq = M->make_service_rqaddr(s); M->advertise(".TM", M->servers().at(s).rqaddr, s);
  fux::tx::grpno = GRP; fux::glob::xasw = &sw; env_on_empty = on_empty; int cs = sym_case(), pre = cs / OPS, first = cs % OPS; audit();
  if (pre >= 1) op(OPEN); if (pre == 3 || pre == 4) { sym_check(tx_set_transaction_control(TX_CHAINED) == TX_OK, "chained"); chained = 1; S = 2; } if (pre == 2 || pre == 4 || pre == 5) op(BEGIN); if (pre == 5) op(SUSPEND);
  budget = hbudget = 1; op(first); if (result2 != XA_OK) { static const int few[] = {CLOSE, BEGIN, ROLLBACK}; op(few[sym_pick("then", 0, 2)]); return; } hbudget = 0;
  for (int k = 0; k < MORE; k++) op(sym_pick("next", 0, OPS - 2));
  op(sym_pick("last", 0, OPS - 2)); sym_check(env_q_len(tmq) == 0, "the transaction manager is told no more"); sym_reach("end");
}
