// C15: one server process (real _tmstartserver and dispatch loop); the harness is its callers, its routines and the other servers
#include <stdexcept>
#include "world.h"
#include <tpadm.h>
#include "ipc.h"
#include "misc.h"
#include "fux.h"
using fux::ipc::msg;
enum { OWN, NEWBUF, CARR, NODATA, BADPTR, RETURNS, THROWS, FORWARD, FWD_BAD, FWD_FULL, GONE, STOP_OTHER, ADVERTISE, REPLY_GONE, GARBAGE, BADSTOP, PLANS };
struct request { int plan, dk, cd; bool noreply; int q; uint8_t byte; long rval, rcode, rflags; int fwd, own; char name[32]; bool handled; int routine; };
static mib *M; static int rq, cq, goneq, oq, sq, phase, nreq; static request R; static bool stopping; static int sidx; static int stops_back; static char *newbuf; static long fake[64]; static char expect[16]; static long expectlen; static bool unadv;
static const int SRV = 7, GRP = 1;
static void payload(msg &m, int dk, uint8_t b) { char *p = nullptr; long n = 0; if (dk == 0) { p = tpalloc((char *)"STRING", nullptr, 16); strcpy(p, "in"); p[2] = b; p[3] = 0; } else if (dk == 1) { p = tpalloc((char *)"CARRAY", nullptr, 3); p[0] = b; p[1] = 0; p[2] = 7; n = 3; } m.set_data(p, n); if (p) tpfree(p); }
static void got_data(msg &m, int dk, uint8_t b) { if (dk == 2) { sym_check(m.size_data() == 0, "no data is passed on as no data"); return; } char *p = tpalloc((char *)"STRING", nullptr, 64), t[9] = ""; long n = m.get_data(&p); tptypes(p, t, nullptr); if (dk == 0) sym_check(!strcmp(t, "STRING") && n == 4 && !strncmp(p, "in", 2) && (uint8_t)p[2] == b && p[3] == 0, "the data passed on is the data given"); else sym_check(!strcmp(t, "CARRAY") && n == 3 && (uint8_t)p[0] == b && p[1] == 0 && p[2] == 7, "the data passed on is the data given"); tpfree(p); }
static void seen(int which, TPSVCINFO *s) {
  sym_check(!R.handled, "a request is given to one routine once"); R.handled = true; R.routine = which; sym_check(!strcmp(s->name, R.name), "a routine is told the service requested"); sym_check(s->cd == R.cd || R.noreply, "a routine is told the descriptor"); sym_check(s->flags == 0, "a routine gets the flags sent"); sym_check(env_lock_depth == 0, "the registry is not locked while a routine runs");
  char t[9] = ""; if (R.dk == 2) { sym_check(s->data == nullptr && s->len == 0, "a request without data has none"); return; }
  tptypes(s->data, t, nullptr); if (R.dk == 0) sym_check(!strcmp(t, "STRING") && s->len == 4 && !strncmp(s->data, "in", 2) && (uint8_t)s->data[2] == R.byte && s->data[3] == 0, "a routine gets the data sent"); else sym_check(!strcmp(t, "CARRAY") && s->len == 3 && (uint8_t)s->data[0] == R.byte && s->data[1] == 0 && s->data[2] == 7, "a routine gets the data sent"); }
static char *fill_new(int dk) { char *p = tpalloc((char *)(dk == 1 ? "CARRAY" : "STRING"), nullptr, 16); if (dk == 1) { p[0] = R.byte; p[1] = 0; p[2] = 7; } else { strcpy(p, "in"); p[2] = R.byte; p[3] = 0; } return p; }
static void routine_c(TPSVCINFO *s) { seen(2, s); tpreturn(R.rval, R.rcode, s->data, s->len, 0); }
static void act(TPSVCINFO *s) {
  if (R.own) { if (R.own == 2) { tpfree(s->data); s->data = nullptr; } else { s->data = tprealloc(s->data, 1 << 18); sym_check(s->data != nullptr, "a routine can enlarge its buffer"); } sym_reach(R.own == 2 ? "freed" : "enlarged"); }
  switch (R.plan) {
  case OWN: case REPLY_GONE: case STOP_OTHER: case GONE: tpreturn(R.rval, R.rcode, s->data, s->len, R.rflags); break;
  case NEWBUF: R.dk = 0; tpreturn(R.rval, R.rcode, fill_new(0), 0, R.rflags); break;
  case CARR: R.dk = 1; tpreturn(R.rval, R.rcode, fill_new(1), 3, R.rflags); break;
  case NODATA: R.dk = 2; tpreturn(R.rval, R.rcode, nullptr, 0, R.rflags); break;
  case BADPTR: tpreturn(R.rval, R.rcode, (char *)(fake + 32), 3, 0); break;
  case RETURNS: return;
  case THROWS: if (R.rflags) throw std::runtime_error("routine"); throw 5;
  case FORWARD: case FWD_BAD: case FWD_FULL: { char *p = s->data; long n = s->len; if (R.fwd == 1) { p = fill_new(1); n = 3; R.dk = 1; } else if (R.fwd == 2) { p = nullptr; n = 0; R.dk = 2; } if (R.plan == FWD_FULL) { env_faults = F_MSGSND; env_fault_budget = 1; } tpforward((char *)(R.plan == FWD_BAD ? "NOWHERE" : "OTHER"), p, n, 0); break; }
  case ADVERTISE: { int rc = tpadvertise((char *)"C", routine_c); sym_check(rc == 0, "a routine can advertise a service"); tpunadvertise((char *)"B"); unadv = true; tpreturn(R.rval, R.rcode, s->data, s->len, 0); } }
  sym_fail("returning to the routine"); }
static void routine_a(TPSVCINFO *s) { seen(0, s); act(s); }
static void routine_b(TPSVCINFO *s) { seen(1, s); act(s); }
static void check_done() { // the request just processed
  env_faults = 0; sym_check(env_lock_depth == 0, "the lock is given back"); bool known = R.plan != GONE && R.plan != GARBAGE && R.plan != BADSTOP; if (R.plan == STOP_OTHER) { sym_check(stops_back >= 1, "a stop request for another server is passed on"); }
  sym_check(R.handled == known, "a request is given to the routine advertised, and only to it"); if (known) sym_check(R.routine == R.name[0] - 'A', "a request is given to the routine advertised under the name requested");
  bool fwd = R.plan == FORWARD || (R.plan == FWD_FULL && !env_fault_hit);
  if (fwd) { sym_check(env_q_len(oq) == 1, "a forwarded request reaches the other service once"); msg m; fux::ipc::qrecv(oq, m, 0, 0); sym_check(m->replyq == R.q && m->cd == R.cd, "a forwarded request keeps the caller's reply address"); sym_check(!strcmp(m->servicename, "OTHER"), "a forwarded request names the service"); sym_check(m->cat == fux::ipc::application && !(m->flags & TPTRAN) && m->gttid == fux::bad_gttid, "a forwarded request outside a transaction carries none"); got_data(m, R.dk, R.byte); sym_reach("forwarded"); } else sym_check(env_q_len(oq) == 0, "nothing else is forwarded");
  if (R.noreply || fwd) { sym_check(env_q_len(cq) == 0, "no reply is sent when none is wanted"); sym_reach(fwd ? "not answered here" : "no reply"); return; }
  if (R.plan == REPLY_GONE) { sym_check(env_q_len(cq) == 0, "a reply goes to its caller only"); sym_reach("caller gone"); return; }
  sym_check(env_q_len(cq) == 1, "a request gets exactly one reply"); msg m; fux::ipc::qrecv(cq, m, 0, 0); sym_check(m->cd == R.cd && m->cat == fux::ipc::application, "a reply carries the caller's descriptor");
  bool proper = R.plan == OWN || R.plan == NEWBUF || R.plan == CARR || R.plan == NODATA || R.plan == ADVERTISE || R.plan == STOP_OTHER;
  if (!proper) { sym_check(m->rval != TPMINVAL, "a request that was not served gets an error"); if (R.plan <= FWD_FULL) sym_check(m->rval == TPESVCERR, "a routine that does not return properly yields a service error"); sym_reach("error reply"); return; }
  long want = R.rflags ? TPESVCERR : R.rval == TPSUCCESS ? TPMINVAL : R.rval == TPFAIL ? TPESVCFAIL : TPESVCERR; sym_check(m->rval == want, "a reply carries the routine's return value"); sym_check(m->rcode == R.rcode, "a reply carries the routine's user code"); got_data(m, R.dk, R.byte); sym_reach("reply"); }
static void send(int k) { memset(&R, 0, sizeof R); R.plan = k == 0 ? sym_case() : OWN; R.dk = k == 0 ? sym_pick("data", 0, 2) : 0; int second = k && sym_case() <= FORWARD && sym_case() != GONE && !unadv ? sym_pick("second request", 0, 3) : 0; if (second) { static const int pl[] = {NODATA, OWN, FORWARD}; R.plan = pl[second - 1]; if (second == 2) R.dk = 2; if (second == 3) R.fwd = 2; } R.cd = k == 0 ? sym_range("cd", 1, 0x7fffffff) : 5; R.noreply = k == 0 && sym_bool("noreply"); R.byte = k == 0 ? sym_range("byte", 1, 255) : 'z'; R.rcode = sym_long("rcode"); R.rval = TPSUCCESS; strcpy(R.name, "A");
  if (k == 0) { if (R.plan <= NODATA) { static const long rv[] = {TPSUCCESS, TPFAIL, TPEXIT, 77}; R.rval = rv[sym_pick("rval", 0, 3)]; } if (R.plan <= NODATA || R.plan == THROWS) R.rflags = sym_bool("flags") ? 1 : 0; if (R.plan >= FORWARD && R.plan <= FWD_FULL) R.fwd = sym_pick("forwarded data", 0, 2); if (R.dk != 2 && (R.plan <= NODATA || R.plan == RETURNS || R.plan == FORWARD)) { bool keeps = R.plan == OWN || (R.plan == FORWARD && R.fwd == 0); R.own = R.noreply ? 1 : sym_pick("own buffer", 0, keeps ? 1 : 2); } if (R.plan != ADVERTISE) R.name[0] = 'A' + sym_bool("service b"); if (R.plan == GONE) { if (sym_bool("long")) { memset(R.name, 'x', 31); R.name[31] = 0; } else strcpy(R.name, "AA"); } }
  else if (unadv) { R.name[0] = sym_bool("withdrawn") ? 'B' : 'C'; if (R.name[0] == 'B') R.plan = GONE; }
  R.q = R.plan == REPLY_GONE ? goneq : R.noreply ? -1 : cq; if (R.noreply) R.cd = 0; env_fault_hit = 0;
  if (R.plan == STOP_OTHER) { msg m; fux::fml32buf b; bool other = sym_bool("other group"); b.put(TA_SRVID, 0, (long)(other ? SRV : SRV + 1)); b.put(TA_GRPNO, 0, (long)(other ? GRP + 1 : GRP)); m.set_data((char *)b.ptr(), 0); strcpy(m->servicename, ".stop"); m->replyq = cq; m->cd = 3; m->flags = 0; m->cat = fux::ipc::application; fux::ipc::qsend(rq, m, 0, fux::ipc::notime); return; }
  msg m; if (R.plan == BADSTOP && R.dk == 1) R.dk = 0; payload(m, R.dk, R.byte); if (R.plan == GARBAGE) { m.resize_data(sym_pick("bytes", 1, 2) * 20); memset(m->data, 'g', m.size_data()); } strcpy(m->servicename, R.plan == BADSTOP ? ".stop" : R.name); m->replyq = R.q; m->cd = R.cd; m->flags = 0; m->gttid = fux::bad_gttid; m->cat = fux::ipc::application; m->rval = 0; m->rcode = 0; fux::ipc::qsend(rq, m, 0, fux::ipc::notime); }
static void on_rcv(int id, long) { if (id != rq || R.plan != STOP_OTHER || !stops_back) return; if (env_q_len(rq) == 0) return; // the other server takes its stop request
  void (*f)(int, long) = env_on_rcv; env_on_rcv = nullptr; msg m; fux::ipc::qrecv(rq, m, 0, 0); env_on_rcv = f; if (strcmp(m->servicename, ".stop")) return; sym_check(m->replyq == cq && m->cd == 3, "a stop request is passed on unchanged"); fux::fml32buf b; char *p = (char *)b.ptr(); m.get_data(&p); long v = 0; CFget32((FBFR32 *)p, TA_SRVID, 0, (char *)&v, nullptr, FLD_LONG); long g = 0; CFget32((FBFR32 *)p, TA_GRPNO, 0, (char *)&g, nullptr, FLD_LONG); sym_check((v == SRV + 1 && g == GRP) || (v == SRV && g == GRP + 1), "a stop request is passed on unchanged");
  R.handled = false; msg r; payload(r, R.dk, R.byte); strcpy(r->servicename, R.name); r->replyq = R.q; r->cd = R.cd; r->flags = 0; r->gttid = fux::bad_gttid; r->cat = fux::ipc::application; fux::ipc::qsend(rq, r, 0, fux::ipc::notime); env_on_rcv = nullptr; }
static int on_send(int id, const void *, size_t, int) { if (id == rq && R.plan == STOP_OTHER && nreq == 1) stops_back++; return 0; }
static int on_empty(int id, long) {
  sym_check(id == rq, "a server waits on its own queue"); sym_check(M->servers().at(sidx).state == state_t::ACTive, "a server that takes requests is registered as active"); if (nreq) check_done();
  if (nreq < 2) { send(nreq); if (R.plan == STOP_OTHER && nreq == 0) { env_on_rcv = on_rcv; } nreq++; return 1; }
  msg m; fux::fml32buf b; b.put(TA_SRVID, 0, (long)SRV); b.put(TA_GRPNO, 0, (long)GRP); m.set_data((char *)b.ptr(), 0); strcpy(m->servicename, ".stop"); m->replyq = cq; m->cd = 9; m->flags = 0; m->cat = fux::ipc::application; fux::ipc::qsend(rq, m, 0, fux::ipc::notime); stopping = true; return 1; }
static int inited, done; static int svrinit(int, char **) { inited++; return 0; } static void svrdone() { done++; sym_check(stopping, "a server ends only when it is told to"); } static int mainloop(int) { return 0; } static int thrinit(int, char **) { return 0; } static void thrdone() {}
extern "C" void harness_main() {
  M = &world(); M->mach().blocktime = 15000; M->make_group(GRP, "G1", "", "", ""); M->make_group(GRP + 1, "G2", "", "", ""); sidx = M->make_server(SRV, GRP, "srv", "", "q1"); M->servers().at(sidx).mindispatchthreads = 1; int s2 = M->make_server(8, 2, "other", "", "q2"); oq = M->make_service_rqaddr(s2); M->advertise("OTHER", M->servers().at(s2).rqaddr, s2); rq = M->make_service_rqaddr(sidx); cq = fux::ipc::qcreate(); goneq = fux::ipc::qcreate(); fux::ipc::qdelete(goneq);
  static tmdsptchtbl_t tab[] = {{"A", "a", routine_a, 0, 0, nullptr}, {"B", "b", routine_b, 1, 0, nullptr}, {nullptr, nullptr, nullptr, 0, 0, nullptr}}; static tmsvrargs_t args; args.tmdsptchtbl = tab; args.svrinit = svrinit; args.svrdone = svrdone; args.mainloop = mainloop; args.svrthrinit = thrinit; args.svrthrdone = thrdone;
  env_on_empty = on_empty; env_on_msgsnd = on_send; static const char *argv[] = {"srv", "-A", "-i", "7", "-g", "1", nullptr}; int rc = _tmstartserver(6, (char **)argv, &args);
  sym_check(rc == 0 && inited == 1 && done == 1 && stopping && nreq == 2, "a server ends when it is told to"); sym_check(env_q_len(cq) == 1, "a stop request is answered"); msg m; fux::ipc::qrecv(cq, m, 0, 0); sym_check(m->cd == 9 && m->rval == TPMINVAL, "a stop request is answered"); sym_check(M->servers().at(sidx).state == state_t::INActive, "a stopped server is registered as inactive"); sym_check(env_lock_depth == 0, "the lock is given back"); sym_reach("stopped");
}
