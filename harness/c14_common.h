#pragma once
// a client process; the server's and the monitor's messages are made by the harness
#include "world.h"
#include <stdlib.h>
#include "ipc.h"
#include "misc.h"
using fux::ipc::msg;
static const int MAXC = 4; static mib *M; static int sq, sq2; static long reg_timeout;
struct callrec { int cd, id; char data; long flags; bool sent, replied, cancelled, delivered, noreply; long rval, rcode; int kind; uint8_t byte; };
static callrec calls[MAXC]; static int ncalls;
static accesser &me() { for (size_t i = 0; i < M->accessers().length(); i++) if (M->accessers().at(i).pid == env_pid) return M->accessers().at(i); sym_fail("the client is registered"); }
static long wait_until() { return me().rpid_timeout.time_since_epoch().count(); }
static void setup() { M = &world(); M->mach().blocktime = 15000; int s = M->make_server(1, 1, "srv", "", "q1"); sq = M->make_service_rqaddr(s); M->advertise("SVC", M->servers().at(s).rqaddr, s); int s2 = M->make_server(2, 2, "srv", "", "q2"); sq2 = M->make_service_rqaddr(s2); M->advertise("S2", M->servers().at(s2).rqaddr, s2); }
// take the request a call made from the server's queue; everything must be as the caller gave it
static void take(callrec &c, int q, const char *svc, const char *data, long len) {
  sym_check(env_q_len(q) == 1, "a call sends one request"); msg r; fux::ipc::qrecv(q, r, 0, 0); sym_check(!strcmp(r->servicename, svc), "a request names the service called"); sym_check(r->cat == fux::ipc::application, "a request is an application message"); sym_check(c.noreply ? r->replyq == -1 : r->replyq == me().rpid && r->cd == c.cd, "a request carries the caller's queue and descriptor"); sym_check(r->gttid == fux::bad_gttid && !(r->flags & TPTRAN), "a request outside a transaction carries none");
  if (data) { char *p = tpalloc((char *)"STRING", nullptr, 512); r.get_data(&p); char t[9] = ""; tptypes(p, t, nullptr); sym_check(!strcmp(t, len ? "CARRAY" : "STRING"), "a request carries the type given"); sym_check(len ? !memcmp(p, data, len) : !strcmp(p, data), "a request carries the data given"); tpfree(p); } else sym_check(r.size_data() == 0, "a request without data carries none"); }
// the server's reply; kind 0: STRING, 1: CARRAY of 3 bytes, 2: no data
static void reply(callrec &c) {
  msg r; char *p = nullptr; if (c.kind == 0) { p = tpalloc((char *)"STRING", nullptr, 16); strcpy(p, "answer"); p[5] = c.byte; } else if (c.kind == 1) { p = tpalloc((char *)"CARRAY", nullptr, 3); p[0] = 1; p[1] = 0; p[2] = c.byte; }
  r.set_data(p, 3); if (p) tpfree(p); r->rval = c.rval; r->rcode = c.rcode; r->flags = 0; r->mtype = c.cd; r->cd = c.cd; r->cat = fux::ipc::application; fux::ipc::qsend(me().rpid, r, 0, fux::ipc::notime); c.replied = true; }
static void unblock() { msg r; r->cat = fux::ipc::unblock; r->cd = 0; r->rval = 0; r->rcode = 0; fux::ipc::qsend(me().rpid, r, 0, fux::ipc::noblock); }
static void delivered(callrec &c, int rc, int err, char *data, long len, bool haslen) {
  sym_check(rc == (c.rval == TPMINVAL ? 0 : -1) && err == (c.rval == TPMINVAL ? 0 : c.rval), "a reply gives the return value of the service"); sym_check(tpurcode == c.rcode, "a reply gives the user code of the service");
  if (c.kind == 0) { char t[9] = ""; tptypes(data, t, nullptr); sym_check(!strcmp(t, "STRING"), "a reply has the type sent"); sym_check(!strncmp(data, "answe", 5) && (uint8_t)data[5] == c.byte && data[6] == 0, "a reply has the data of the call it answers"); if (haslen) sym_check(len == 7, "a reply has the length sent"); }
  else if (c.kind == 1) { char t[9] = ""; tptypes(data, t, nullptr); sym_check(!strcmp(t, "CARRAY"), "a reply has the type sent"); sym_check(data[0] == 1 && data[1] == 0 && (uint8_t)data[2] == c.byte, "a reply has the data of the call it answers"); if (haslen) sym_check(len == 3, "a reply has the length sent"); }
  else if (haslen) sym_check(len == 0, "a reply without data has no length"); }
