// C15: how a server starts: what it advertises, when it counts as running, and what keeps it from starting
#include "world.h"
#include <sstream>
#include <iostream>
#include <tpadm.h>
#include "ipc.h"
#include "misc.h"
#include "fux.h"
using fux::ipc::msg; extern int _tmbuilt_with_thread_option;
static mib *M; static int rq, cq, oq, inits, ends, loops, asked, init_rc, given_argc, steps, got; static char **given_argv; static char nm[3]; static std::string svc[3], ask[3]; static int ex[3] = {-1, -1, -1}; static int nsvc; static bool all, used, stopped; static const int SRV = 7, GRP = 1; static size_t sidx, oidx;
static void serve(TPSVCINFO *s, int k) { got++; sym_check(k == ex[asked] && ask[asked] == s->name, "a request reaches the routine built for its service"); tpreturn(TPSUCCESS, 0, s->data, 0, 0); }
static void r0(TPSVCINFO *s) { serve(s, 0); } static void r1(TPSVCINFO *s) { serve(s, 1); } static void r2(TPSVCINFO *s) { serve(s, 2); }
static bool offered(const std::string &n) { bool any = false; for (size_t i = 0; i < M->advertisements()->len; i++) { auto &a = M->advertisements().at(i); if (a.server == sidx && n == M->services().at(a.service).servicename) { sym_check(!any, "a service is advertised once"); any = true; sym_check(M->queues().at(a.queue).msqid == rq, "services are advertised at the server's own queue"); } } return any; }
static int on_empty(int id, long) {
  sym_check(id == rq && !env_lock_depth, "a server waits at its queue without the lock"); sym_check(M->servers().at(sidx).state == state_t::ACTive, "a server that takes requests is registered as running"); sym_check(inits == 1 && !ends, "a server is initialised before it takes requests"); sym_check(!stopped, "a stopped server takes no requests");
  if (steps == 0) for (int i = 0; i < 3; i++) sym_check(offered(ask[i]) == (ex[i] >= 0), "exactly the services it was told to are advertised");
  msg m; if (steps < 3) { asked = steps++; char *p = tpalloc((char *)"STRING", nullptr, 8); strcpy(p, "x"); m.set_data(p, 0); tpfree(p); strcpy(m->servicename, ask[asked].c_str()); m->replyq = cq; m->cd = 10 + asked; m->flags = 0; m->gttid = fux::bad_gttid; m->cat = fux::ipc::application; m->rval = 0; }
  else { fux::fml32buf b; b.put(TA_SRVID, 0, (long)SRV); b.put(TA_GRPNO, 0, (long)GRP); m.set_data((char *)b.ptr(), 0); strcpy(m->servicename, ".stop"); m->replyq = -1; m->cd = 0; m->flags = 0; m->cat = fux::ipc::application; stopped = true; }
  fux::ipc::qsend(rq, m, 0, fux::ipc::notime); return 1; }
static int svrinit(int n, char **v) { inits++; given_argc = n; given_argv = v; sym_check(M->servers().at(sidx).state != state_t::ACTive, "a server is running only when it is initialised"); return init_rc; } static void svrdone() { ends++; } static int mainloop(int) { loops++; return 0; } static int thrinit(int, char **) { return 0; } static void thrdone() {}
extern "C" void harness_main() {
  int c = sym_case(); // 0 what is advertised, 1 which server, 2 initialisation fails, 3 full table, 4 help/list, 5 bad option, 6 options of its own, 7 services named by -s
  int room = c == 3 ? sym_pick("room", 0, 2) : 9; M = &world(4, c == 3 ? 1 + room : 9); M->make_group(GRP, "G1", "", "", ""); M->make_group(2, "G2", "", "", ""); sidx = M->make_server(SRV, GRP, "srv", "", "q1"); oidx = M->make_server(8, 2, "other", "", "q2"); oq = M->make_service_rqaddr(oidx); M->advertise("OTHER", M->servers().at(oidx).rqaddr, oidx); rq = M->make_service_rqaddr(sidx); cq = fux::ipc::qcreate();
  nm[0] = 'A' + sym_range("name", 0, 25); svc[0] = std::string(1, nm[0]) + "_1"; svc[1] = std::string(1, nm[0]) + "_2"; svc[2] = std::string("thelongestname") + nm[0]; nsvc = c == 0 ? sym_pick("services", 0, 3) : 3; used = M->servers().at(oidx).state == state_t::ACTive;
  static tmdsptchtbl_t tab[4]; static void (*f[])(TPSVCINFO *) = {r0, r1, r2}; for (int i = 0; i < nsvc; i++) { tab[i].svcname = svc[i].c_str(); static const char *fn[] = {"f", "f1", "f2"}; tab[i].funcname = fn[i]; tab[i].svcfunc = f[i]; } static tmsvrargs_t args; args.tmdsptchtbl = tab; args.svrinit = svrinit; args.svrdone = svrdone; args.mainloop = mainloop; args.svrthrinit = thrinit; args.svrthrdone = thrdone;
  int id = SRV, grp = GRP; all = c == 0 ? sym_bool("-A") : true; if (c == 1) { id = sym_range("id", 0, 9); grp = sym_range("group", 0, 9); sym_assume(!(id == 0 && grp == 0) && !(id == 8 && grp == 2)); } if (c == 2) init_rc = sym_int("init says"); 
  std::vector<std::string> a = {"srv"}; if (all) a.push_back("-A"); a.push_back("-i"); a.push_back(std::string(1, '0' + id)); a.push_back("-g"); a.push_back(std::string(1, '0' + grp)); int how = 0; if (c == 4) { how = sym_pick("how", 0, 2); a.push_back(how == 0 ? "-h" : how == 1 ? "--help" : "-v"); } if (c == 5) a.push_back(sym_bool("which") ? "-x" : "stray"); if (c == 6) { if (sym_bool("without -A")) { all = false; a.erase(a.begin() + 1); } a.push_back("--"); a.push_back("-A"); a.push_back("-i"); a.push_back("8"); a.push_back("-x"); }
  for (int i = 0; i < 3; i++) { ask[i] = svc[i]; ex[i] = all && i < nsvc ? i : -1; }
  bool bad = false; if (c == 7) { all = false; a.erase(a.begin() + 1); for (int i = 0; i < 3; i++) ex[i] = -1; int w = sym_pick("told", 0, 9); auto say = [&](const std::string &o) { a.push_back("-s"); a.push_back(o); };
    if (w == 0) { say(svc[1]); ex[1] = 1; } else if (w == 1) { say(svc[2] + "," + svc[0]); ex[2] = 2; ex[0] = 0; } else if (w == 2) { say(svc[0]); say(svc[1]); ex[0] = 0; ex[1] = 1; } else if (w == 3) { ask[0] = std::string("N") + nm[0]; say(ask[0] + ":f1"); ex[0] = 1; } else if (w == 4) { ask[0] = std::string("N") + nm[0]; ask[1] = "M"; say(ask[0] + "," + ask[1] + ":f2"); ex[0] = ex[1] = 2; } else if (w == 5) { ask[0] = "M"; say("M:f2"); say(svc[1]); ex[0] = 2; ex[1] = 1; }
    else if (w == 6) { say(std::string("M") + nm[0]); bad = true; } else if (w == 7) { say(svc[0] + ":g"); bad = true; } else if (w == 8) { say(svc[0] + ":f:f1"); bad = true; } else { say(svc[1]); a.push_back("-A"); all = true; for (int i = 0; i < 3; i++) ex[i] = i; } }
  int told = (ex[0] >= 0) + (ex[1] >= 0) + (ex[2] >= 0); std::vector<char *> v; for (auto &s : a) v.push_back((char *)s.c_str()); v.push_back(nullptr); std::ostringstream out, er; auto *o0 = std::cout.rdbuf(out.rdbuf()); auto *e0 = std::cerr.rdbuf(er.rdbuf()); env_on_empty = on_empty;
  int rc = _tmstartserver(a.size(), &v[0], &args); std::cout.rdbuf(o0); std::cerr.rdbuf(e0);
  bool me = id == SRV && grp == GRP, starts = me && (c == 0 || c == 1 || c == 6 || (c == 7 && !bad) || (c == 2 && init_rc == 0)); sym_check((M->servers().at(oidx).state == state_t::ACTive) == used, "another server is not touched");
  sym_check(M->servers().at(sidx).state != state_t::ACTive, "a server that has ended or did not start is not registered as running"); sym_check(!env_lock_depth, "no lock is kept");
  if (starts) { sym_check(rc == 0 && stopped && inits == 1 && ends == 1 && loops == 1, "a server runs until it is told to stop"); sym_check(given_argc == (int)a.size() && given_argv == &v[0], "initialisation gets the server's arguments"); sym_check(M->servers().at(sidx).state == state_t::INActive, "a stopped server is registered as inactive"); sym_check(got == told && env_q_len(cq) == 3, "requests for advertised services reach their routines, others are refused"); for (int i = 0; i < 3; i++) { msg m; fux::ipc::qrecv(cq, m, 0, 0); sym_check(m->cd == 10 + i && m->rval == (ex[i] >= 0 ? TPMINVAL : TPENOENT), "a request for a service that is not advertised says so"); } sym_reach("ran"); }
  else if (c == 4) { sym_check(rc == 0 && !inits && steps == 0, "help and the list of services do not start a server"); std::string o = out.str(); if (how == 2) { for (int i = 0; i < 3; i++) sym_check(o.find(svc[i] + ":" + tab[i].funcname + "\n") != std::string::npos, "every built service is listed"); sym_reach("listed"); } else sym_reach("help"); }
  else { sym_check(rc == -1 && steps == 0 && !ends && !got, "a server that cannot start says so and takes no requests"); sym_check(inits == (c == 2 || c == 3 || c == 7), "a server that is not on record or not understood is not initialised"); if (c == 1) sym_reach("unknown server"); if (c == 2) sym_reach("not initialised"); if (c == 3) sym_reach("no room"); if (c == 5) sym_reach("not understood"); }
}
