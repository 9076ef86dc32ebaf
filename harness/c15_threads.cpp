// C15: one server process with several dispatch threads, switched wherever they take a lock or use a queue
#ifdef RACE // also switched at any access of the server to its table of services
#include "shared.h"
#include "server.cpp"
#include "env.h"
#endif
#include <stdexcept>
#include "world.h"
#include <tpadm.h>
#include "ipc.h"
#include "misc.h"
#include "fux.h"
#ifdef THOROUGH
#define TWO 1
#define PRE 2
#else
#define TWO 0
#define PRE 1
#endif
#ifndef NREQ
#define NREQ 3
#endif
#ifndef NT
#define NT 2
#endif
using fux::ipc::msg; extern int _tmbuilt_with_thread_option;
enum { OWN, NEWBUF, FORWARD, CALL, ADVERTISE, RETURNS, THROWS, NOREPLY, WITHDRAW, KINDS };
static mib *M; static int rq, cq, oq, sent, sidx, inits, dones, ends, busy[8], kind[NREQ], handled[NREQ], by[NREQ]; static uint8_t byte[NREQ]; static long rval[NREQ]; static bool stopping, failed_init, adv;
static int cur_of[8]; static const int SRV = 7, GRP = 1;
static int which(TPSVCINFO *s) { sym_check(s->data && s->len == 4 && s->data[0] == 'r' && s->data[1] >= '0' && s->data[1] < '0' + NREQ && s->data[3] == 0, "a routine gets the data sent"); int i = s->data[1] - '0'; sym_check((uint8_t)s->data[2] == byte[i], "a routine gets the data sent"); return i; }
static void still(TPSVCINFO *s, int i, const char *nm) { sym_check(which(s) == i && s->cd == (kind[i] == NOREPLY ? 0 : 10 + i) && !strcmp(s->name, nm) && s->flags == 0, "a routine's request stays its own while other threads work"); }
static void work(TPSVCINFO *s, const char *nm) {
  int i = which(s), t = env_thread(); sym_check(!handled[i]++, "a request is given to one routine once"); by[i] = t; busy[t] = 1; sym_check(!env_lock_depth, "the registry is not locked while a routine runs"); env_yield(1); still(s, i, nm); char *p = nullptr;
  switch (kind[i]) {
  case OWN: case NOREPLY: busy[t] = 0; tpreturn(rval[i], 100 + i, s->data, 0, 0); break;
  case NEWBUF: p = tpalloc((char *)"STRING", nullptr, 16); strcpy(p, s->data); env_yield(1); still(s, i, nm); busy[t] = 0; tpreturn(rval[i], 100 + i, p, 0, 0); break;
  case FORWARD: busy[t] = 0; tpforward((char *)"OTHER", s->data, 0, 0); break;
  case CALL: { p = tpalloc((char *)"STRING", nullptr, 16); long n = 0; int rc = tpcall((char *)"OTHER", s->data, 0, &p, &n, 0), e = tperrno; sym_check(rc == 0 && !strcmp(p, s->data), "a routine's call is answered by its own reply"); (void)e; still(s, i, nm); busy[t] = 0; tpreturn(rval[i], 100 + i, p, 0, 0); break; }
  case ADVERTISE: { extern void routine_c(TPSVCINFO *); int rc = tpadvertise((char *)"C", routine_c); sym_check(rc == 0, "a routine can advertise a service"); adv = true; env_yield(1); still(s, i, nm); busy[t] = 0; tpreturn(rval[i], 100 + i, s->data, 0, 0); break; }
  case WITHDRAW: { int rc = tpunadvertise((char *)"B"); sym_check(rc == 0, "a routine can withdraw a service"); env_yield(1); still(s, i, nm); busy[t] = 0; tpreturn(rval[i], 100 + i, s->data, 0, 0); break; }
  case RETURNS: busy[t] = 0; return;
  case THROWS: busy[t] = 0; throw std::runtime_error("routine"); }
  sym_fail("returning to the routine"); }
static void routine_a(TPSVCINFO *s) { work(s, "A"); }
void routine_c(TPSVCINFO *s) { work(s, "C"); }
static bool answered[NREQ]; static int stops;
static void collect() { while (env_q_len(cq) > 0) { msg m; fux::ipc::qrecv(cq, m, 0, 0); if (m->cd == 9) { sym_check(stopping && ends == 1 && m->rval == TPMINVAL && !stops++, "a stop request is answered once, after the server has ended"); continue; }
    int i = m->cd - 10; sym_check(i >= 0 && i < sent && !answered[i] && handled[i] && kind[i] != NOREPLY, "a request gets one reply"); answered[i] = true; if (kind[i] == RETURNS || kind[i] == THROWS) { sym_check(m->rval == TPESVCERR, "a routine that does not return properly yields a service error"); sym_reach("error reply"); continue; }
    if (kind[i] != FORWARD) sym_check(m->rval == (rval[i] == TPSUCCESS ? TPMINVAL : TPESVCFAIL) && m->rcode == 100 + i, "a reply carries its routine's result"); char *p = tpalloc((char *)"STRING", nullptr, 16); m.get_data(&p); sym_check(p[0] == 'r' && p[1] == '0' + i && (uint8_t)p[2] == byte[i] && p[3] == 0, "a reply carries its routine's data"); tpfree(p); sym_reach("reply"); } }
static void other() { while (env_q_len(oq) > 0) { msg m; fux::ipc::qrecv(oq, m, 0, 0); sym_check(!strcmp(m->servicename, "OTHER"), "a forwarded request names the service"); if (m->replyq == cq) { int i = m->cd - 10; sym_check(i >= 0 && i < NREQ && kind[i] == FORWARD, "a forwarded request keeps the caller's reply address"); } msg r; char *p = tpalloc((char *)"STRING", nullptr, 16); m.get_data(&p); r.set_data(p, 0); tpfree(p); r->mtype = m->cd; r->cd = m->cd; r->rval = TPMINVAL; r->rcode = 0; r->flags = 0; r->cat = fux::ipc::application; int q = m->replyq; fux::ipc::qsend(q, r, 0, fux::ipc::noblock); } }
static void send() { int i = sent++; msg m; char *p = tpalloc((char *)"STRING", nullptr, 8); p[0] = 'r'; p[1] = '0' + i; p[2] = byte[i]; p[3] = 0; m.set_data(p, 0); tpfree(p); strcpy(m->servicename, i && adv ? "C" : "A"); m->replyq = kind[i] == NOREPLY ? -1 : cq; m->cd = kind[i] == NOREPLY ? 0 : 10 + i; m->flags = 0; m->gttid = fux::bad_gttid; m->cat = fux::ipc::application; m->rval = 0; m->rcode = 0; fux::ipc::qsend(rq, m, 0, fux::ipc::notime); }
static void stop() { msg m; fux::fml32buf b; b.put(TA_SRVID, 0, (long)SRV); b.put(TA_GRPNO, 0, (long)GRP); m.set_data((char *)b.ptr(), 0); strcpy(m->servicename, ".stop"); m->replyq = cq; m->cd = 9; m->flags = 0; m->cat = fux::ipc::application; fux::ipc::qsend(rq, m, 0, fux::ipc::notime); stopping = true; }
static int on_empty(int id, long) {
  int pre = env_preempt; env_preempt = 0; for (int i = 0; i < 8; i++) if (busy[i]) sym_check(!env_thread_waits(i), "a routine does not wait until the next request arrives"); sym_check(!env_lock_depth, "the registry is not locked while a thread waits");
  other(); if (id == rq) { collect(); sym_check(!stopping, "a server that was told to stop takes no more requests"); if (sent < NREQ) { send(); if (sent < NREQ && (TWO ? sym_bool("two at once") : sym_case() >= KINDS)) send(); } else { bool idle = true; for (int i = 0; i < NREQ; i++) idle = idle && handled[i]; stop(); if (!idle) sym_reach("stopped while busy"); } } env_preempt = pre; return 1; }
static int svrinit(int, char **) { inits++; return 0; } static void svrdone() { ends++; sym_check(stopping, "a server ends only when it is told to"); for (int i = 1; i < env_threads(); i++) sym_check(env_thread_done(i), "a server ends when its threads have ended"); } static int mainloop(int) { return 0; } static int thrinit(int, char **) { inits++; if (failed_init) env_yield(1); return failed_init && env_thread() == 1 ? -1 : 0; } static void thrdone() { dones++; }
extern "C" void harness_main() {
  int c = sym_case(); M = &world(); M->mach().blocktime = 15000; M->make_group(GRP, "G1", "", "", ""); M->make_group(GRP + 1, "G2", "", "", ""); sidx = M->make_server(SRV, GRP, "srv", "", "q1"); M->servers().at(sidx).mindispatchthreads = NT; int s2 = M->make_server(8, 2, "other", "", "q2"); oq = M->make_service_rqaddr(s2); M->advertise("OTHER", M->servers().at(s2).rqaddr, s2); rq = M->make_service_rqaddr(sidx); cq = fux::ipc::qcreate();
  for (int i = 0; i < NREQ; i++) { kind[i] = i == 0 ? c % KINDS : i == 1 && c >= KINDS ? (c % KINDS == WITHDRAW ? ADVERTISE : c % KINDS) : OWN; byte[i] = sym_range("byte", 1, 255); rval[i] = i == 1 ? TPFAIL : TPSUCCESS; } failed_init = c == KINDS && sym_bool("thread not initialised"); _tmbuilt_with_thread_option = 1;
  static tmdsptchtbl_t tab[] = {{"B", "b", routine_a, 0, 0, nullptr}, {"A", "a", routine_a, 1, 0, nullptr}, {nullptr, nullptr, nullptr, 0, 0, nullptr}}; static tmsvrargs_t args; args.tmdsptchtbl = tab; args.svrinit = svrinit; args.svrdone = svrdone; args.mainloop = mainloop; args.svrthrinit = thrinit; args.svrthrdone = thrdone;
#ifdef RACE
  sh_is = [](char *p) { if (!main_ptr || env_preempt <= 0 || env_threads() < 2) return false; auto &t = main_ptr->advertisements; if (p >= (char *)&t && p < (char *)(&t + 1)) return true; for (auto i = t.begin(); i != t.end(); ++i) if (p >= (char *)i._M_node && p < (char *)i._M_node + sizeof(std::_Rb_tree_node<std::pair<const char *const, void (*)(TPSVCINFO *)>>)) return true; return false; }; sh_switch = [] { env_yield(0); };
#endif
  env_on_empty = on_empty; env_preempt = PRE; static const char *argv[] = {"srv", "-A", "-i", "7", "-g", "1", nullptr}; int rc = _tmstartserver(6, (char **)argv, &args); env_preempt = 0; other(); collect();
  sym_check(rc == 0 && stopping && ends == 1 && stops == 1, "a server ends when it is told to, and says so"); sym_check(inits == 1 + NT && dones == NT - failed_init && env_threads() == 1 + NT, "every thread is initialised and ended once"); for (int i = 0; i < NREQ; i++) sym_check(handled[i] == 1 && answered[i] == (kind[i] != NOREPLY), "every request is answered once"); bool two = false; for (int i = 1; i < NREQ; i++) two = two || by[i] != by[0]; if (two) sym_reach("several threads"); sym_check(M->servers().at(sidx).state == state_t::INActive, "a stopped server is registered as inactive"); sym_reach("end");
}
