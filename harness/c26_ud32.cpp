// C26: ud32: what it sends for any text, what it prints, and how it ends, whatever the service answers
#include "tx_common.h"
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#undef SRVCNM
#define main ud32_main
#include "ud32.cpp"
#undef main
namespace hx {
static const char table[] = "*base 0\nSRVCNM 1 string\n*base 200\nNAME 1 string\nNUM 2 long\nBYTES 3 carray\nSUB 4 fml32\n";
static int sq, tq, sends, kind, votes, outcome, grpidx; static bool hastx, noreply, joinsgrp, refuses, big; static long rval; static FBFR32 *req, *rep; static uint8_t byte; static std::string svc;
static std::string print(FBFR32 *b) { FILE *f = env_mem_file("", 0); Ffprint32(b, f); static char buf[20000]; long n = env_mem_content(f, buf, sizeof buf); return std::string(buf, n); }
static accesser &me() { for (size_t i = 0; i < M->accessers().length(); i++) if (M->accessers().at(i).pid == env_pid) return M->accessers().at(i); sym_fail("the client is registered"); }
static void answer_to(msg &m, char *p, long rv) { msg r; r.set_data(p, 0); r->mtype = m->cd; r->cd = m->cd; r->rval = rv; r->rcode = 0; r->flags = 0; r->cat = fux::ipc::application; fux::ipc::qsend(m->replyq, r, 0, fux::ipc::notime); }
static void check_request(msg &m) { sym_check(++sends == 1, "one request is sent"); sym_check(svc == m->servicename, "the request goes to the service named"); char *p = tpalloc((char *)"FML32", nullptr, 1024); m.get_data(&p); sym_check(print((FBFR32 *)p) == print(req), "the request is the buffer given"); tpfree(p); sym_check((m->replyq == -1) == noreply, "a reply is asked for unless none is wanted"); sym_check(((m->flags & TPTRAN) != 0) == hastx && (m->gttid != fux::bad_gttid) == hastx && live_transactions() == hastx, "the request is in a transaction exactly when a time limit was given"); }
static int on_empty(int id, long) {
  sym_check(id == me().rpid && !env_lock_depth, "the reply is awaited"); msg m;
  if (env_q_len(sq) > 0 && !noreply) { fux::ipc::qrecv(sq, m, 0, 0); check_request(m); if (hastx && joinsgrp) M->transactions().join(m->gttid, grpidx);
    if (kind == 0) { answer_to(m, (char *)rep, rval); return 1; } if (kind == 1) { answer_to(m, nullptr, rval); return 1; } }
  else if (env_q_len(tq) > 0) { fux::ipc::qrecv(tq, m, 0, 0); char *p = tpalloc((char *)"FML32", nullptr, 1024); m.get_data(&p); long fn = -1, rc = XA_OK; CFget32((FBFR32 *)p, TA_XAFUNC, 0, (char *)&fn, nullptr, FLD_LONG); if (fn == 0) { votes++; if (refuses) rc = XA_RBROLLBACK; } else { sym_check(!outcome, "a transaction has one outcome"); outcome = fn; } CFchg32((FBFR32 *)p, TA_XARET, 0, (char *)&rc, 0, FLD_LONG); answer_to(m, p, TPMINVAL); tpfree(p); return 1; }
  sym_check(!noreply, "no reply is awaited when none is wanted"); long w = me().rpid_timeout.time_since_epoch().count(); sym_check(w >= env_now_ns && w < env_now_ns + 20000L * 1000000, "a waiting process is registered with its time limit"); env_now_ns = w + 1; msg r; r->cat = fux::ipc::unblock; r->cd = 0; r->rval = 0; r->rcode = 0; fux::ipc::qsend(id, r, 0, fux::ipc::noblock); return 1; }
static bool nosend; static int on_snd(int id, const void *p, size_t n, int flg) { if (id != sq) return 0; env_on_msgsnd = nullptr; if (joinsgrp) for (size_t k = 0; k < M->transactions().len; k++) if (M->transactions()[k].xid.formatID != -1) M->transactions().join(k, grpidx); return nosend ? -EIDRM : 0; } // somebody takes part while the request is on its way
extern "C" void harness_main() {
  fx_fmt_exact = 1; env_put_file("tbl", table, sizeof table - 1); env_set("FIELDTBLS32", "tbl"); env_set("FLDTBLDIR32", "."); int c = sym_case(); // 0 replies, 1 failures, 2 no reply wanted, 3 transactions, 4 malformed texts, 5 options, 6 service names, 7 transactions without a reply
  M = &world(5, 8, 8, 4); M->mach().blocktime = 15000; M->make_group(1, "G1", "", "", ""); M->make_group(5, "G5", "", "", ""); grpidx = M->find_group(5); int s = M->make_server(1, 1, "srv", "", "q1"); sq = M->make_service_rqaddr(s); M->advertise("SVC", M->servers().at(s).rqaddr, s); int t = M->make_server(1, 5, "TMS", "", "q5"); tq = M->make_service_rqaddr(t); M->advertise(".TM", M->servers().at(t).rqaddr, t);
  byte = sym_range("byte", 1, 255); req = (FBFR32 *)tpalloc((char *)"FML32", nullptr, 4096); rep = (FBFR32 *)tpalloc((char *)"FML32", nullptr, 16384); FLDID32 SRV = Fldid32((char *)"SRVCNM"), NAME = Fldid32((char *)"NAME"), NUM = Fldid32((char *)"NUM"), SUB = Fldid32((char *)"SUB"); std::string text; svc = "SVC"; bool known = true, good = true, named = true;
  if (c == 6) { int k = sym_pick("service", 0, 3); if (k == 0) { svc = "NONE"; known = false; } else if (k == 1) { named = false; } else if (k == 2) { svc = ""; known = false; } else { svc = std::string(sym_pick("long", 0, 1) ? 31 : 200, 'S'); known = false; } }
  bool last = sym_bool("service named last"); auto put = [&](const char *n, FLDID32 id, const std::string &v) { text += n; text += "\t"; for (unsigned char ch : v) if (ch == '\n' || ch == '\\') { text += ch == '\n' ? "\\0a" : "\\5c"; } else text += ch; text += "\n"; CFadd32(req, id, (char *)v.c_str(), 0, FLD_STRING); };
  if (!last && named) put("SRVCNM", SRV, svc); std::string v = "ab"; v[1] = byte; put("NAME", NAME, v); if (c == 0) { put("NUM", NUM, "42"); if (sym_bool("nested")) { FBFR32 *sub = (FBFR32 *)tpalloc((char *)"FML32", nullptr, 256); CFadd32(sub, NAME, (char *)"in", 0, FLD_STRING); Fadd32(req, SUB, (char *)sub, 0); tpfree((char *)sub); text += "SUB\t\n\tNAME\tin\n\n"; } } if (c == 1 || (c == 0 && sym_bool("long request"))) { std::string l(1200, 'l'); put("NAME", NAME, l); } if (last && named) put("SRVCNM", SRV, svc); text += "\n";
  if (c == 4) { int k = sym_pick("fault", 0, 4); good = false; text = k == 0 ? "SRVCNM\tSVC\nNOFIELD\tx\n\n" : k == 1 ? "SRVCNM\tSVC\nNAME x\n\n" : k == 2 ? "SRVCNM\tSVC\nSUB\t\nNAME\tx\n\n\n" : k == 3 ? "SRVCNM\tSVC\n\tx\n\n" : "SRVCNM\tSVC\nNAME\tx"; }
  // the answer: the same buffer, a smaller or a larger one
  int a = c == 0 || c == 1 || c == 3 ? sym_pick("answer", 0, 2) : 0; Fcpy32(rep, req); if (a == 1) { Finit32(rep, Fsizeof32(rep)); CFadd32(rep, NUM, (char *)"7", 0, FLD_STRING); } if (a == 2) { std::string l(6000, 'r'); l[0] = byte == 10 ? 'x' : byte; CFadd32(rep, NAME, (char *)l.c_str(), 0, FLD_STRING); } kind = c == 1 ? sym_pick("reply", 0, 2) : 0; rval = c == 1 ? (sym_bool("failed") ? TPESVCFAIL : kind == 1 ? (sym_bool("service error") ? TPESVCERR : TPMINVAL) : TPMINVAL) : TPMINVAL; bool silent = false; noreply = c == 2 || c == 7;
  std::vector<const char *> av = {"ud32"}; if (c != 3 && c != 7 && sym_bool("-p")) { silent = true; av.push_back("-p"); } if (noreply) av.push_back("-r"); if (c == 7) { hastx = true; av.push_back("-t"); av.push_back("30"); joinsgrp = sym_bool("takes part"); refuses = joinsgrp && sym_bool("refuses"); nosend = sym_bool("not sent"); env_on_msgsnd = on_snd; } if (c == 3) { hastx = true; av.push_back("-t"); av.push_back("30"); joinsgrp = sym_bool("takes part"); refuses = joinsgrp && sym_bool("refuses"); if (sym_bool("fails")) rval = TPESVCFAIL; if (sym_bool("no answer")) kind = 2; }
  int opt = 0; if (c == 5) { opt = sym_pick("option", 0, 2); av.push_back(opt == 0 ? "-h" : opt == 1 ? "-x" : "-C"); if (opt == 2) av.push_back("me"); }
  int n = av.size(); av.push_back(nullptr); std::string want = print(req), wantrep = print(rep); std::string err; FILE *i0 = stdin, *s0 = stdout, *f0 = stderr, *fo = env_mem_file("", 0), *fe = env_mem_file("", 0); stdin = env_mem_file(text.data(), text.size()); stdout = fo; stderr = fe; std::ostringstream so, se; auto *o0 = std::cout.rdbuf(so.rdbuf()); auto *e0 = std::cerr.rdbuf(se.rdbuf()); env_on_empty = on_empty;
  int rc = ud32_main(n, (char **)&av[0]); std::cout.rdbuf(o0); std::cerr.rdbuf(e0); static char buf[40000]; long k = env_mem_content(fo, buf, sizeof buf); std::string out(buf, k); k = env_mem_content(fe, buf, sizeof buf); err = std::string(buf, k) + se.str(); stdin = i0; stdout = s0; stderr = f0;
  if (env_q_len(sq) > 0) { msg m; fux::ipc::qrecv(sq, m, 0, 0); if (c == 7) hastx = false, m->flags &= ~TPTRAN, m->gttid = fux::bad_gttid; check_request(m); }
  if (c == 5 && opt < 2) { sym_check(!sends, "asking for help sends nothing"); if (opt == 0) sym_check(rc == 0 && out.empty() && !so.str().empty(), "help is shown"); else sym_check(rc == -1 && !se.str().empty(), "options that are not understood are refused"); sym_reach("help"); return; }
  if (!good) { sym_check(!sends && rc == -1 && !err.empty() && out.empty(), "a text that is not understood is refused and nothing is sent"); sym_reach("malformed"); return; }
  if (!named || !known) { sym_check(!sends && !err.empty(), "a request for no service is reported and not sent"); if (!named) sym_check(rc == -1, "a request without a service fails"); sym_reach(named ? "unknown service" : "no service"); return; }
  if (c == 7) { sym_check(sends == !nosend && err.empty() != nosend, "a failure is reported"); sym_check(live_transactions() == 0, "the transaction is ended"); if (joinsgrp) { sym_check(outcome == (!nosend && !refuses ? 1 : 2), "the transaction is committed when the request succeeded and rolled back otherwise"); sym_reach(nosend ? "not sent" : "sent"); } return; }
  sym_check(sends == 1, "the request is sent"); if (silent) { sym_check(out.empty(), "nothing is printed when that was asked for"); sym_reach("silent"); } else sym_check(out.compare(0, want.size(), want) == 0, "the request is printed");
  bool ok = kind != 2 && rval == TPMINVAL; if (!noreply && !silent && kind == 0) { sym_check(out == want + wantrep, "the request and then the reply are printed"); sym_reach("printed"); } if (noreply) { sym_check(rc == 0 && err.empty(), "a request without a reply succeeds when it was sent"); sym_reach("no reply"); return; }
  sym_check(err.empty() == ok, "a failure is reported"); if (!ok) { sym_check(err.find("SVC") != std::string::npos, "a failure report names the service"); sym_reach(kind == 2 ? "no answer" : "failed"); } else { sym_check(rc == 0, "a served request succeeds"); sym_reach("served"); }
  if (hastx) { sym_check(live_transactions() == 0, "the transaction is ended"); if (joinsgrp) { sym_check(outcome == (ok && !refuses ? 1 : 2), "the transaction is committed when the request succeeded and rolled back otherwise"); sym_reach(outcome == 1 ? "committed" : "rolled back"); } } else sym_check(!votes && !outcome, "no transaction");
}
}
