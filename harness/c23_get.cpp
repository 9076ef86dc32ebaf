// C23: administrative requests about a registry with any history of registrations and withdrawals
#include "world.h"
#include <tpadm.h>
#include <fml32.h>
#include "misc.h"
#ifndef MAXS
#define MAXS 3
#endif
static mib *M; static FBFR32 *in, *out; static unsigned char *base; static size_t size; static uint64_t snap[8192];
static int rc, err;
static void ask(const char *k, const char *op) { Finit32(in, Fsizeof32(in)); if (k) Fchg32(in, TA_CLASS, 0, (char *)k, 0); if (op) Fchg32(in, TA_OPERATION, 0, (char *)op, 0); memcpy(snap, base, size); rc = tpadmcall(in, &out, 0); err = tperrno; sym_check(env_lock_depth == 0, "the lock is given back"); uint64_t *w = (uint64_t *)base; for (size_t i = 0; i < size / 8; i++) sym_check(w[i] == snap[i], "a report changes nothing"); }
static long num(FLDID32 f, int oc) { long v = -77777; sym_check(CFget32(out, f, oc, (char *)&v, nullptr, FLD_LONG) != -1, "an entry is reported with its attributes"); return v; }
static char sbuf[1100]; static const char *str(FLDID32 f, int oc) { FLDLEN32 n = sizeof sbuf; sym_check(CFget32(out, f, oc, sbuf, &n, FLD_STRING) != -1, "an entry is reported with its attributes"); return sbuf; }
static void occurs(int n) { sym_check(rc == 0 && err == 0, "a request is answered"); sym_check(num(TA_ERROR, 0) == TAOK && num(TA_OCCURS, 0) == n && Foccur32(out, TA_OCCURS) == 1, "the number of entries is reported"); }
static void only(FLDID32 f, int n) { sym_check(Foccur32(out, f) == n, "one occurrence per entry"); }
static bool truth(FLDID32 f, int oc) { const char *t = str(f, oc); sym_check(!strcmp(t, "1") || !strcmp(t, "0") || !strcmp(t, "Y") || !strcmp(t, "N"), "an entry is reported with its attributes"); return *t == '1' || *t == 'Y'; }
// every attribute of an entry gets a value of its own
static void colour(server &v, int i) { int n = 1000 * (i + 1); v.basesrvid = n + 1; v.grace = n + 2; v.maxgen = n + 3; v.min = n + 4; v.max = n + 5; v.threadstacksize = n + 6; v.curdispatchthreads = n + 7; v.hwdispatchthreads = n + 8; v.numdispatchthreads = n + 9; strcpy(v.envfile, "env0"); strcpy(v.dependson, "dep0"); strcpy(v.rcmd, "cmd0"); v.envfile[3] = v.dependson[3] = v.rcmd[3] = 'a' + i; v.restart = i & 1; v.conv = !(i & 1); }
static void same_colour(int oc, int i) { int n = 1000 * (i + 1); char t[3][5] = {"env0", "dep0", "cmd0"}; for (auto &x : t) x[3] = 'a' + i; sym_check(num(TA_BASESRVID, oc) == n + 1 && num(TA_GRACE, oc) == n + 2 && num(TA_MAXGEN, oc) == n + 3 && num(TA_MIN, oc) == n + 4 && num(TA_MAX, oc) == n + 5 && num(TA_THREADSTACKSIZE, oc) == n + 6 && num(TA_CURDISPATCHTHREADS, oc) == n + 7 && num(TA_HWDISPATCHTHREADS, oc) == n + 8 && num(TA_NUMDISPATCHTHREADS, oc) == n + 9, "a server is reported as it is"); sym_check(!strcmp(str(TA_ENVFILE, oc), t[0]) && !strcmp(str(TA_DEPENDSON, oc), t[1]) && !strcmp(str(TA_RCMD, oc), t[2]) && truth(TA_RESTART, oc) == (i & 1), "a server is reported as it is"); }
static void colour(service &s, int k) { int n = 100 * (k + 1); s.trantime = n + 44; s.blocktime = n + 45; s.svctimeout = n + 46; strcpy(s.autotran, k ? "Y" : "N"); strcpy(s.buftype, k ? "STRING" : "ALL"); strcpy(s.routingname, k ? "r1" : "r0"); strcpy(s.signature_required, k ? "N" : "Y"); strcpy(s.encryption_required, k ? "Y" : "X"); strcpy(s.buftypeconv, k ? "b1" : "b0"); strcpy(s.cachingname, k ? "c1" : "c0"); }
static void same_service(int oc, int k, bool all) { int n = 100 * (k + 1); sym_check(num(TA_TRANTIME, oc) == n + 44 && num(TA_BLOCKTIME, oc) == n + 45 && num(TA_SVCTIMEOUT, oc) == n + 46, "a service is reported as it is"); sym_check(!strcmp(str(TA_AUTOTRAN, oc), k ? "Y" : "N") && !strcmp(str(TA_BUFTYPE, oc), k ? "STRING" : "ALL") && !strcmp(str(TA_ROUTINGNAME, oc), k ? "r1" : "r0"), "a service is reported as it is"); if (all) sym_check(!strcmp(str(TA_SIGNATURE_REQUIRED, oc), k ? "N" : "Y") && !strcmp(str(TA_ENCRYPTION_REQUIRED, oc), k ? "Y" : "X") && !strcmp(str(TA_BUFTYPECONV, oc), k ? "b1" : "b0") && !strcmp(str(TA_CACHINGNAME, oc), k ? "c1" : "c0"), "a service is reported as it is"); }
static bool is(const char *a, const char *b) { return !strcmp(a, b); }
extern "C" void harness_main() {
  int c = sym_case(); M = &world(5, 6, 5, 4, 3); base = (unsigned char *)env_shm_ptr(0); size = env_shm_size(0) / 8 * 8; checked_copy("site", M->mach().lmid); checked_copy("host1", M->mach().address); checked_copy("/app", M->mach().appdir); checked_copy("/tux", M->mach().tuxdir); checked_copy("tuxconfig", M->mach().tuxconfig); M->mach().blocktime = sym_long("blocktime"); checked_copy("UL", M->mach().ulogpfx); checked_copy("TD", M->mach().tlogdevice); auto &d = M->domain(); d.ipckey = sym_range("ipckey", 0, 0x7fffffff); d.maxservers = sym_u16("maxservers"); d.maxservices = 6; d.maxqueues = sym_u16("maxqueues"); d.maxgroups = 4; d.maxaccessers = sym_u16("maxaccessers");
  int ng = c >= 4 ? 2 : sym_pick("groups", 1, 3), gno[3]; for (int i = 0; i < ng; i++) { char nm[4] = "GA"; nm[1] += i; gno[i] = i == 0 ? sym_range("grpno", 1, 100) : 200 + i; M->make_group(gno[i], nm, i ? "open" : "", i == 1 ? "close" : "", i == 2 ? "TMS" : ""); }
  int ns = c == 6 ? 0 : c >= 4 ? MAXS : sym_pick("servers", 0, 3); char sname[4][4]; int sgrp[4]; size_t sq[4]; bool sact[4]; for (int i = 0; i < ns; i++) { strcpy(sname[i], "s0"); sname[i][1] = i == 0 ? (char)sym_range("name", 'a', 'z') : '0' + i; sgrp[i] = c >= 4 && i ? i % 2 : sym_pick("group", 0, ng - 1); size_t s = M->make_server(10 + i, gno[sgrp[i]], sname[i], i ? "-A" : "-s X", i == 2 ? "q1" : i ? "q1" : "q0"); auto &v = M->servers().at(s); sq[i] = v.rqaddr; sact[i] = i == 0 && c == 2 && sym_bool("active"); v.state = sact[i] ? state_t::ACTive : state_t::INActive; v.mindispatchthreads = i ? 1 : sym_u16("threads"); v.maxdispatchthreads = 3 + i; v.pid = 5; colour(v, i); if (i == 0) M->queues().at(sq[i]).msqid = 40 + i; }
  bool adv[4][2] = {}, hadsvc[2] = {}; int order[8][2], no = 0; for (int i = 0; i < ns; i++) for (int k = 0; k < 2; k++) if (c >= 4 && sym_bool("offers")) { M->advertise(k ? "SVCB" : "SVCA", sq[i], 1 + i); adv[i][k] = hadsvc[k] = true; } for (int i = 0; i < ns; i++) for (int k = 0; k < 2; k++) if (adv[i][k] && sym_bool("withdraws")) { M->unadvertise(k ? "SVCB" : "SVCA", sq[i], 1 + i); adv[i][k] = false; sym_reach("withdrawn"); } for (int i = 0; i < ns; i++) for (int k = 0; k < 2; k++) if (adv[i][k]) order[no][0] = i, order[no++][1] = k;
  long load = sym_long("load"), prio = sym_long("prio"); if (hadsvc[0]) { auto &s = M->services().at(M->find_service("SVCA")); s.load = load; s.prio = prio; } for (int k = 0; k < 2; k++) if (hadsvc[k]) { auto &s = M->services().at(M->find_service(k ? "SVCB" : "SVCA")); if (k) s.load = 501, s.prio = 502; colour(s, k); }
  in = (FBFR32 *)tpalloc((char *)"FML32", nullptr, 1024); out = (FBFR32 *)tpalloc((char *)"FML32", nullptr, c != 6 && sym_bool("small") ? 160 : 8192);
  // an earlier answer may still be there
  if (c < 4 ? sym_bool("used before") : c == 4) { for (int i = 0; i < 2; i++) { Fadd32(out, TA_SRVGRP, (char *)"old", 0); Fadd32(out, TA_LMID, (char *)"old", 0); } }
  if (c == 0) { ask("T_DOMAIN", "GET"); occurs(1); sym_check((uint32_t)num(TA_IPCKEY, 0) == d.ipckey && num(TA_MAXSERVERS, 0) == d.maxservers && num(TA_MAXSERVICES, 0) == 6 && num(TA_MAXQUEUES, 0) == d.maxqueues && num(TA_MAXGROUPS, 0) == 4 && num(TA_MAXACCESSERS, 0) == d.maxaccessers, "the domain is reported as configured"); only(TA_IPCKEY, 1); sym_reach("domain");
    ask("T_MACHINE", "GET"); occurs(1); only(TA_LMID, 1); only(TA_IPCKEY, 0); sym_check(is(str(TA_LMID, 0), "site") && is(str(TA_PMID, 0), "host1") && is(str(TA_APPDIR, 0), "/app") && is(str(TA_TUXDIR, 0), "/tux") && is(str(TA_TUXCONFIG, 0), "tuxconfig") && is(str(TA_ULOGPFX, 0), "UL") && is(str(TA_TLOGDEVICE, 0), "TD") && num(TA_BLOCKTIME, 0) == M->mach().blocktime, "the machine is reported as configured"); sym_reach("machine"); }
  else if (c == 1) { ask("T_GROUP", "GET"); occurs(ng); only(TA_SRVGRP, ng); for (int i = 0; i < ng; i++) { char nm[4] = "GA"; nm[1] += i; sym_check(is(str(TA_SRVGRP, i), nm) && num(TA_GRPNO, i) == gno[i] && is(str(TA_OPENINFO, i), i ? "open" : "") && is(str(TA_CLOSEINFO, i), i == 1 ? "close" : "") && is(str(TA_TMSNAME, i), i == 2 ? "TMS" : "") && is(str(TA_LMID, i), "site"), "a group is reported as it is"); } sym_reach("groups"); }
  else if (c == 2) { ask("T_SERVER", "GET"); occurs(ns + 1); only(TA_SRVID, ns + 1); only(TA_SRVGRP, ns + 1); sym_check(num(TA_SRVID, 0) == 0 && is(str(TA_SERVERNAME, 0), "BBL") && is(str(TA_SRVGRP, 0), "") && num(TA_GRPNO, 0) == 0, "the monitor is reported"); for (int i = 0; i < ns; i++) { char nm[4] = "GA"; nm[1] += sgrp[i]; auto &v = M->servers().at(1 + i); sym_check(num(TA_SRVID, i + 1) == 10 + i && num(TA_GRPNO, i + 1) == gno[sgrp[i]] && is(str(TA_SRVGRP, i + 1), nm), "a server is reported in its group"); sym_check(is(str(TA_SERVERNAME, i + 1), sname[i]) && is(str(TA_CLOPT, i + 1), i ? "-A" : "-s X") && is(str(TA_STATE, i + 1), sact[i] ? "ACT" : "INA") && num(TA_MINDISPATCHTHREADS, i + 1) == v.mindispatchthreads && num(TA_MAXDISPATCHTHREADS, i + 1) == 3 + i && is(str(TA_LMID, i + 1), "site"), "a server is reported as it is"); same_colour(i + 1, i); } sym_reach("servers"); }
  else if (c == 3) { ask("T_QUEUE", "GET"); int nq = ns == 0 ? 1 : ns == 1 ? 2 : 3; occurs(nq); only(TA_RQADDR, nq); sym_check(is(str(TA_RQADDR, 0), ".BBL") && is(str(TA_SERVERNAME, 0), "BBL") && num(TA_SERVERCNT, 0) == 1, "a queue is reported as it is"); if (ns > 0) sym_check(is(str(TA_RQADDR, 1), "q0") && is(str(TA_SERVERNAME, 1), sname[0]) && num(TA_SERVERCNT, 1) == 1 && num(TA_RQID, 1) == 40, "a queue is reported as it is"); for (int o = 0; o < nq; o++) { auto &v = M->servers().at(M->queues().at(o).server_idx); sym_check(is(str(TA_RCMD, o), v.rcmd) && num(TA_GRACE, o) == v.grace && num(TA_MAXGEN, o) == v.maxgen && truth(TA_RESTART, o) == v.restart && truth(TA_CONV, o) == v.conv && is(str(TA_LMID, o), "site"), "a queue is reported with its server"); } if (ns > 1) { sym_check(is(str(TA_RQADDR, 2), "q1") && num(TA_SERVERCNT, 2) == ns - 1 && num(TA_RQID, 2) == -1, "a queue is reported as it is"); const char *n = str(TA_SERVERNAME, 2); sym_check(is(n, sname[1]) || (ns > 2 && is(n, sname[2])), "a queue is reported as it is"); } sym_reach("queues"); }
  else if (c == 4) { ask("T_SVCGRP", "GET"); occurs(no); only(TA_SERVICENAME, no); bool seen[4][2] = {}; for (int o = 0; o < no; o++) { int i = num(TA_SRVID, o) - 10, k = is(str(TA_SERVICENAME, o), "SVCB"); sym_check(i >= 0 && i < ns && (k || is(sbuf, "SVCA")), "an advertisement is reported as it is"); sym_check(adv[i][k] && !seen[i][k], "exactly the advertisements in force are reported"); seen[i][k] = true; sym_check(num(TA_GRPNO, o) == gno[sgrp[i]] && is(str(TA_RQADDR, o), i ? "q1" : "q0") && is(str(TA_STATE, o), "ACT") && is(str(TA_LMID, o), "site"), "an advertisement is reported as it is"); sym_check(num(TA_LOAD, o) == (k ? 501 : load) && num(TA_PRIO, o) == (k ? 502 : prio), "an advertisement is reported as it is"); same_service(o, k, false); } sym_reach("advertisements"); }
  else if (c == 5) { ask("T_SERVICE", "GET"); int n = hadsvc[0] + hadsvc[1]; occurs(n); only(TA_SERVICENAME, n); for (int o = 0; o < n; o++) { auto &s = M->services().at(o); sym_check(is(str(TA_SERVICENAME, o), s.servicename) && num(TA_LOAD, o) == s.load && num(TA_PRIO, o) == s.prio && is(str(TA_STATE, o), "ACT"), "a service is reported as it is"); same_service(o, is(s.servicename, "SVCB"), true); } if (n == 2) sym_check(!is(M->services().at(0).servicename, M->services().at(1).servicename), "a service is reported once"); sym_reach("services"); }
  else { int k = sym_pick("wrong", 0, 6); static const char *kl[] = {"T_NOTHING", "T_SERVE", "t_server", "T_SERVERS", "T_SERVER", "T_DOMAIN", nullptr}, *op[] = {"GET", "GET", "GET", "GET", "GETNEXT", "SET", "GET"}; if (k == 4 && sym_bool("no operation")) ask(kl[k], nullptr); else ask(kl[k], op[k]); sym_check(rc == -1 && err == TPEINVAL, "an unknown request is refused"); sym_check(num(TA_ERROR, 0) < 0 && num(TA_OCCURS, 0) == 0, "an unknown request is refused"); FBFR32 *none = nullptr; int r = sym_bool("no in") ? tpadmcall(nullptr, &out, 0) : sym_bool("no out") ? tpadmcall(in, nullptr, 0) : tpadmcall(in, &none, 0), e = tperrno; sym_check(r == -1 && e == TPEINVAL, "missing buffers are refused"); sym_reach("refused"); }
  sym_reach("end");
}
