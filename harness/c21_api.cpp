// C21: calls of a client with arguments that cannot be right, in systems that are missing, full or broken
#include <cstddef>
#include "tx_common.h"
extern "C" int tpadvertise(char *, void (*)(TPSVCINFO *));
static bool invalid, nothing; static int world_is; static char *sbuf; enum { GOOD, NONE, FULL, NOQUEUE, NOLOCK };
static int done(int rc, const char *what) { int e = tperrno; if (rc == -1) { sym_check((e >= TPEABORT) & (e <= TPEMATCH), "a failed call sets a defined error code"); sym_check(tpstrerror(e)[0] != 0, "with a text"); sym_reach("failed"); } else { sym_check(!invalid, "a call with arguments that cannot be right fails"); sym_check(e == 0, "a call that succeeded leaves no error code"); sym_reach("succeeded"); } return e; }
static void svcf(TPSVCINFO *) {}
static int none(int, long) { return -EINTR; }
static int x_ok(char *, int, long) { return XA_OK; } static int x_start(XID *, int, long) { return XA_OK; }
static xa_switch_t sw = {"RM", TMNOFLAGS, 0, x_ok, x_ok, x_start, x_start, x_start, x_start, x_start, rec0, x_start, com0};
static int registered() { int n = 0; if (world_is == NONE) return 0; for (size_t i = 0; i < M->accessers()->len; i++) n += M->accessers().at(i).pid == env_pid; return n; }
extern "C" void harness_main() {
  int c = sym_case() % 4; world_is = sym_case() / 4; if (world_is != NONE) { M = &world(4, 6, 6, 4, 3); M->mach().blocktime = 15000; M->make_group(1, "G1", "", "", ""); size_t s = M->make_server(5, 1, "srv", "", "q"); M->make_service_rqaddr(s); M->advertise("SVC", M->servers().at(s).rqaddr, s); } else env_set("ULOGPFX", "/dev/null/U");
  if (world_is == FULL) for (int i = 0; i < 3; i++) M->make_accesser(900 + i); if (world_is == NOQUEUE) { env_faults = F_MSGGET; env_fault_budget = 1; } if (world_is == NOLOCK) { env_faults = F_SEMOP; env_fault_budget = 1; }
  env_on_kill = [](int, int) { return 0; }; env_on_empty = [](int id, long) { msg r; r->cat = fux::ipc::unblock; r->cd = 0; env_now_ns += 16000L * 1000000; fux::ipc::qsend(id, r, 0, fux::ipc::noblock); return 1; };
  sbuf = tpalloc((char *)"STRING", nullptr, 16); strcpy(sbuf, "x"); static char longname[300]; memset(longname, 'N', 299); int rc, e; long n;
  if (c == 0) { // joining, leaving, waiting time
    int k = sym_pick("call", 0, 6); invalid = false;
    if (k == 0) { rc = tpinit(nullptr); e = done(rc, "tpinit"); sym_check((rc == 0) == (registered() == 1), "a client that joined is registered, one that could not is not"); if (world_is == NONE || world_is == FULL) sym_check(rc == -1, "no system to join"); if (rc == 0) { rc = tpterm(); done(rc, "tpterm"); if (!env_fault_hit) sym_check(registered() == 0, "left"); rc = tpterm(); done(rc, "tpterm"); } }
    else if (k == 1) { rc = tpterm(); done(rc, "tpterm"); } else if (k == 2) { invalid = true; rc = tpappthrinit(nullptr); e = done(rc, "x"); sym_check(e == TPEPROTO, "not a server"); rc = tpappthrterm(); e = done(rc, "x"); sym_check(e == TPEPROTO, "not a server"); }
    else if (k == 3) { invalid = true; rc = tpadvertise((char *)"S", svcf); e = done(rc, "x"); sym_check(e == TPEPROTO, "not a server"); rc = tpunadvertise((char *)"S"); e = done(rc, "x"); sym_check(e == TPEPROTO, "not a server"); rc = tpadvertise(nullptr, nullptr); done(rc, "x"); rc = tpunadvertise(nullptr); done(rc, "x"); }
    else if (k == 4) { invalid = true; TPQCTL ctl; rc = tpenqueue((char *)"Q", (char *)"N", &ctl, sbuf, 0, 0); done(rc, "tpenqueue"); }
    else { static const int ts[] = {INT_MIN, -1, 0, 1, 999, 1001, 2147483, 2147484, INT_MAX}; int pt = sym_pick("which time", 0, 9); int t = pt < 9 ? ts[pt] : sym_int("time"); long f = sym_long("flags"), g = sym_long("flags of get"); invalid = world_is == NONE || world_is == FULL; bool sec = f == (TPBLK_SECOND | TPBLK_NEXT) || f == (TPBLK_SECOND | TPBLK_ALL), ms = f == (TPBLK_MILLISECOND | TPBLK_NEXT) || f == (TPBLK_MILLISECOND | TPBLK_ALL); if (!(sec | ms) || t < 0) invalid = true; if (pt == 9) sym_assume((f & 0xf0) != TPBLK_SECOND); rc = tpsblktime(t, f); e = done(rc, "tpsblktime"); if (world_is == GOOD) sym_check((rc == -1) == invalid && (rc == 0 || e == TPEINVAL), "times that make no sense are refused"); if (rc == 0) { bool next = (f & ~0xf0L) == TPBLK_NEXT; invalid = false; rc = tpgblktime(next ? TPBLK_NEXT | TPBLK_MILLISECOND : TPBLK_ALL | TPBLK_MILLISECOND); sym_check(rc == (sec && t > INT_MAX / 1000 ? INT_MAX : sec ? t * 1000 : t), "the time set"); if (pt < 9) { rc = tpgblktime(next ? TPBLK_NEXT | TPBLK_SECOND : TPBLK_ALL | TPBLK_SECOND); sym_check(sec ? rc == t : rc == t / 1000, "the time set"); } sym_check(tpgblktime(next ? TPBLK_ALL | TPBLK_SECOND : TPBLK_NEXT | TPBLK_SECOND) == 0, "and only that"); sym_reach("time set"); } else if (k == 5) { invalid = false; rc = tpgblktime(g); e = done(rc, "tpgblktime"); sym_check(rc <= 0, "no time was set"); } }
  } else if (c == 1) { // calling
    int k = sym_pick("name", 0, 4); char *svc = k == 0 ? nullptr : k == 1 ? (char *)"" : k == 2 ? (char *)"NOBODY" : k == 3 ? longname : (char *)"SVC"; if (k < 4 || world_is == NONE || world_is == FULL) invalid = true; static long notbuf[8]; int d = sym_pick("data", 0, 2); char *data = d == 0 ? nullptr : d == 1 ? sbuf : (char *)&notbuf[4]; if (d == 2) invalid = true; int w = sym_pick("call", 0, 2); long fl = (sym_bool("notran") ? TPNOTRAN : 0) | (sym_bool("noblock") ? TPNOBLOCK : 0);
    if (w == 0) { rc = tpacall(svc, data, 0, fl | (sym_bool("noreply") ? TPNOREPLY : 0)); e = done(rc, "tpacall"); if (rc > 0) { rc = tpcancel(rc); done(rc, "tpcancel"); } } else { char *o = w == 1 ? tpalloc((char *)"STRING", nullptr, 8) : sym_bool("none") ? nullptr : (char *)&notbuf[4]; invalid = true; rc = tpcall(svc, data, 0, &o, sym_bool("length") ? &n : nullptr, fl); e = done(rc, "tpcall"); if (w == 1 && k == 4 && d < 2 && world_is == GOOD) sym_check(e == TPETIME, "nobody answers"); if (w == 1) tpfree(o); }
    if (world_is == GOOD && !svc) sym_check(e == TPEINVAL || d == 2, "no name"); if (world_is == GOOD && k > 0 && k < 4) sym_check(e == TPENOENT || d == 2, "no such service");
  } else if (c == 2) { // replies
    int cd = sym_int("cd"), cd0 = cd; int k = sym_pick("call", 0, 5); invalid = true; char *o = tpalloc((char *)"STRING", nullptr, 8); long fl = 0; int mine = world_is == GOOD && sym_bool("outstanding") ? tpacall((char *)"SVC", nullptr, 0, 0) : 0; sym_assume(cd != mine);
    if (k == 0) rc = tpcancel(cd); else if (k == 1) rc = tpgetrply(&cd, &o, &n, fl); else if (k == 2) rc = tpgetrply(nullptr, &o, &n, fl); else if (k == 3) rc = tpgetrply(&cd, nullptr, &n, fl); else if (k == 4) { static long notbuf[8]; char *p = sym_bool("none") ? nullptr : (char *)&notbuf[4]; rc = tpgetrply(&cd, &p, &n, fl); } else rc = tpgetrply(&cd, &o, nullptr, TPGETANY);
    e = done(rc, "reply"); if (world_is == GOOD) { if (k < 2) sym_check(e == TPEBADDESC, "not outstanding"); else if (k < 5) sym_check(e == TPEINVAL, "missing arguments"); else sym_check(e == TPETIME, "no reply comes"); } if (mine > 0) { invalid = false; rc = tpcancel(mine); done(rc, "tpcancel"); sym_reach("still outstanding"); } tpfree(o);
  } else { // transactions
    bool sys = world_is != NONE; if (sys) fux::glob::xasw = &sw; int k = sym_pick("call", 0, 11); TPTRANID t; sym_bytes(&t, sizeof t, "id"); long fl = sym_long("flags"); invalid = true; bool open = k != 11 && sym_bool("open"); if (open) { int o = tpopen(); invalid = false; done(o, "tpopen"); open = o == 0; invalid = true; }
    if (k == 0) { rc = tpbegin(sym_u64("timeout"), fl); invalid = !open || fl || world_is == NONE; e = done(rc, "tpbegin"); if (fl) sym_check(rc == -1 && e == TPEINVAL, "flags"); if (rc == 0) { sym_check(tpgetlev() == 1, "in a transaction"); invalid = fl = sym_long("flags2"); bool commit = sym_bool("commit"); rc = commit ? tpcommit(fl) : tpabort(fl); e = done(rc, "end"); if (fl) { sym_check(e == TPEINVAL, "flags"); sym_check(tpgetlev() == 1, "still in it"); tpabort(0); } if (world_is == GOOD) sym_check(live_transactions() == 0, "forgotten"); sym_reach("ended"); } }
    else if (k == 1) { rc = tpcommit(fl); e = done(rc, "x"); sym_check(e == (fl ? TPEINVAL : sys ? TPEPROTO : TPERMERR), "no transaction"); } else if (k == 2) { rc = tpabort(fl); e = done(rc, "x"); sym_check(e == (fl ? TPEINVAL : sys ? TPEPROTO : TPERMERR), "no transaction"); } else if (k == 3) { bool no = sym_bool("no id"); rc = tpsuspend(no ? nullptr : &t, fl); e = done(rc, "x"); sym_check(e == (no || fl ? TPEINVAL : sys ? TPEPROTO : TPERMERR), "no transaction"); }
    else if (k == 4) { bool no = sym_bool("no id"); rc = tpresume(no ? nullptr : &t, fl); e = done(rc, "x"); if (no || fl) sym_check(e == TPEINVAL, "no id"); }
    else if (k == 5) { invalid = !open; rc = tpgetlev(); e = done(rc, "x"); if (open) sym_check(rc == 0, "no transaction"); } else if (k == 6) { invalid = !sys; rc = tpclose(); done(rc, "x"); } else if (k == 7) { int w = sym_int("value"); rc = tx_set_transaction_control(w); if (open) sym_check((rc == TX_OK) == ((w == TX_UNCHAINED) | (w == TX_CHAINED)) && (rc == TX_OK || rc == TX_EINVAL), "control"); else sym_check(rc == (sys ? TX_PROTOCOL_ERROR : TX_FAIL), "not open"); }
    else if (k == 8) { int w = sym_int("value"); rc = tx_set_commit_return(w); if (open) sym_check(rc == TX_OK || rc == TX_EINVAL || rc == TX_NOT_SUPPORTED, "when"); else sym_check(rc == (sys ? TX_PROTOCOL_ERROR : TX_FAIL), "not open"); } else if (k == 9) { long w = sym_long("value"); rc = tx_set_transaction_timeout(w); if (open) sym_check((rc == TX_OK) == (w >= 0) && (rc == TX_OK || rc == TX_EINVAL), "timeout"); else sym_check(rc == (sys ? TX_PROTOCOL_ERROR : TX_FAIL), "not open"); }
    else if (k == 10) { TXINFO i; rc = tx_info(sym_bool("none") ? nullptr : &i); sym_check(open ? rc == 0 : rc == (sys ? TX_PROTOCOL_ERROR : TX_FAIL), "info"); rc = tx_commit(); sym_check(rc == (sys ? TX_PROTOCOL_ERROR : TX_FAIL), "no transaction"); rc = tx_rollback(); sym_check(rc == (sys ? TX_PROTOCOL_ERROR : TX_FAIL), "no transaction"); if (!open) { rc = tx_begin(); sym_check(rc == (sys ? TX_PROTOCOL_ERROR : TX_FAIL), "not open"); } }
    else { fux::fml32buf in; FBFR32 *out = (FBFR32 *)tpalloc((char *)"FML32", nullptr, 2048); FBFR32 *no = nullptr; int w = sym_pick("args", 0, 3); in.put(TA_CLASS, 0, std::string("T_DOMAIN")); in.put(TA_OPERATION, 0, std::string("GET")); rc = tpadmcall(w == 0 ? nullptr : in.ptr(), w == 1 ? nullptr : w == 2 ? &no : &out, 0); invalid = w < 3 || world_is == NONE; e = done(rc, "tpadmcall"); if (w < 3) sym_check(e == TPEINVAL, "missing"); }
  }
  sym_reach("end");
}
