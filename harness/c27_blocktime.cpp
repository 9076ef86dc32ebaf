// C27: how long calls wait: the block times set, the flags, the time-outs
#include <limits.h>
#include "c14_common.h"
#ifndef STEPS
#define STEPS 2
#endif
namespace hx {
static long next_, all_, conf_; static callrec cur; static bool got, timed, noblock, notime; static int arrivals, most; static long began, limit;
static long in_force() { return next_ ? next_ : all_ ? all_ : conf_; }
static int arrives(int id, long) {
  sym_check(id == me().rpid, "a client waits on its own queue"); long w = wait_until();
  if (notime) sym_check(w == INVALID_TIME.time_since_epoch().count(), "a call without a time limit is not on record as waiting");
  else { sym_check(w == began + limit * 1000000, "a call waits as long as the block time in force says"); }
  int k = arrivals++ < most ? sym_pick("arrives", 0, 2) : 0; if (noblock) sym_fail("a call that must not wait waits");
  if (k == 0) { if (cur.cd == 0) { if (env_q_len(sq) != 1) sym_end(); msg r; fux::ipc::qrecv(sq, r, 0, 0); cur.cd = r->cd; } reply(cur); got = true; return 1; }
  if (k == 1) { if (notime) { env_now_ns += 100000000000000L; unblock(); return 1; } env_now_ns = w + 1; unblock(); timed = true; return 1; }
  env_now_ns += sym_range("later", 0, 255) ; if (!notime && env_now_ns >= w) sym_end(); unblock(); return 1; }
static void start(long flags) { memset(&cur, 0, sizeof cur); cur.kind = 2; cur.rval = TPMINVAL; got = timed = false; arrivals = 0; notime = flags & TPNOTIME; began = env_now_ns; limit = in_force(); }
static void finish(int rc, int err) { if (timed) { sym_check(rc == -1 && err == TPETIME, "a call whose time has passed says so"); sym_reach("timed out"); } else { sym_check(got && rc == 0 && err == 0, "a call answered in time succeeds"); sym_reach("answered"); } if (notime) { sym_check(tpsblktime(0, TPBLK_NEXT) == 0, "set"); } next_ = 0; env_q_clear(sq); env_q_clear(me().rpid); }
static void call(long flags) { start(flags); char *d = tpalloc((char *)"STRING", nullptr, 8); long len; int rc = tpcall((char *)"SVC", nullptr, 0, &d, &len, flags), err = tperrno; finish(rc, err); tpfree(d); }
static void later(long flags, bool setting) { // tpacall, then tpgetrply
  int cd = tpacall((char *)"SVC", nullptr, 0, 0); sym_check(cd > 0, "asked"); env_q_clear(sq); next_ = 0; if (setting) { next_ = 250; sym_check(tpsblktime(250, TPBLK_NEXT | TPBLK_MILLISECOND) == 0, "set"); } env_now_ns += 777;
  start(flags); cur.cd = cd; if (flags & TPGETANY) cd = 0; noblock = flags & TPNOBLOCK; bool there = noblock && sym_bool("there"); if (there) { reply(cur); got = true; } char *d = tpalloc((char *)"STRING", nullptr, 8); long len; int rc = tpgetrply(&cd, &d, &len, flags), err = tperrno;
  if (noblock && !there) { noblock = false; sym_check(rc == -1 && err == TPEBLOCK, "a call that would have to wait says so"); sym_check(wait_until() == INVALID_TIME.time_since_epoch().count(), "and is not on record as waiting"); reply(cur); int cd2 = cur.cd; rc = tpgetrply(&cd2, &d, &len, TPNOBLOCK); sym_check(rc == 0 && cd2 == cur.cd, "and gets its answer later"); sym_check(tpsblktime(0, TPBLK_NEXT) == 0, "set"); next_ = 0; sym_reach("would wait"); cd = cd2; }
  else { if (noblock) { sym_check(tpsblktime(0, TPBLK_NEXT) == 0, "set"); } noblock = false; finish(rc, err); }
  if (rc == 0) sym_check(cd == cur.cd, "the descriptor is that of the call"); tpfree(d); }
static void get(bool nxt) { long v = nxt ? next_ : all_; int s = tpgblktime((nxt ? TPBLK_NEXT : TPBLK_ALL) | TPBLK_SECOND); int e1 = tperrno; int ms = tpgblktime((nxt ? TPBLK_NEXT : TPBLK_ALL) | TPBLK_MILLISECOND); int e2 = tperrno; sym_check(s >= 0 && s * 1000L <= v && v < s * 1000L + 1000 && e1 == 0, "the block time is reported in seconds as set"); sym_check(ms == (v > INT_MAX ? INT_MAX : v) && e2 == 0, "the block time is reported in milliseconds as set"); }
static void set(bool nxt) { bool sec = sym_bool("seconds"); int v; int k = sym_pick("value", 0, 2); static const int vs[] = {0, 1, 7, 999, 1000, 2501, 1000000}; if (k == 0) v = vs[sym_pick("time", 0, 6)]; else if (k == 1) v = INT_MAX; else v = sym_range("negative", INT_MIN, -1); int rc = tpsblktime(v, (nxt ? TPBLK_NEXT : TPBLK_ALL) | (sec ? TPBLK_SECOND : TPBLK_MILLISECOND)), e = tperrno;
  if (k == 2) { sym_check(rc == -1 && e == TPEINVAL, "a negative time is refused"); return; } sym_check(rc == 0 && e == 0, "a block time is set"); (nxt ? next_ : all_) = sec ? v * 1000L : v; }
}
using namespace hx;
extern "C" void harness_main() {
  setup(); int cs = sym_case(); conf_ = M->mach().blocktime = 1 + sym_range("configured", 0, 65535); env_on_empty = arrives; env_now_ns = 5000000000000L; tpinit(nullptr);
  most = cs < 6 ? 1 : 2; if (cs < 6) { for (int i = 0; i < STEPS; i++) { int k = i == 0 ? cs : sym_pick("step", 0, 5); if (k < 2) set(k); else if (k == 2) get(true); else if (k == 3) get(false); else if (k == 4) call(0); else { static const long bad[] = {0, TPBLK_MILLISECOND, 3, 4 | TPBLK_SECOND, TPBLK_NEXT | 0x20, TPBLK_ALL | 0x100, -1}; long f = bad[sym_pick("flags", 0, 6)]; int rc = tpsblktime(5, f), e = tperrno; sym_check(rc == -1 && e == TPEINVAL, "unknown flags are refused"); } } get(true); get(false); call(0); }
  else if (cs == 6) { int a = sym_pick("all", 0, 1); if (a) { all_ = 400; tpsblktime(400, TPBLK_ALL | TPBLK_MILLISECOND); } bool s = sym_bool("next"); static const long fl[] = {0, TPNOTIME, TPNOBLOCK, TPGETANY, TPGETANY | TPNOTIME, TPGETANY | TPNOBLOCK, TPNOBLOCK | TPNOTIME}; later(fl[sym_pick("flags", 0, 6)], s); call(0); }
  else if (cs == 7) { if (sym_bool("next")) { next_ = 250; tpsblktime(250, TPBLK_NEXT | TPBLK_MILLISECOND); } static const long fl[] = {TPNOTIME, TPNOBLOCK, TPNOTRAN, TPNOTIME | TPNOTRAN}; call(fl[sym_pick("flags", 0, 3)]); call(0); }
  else { // the queue of the service is full
    static const int ms[] = {1, 99, 100, 101, 250, 1000}; long v = ms[sym_pick("limit", 0, 5)]; int how = sym_pick("set for", 0, 2); if (how == 0) { conf_ = M->mach().blocktime = v; } else { (how == 1 ? next_ : all_) = v; tpsblktime(v, (how == 1 ? TPBLK_NEXT : TPBLK_ALL) | TPBLK_MILLISECOND); }
    bool tcall = sym_bool("tpcall"), nb = sym_bool("noblock"); env_queue_cap = 0; long t0 = env_now_ns; char *d = tpalloc((char *)"STRING", nullptr, 8); long len; int rc, err; if (tcall) { rc = tpcall((char *)"SVC", nullptr, 0, &d, &len, nb ? TPNOBLOCK : 0); err = tperrno; } else { rc = tpacall((char *)"SVC", nullptr, 0, nb ? TPNOBLOCK : 0); err = tperrno; } long t = env_now_ns - t0; env_queue_cap = 100; sym_check(env_snd_blocking == 0, "no call with a time limit waits without one"); sym_check(rc == -1 && err == (nb ? TPEBLOCK : TPETIME), "a full queue is told as such"); sym_check(nb ? t == 0 : t >= v * 1000000 && t <= (v + 200) * 1000000, "a call waits for its block time, by its steps of 100 ms, and no longer"); sym_check(wait_until() == INVALID_TIME.time_since_epoch().count(), "and is not on record as waiting"); tpsblktime(0, TPBLK_NEXT); next_ = 0; call(0); tpfree(d); sym_reach("full"); }
}
