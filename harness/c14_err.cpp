// C14: refused and failed calls, time-outs of tpcall, the limit and the wrap-around of descriptors
#include <map>
#include <limits>
#include "c14_common.h"
#define private public
#include "resp.h"
#undef private
static int script[4], pos, nscript; static bool timedout; static int oldcd; static callrec cur; static int budget = 3;
static int on_empty(int id, long) { // what arrives while tpcall waits
  sym_check(id == me().rpid, "a client waits on its own queue"); if (!budget--) sym_end(); long w = wait_until(); sym_check(w >= env_now_ns && w <= env_now_ns + 15000L * 1000000, "a waiting client is registered with its time limit"); int n = sym_pick("arrives", 0, 3);
  if (n == 0) { if (env_q_len(sq) != 1) sym_end(); msg r; fux::ipc::qrecv(sq, r, 0, 0); cur.cd = r->cd; reply(cur); return 1; }
  if (n == 1) { if (!oldcd) sym_end(); callrec c = cur; c.cd = oldcd; c.byte = 'L'; c.rval = TPMINVAL; c.rcode = 99; c.kind = 0; oldcd = 0; reply(c); return 1; }
  if (n == 2) { env_now_ns = w + 1; unblock(); timedout = true; return 1; }
  env_now_ns += 1000000000; unblock(); return 1; }
static void free_cds(int upto) { for (int i = 1; i <= upto; i++) { int rc = tpcancel(i), err = tperrno; sym_check(rc == -1 && err == TPEBADDESC, "a failed call keeps no descriptor"); } }
extern "C" void harness_main() {
  setup(); int cs = sym_case();
  if (cs < 4) { // tpcall, up to two in a row; a late reply to the first may arrive during the second
    env_on_empty = on_empty; for (int k = 0; k < 2; k++) { memset(&cur, 0, sizeof cur); cur.kind = k ? cs & 1 : (cs >> 1) & 1; cur.byte = sym_range("byte", 1, 255); cur.rval = sym_bool("fails") ? TPESVCFAIL : TPMINVAL; cur.rcode = sym_int("rcode"); timedout = false;
      char *q = tpalloc((char *)"STRING", nullptr, 16), *data = k ? q : tpalloc((char *)"STRING", nullptr, 16); strcpy(q, "req"); if (data != q) strcpy(data, "old"); long len = -5; int rc = tpcall((char *)"SVC", q, 0, &data, &len, 0), err = tperrno;
      if (rc == -1 && err == TPETIME) { sym_check(timedout, "a wait times out only after its time has passed"); sym_check(!strcmp(data, k ? "req" : "old"), "a call that times out changes no data"); sym_check(env_q_len(sq) == 1, "sent"); msg r; fux::ipc::qrecv(sq, r, 0, 0); oldcd = r->cd; sym_reach("timed out"); }
      else { sym_check(cur.replied, "a call is answered by its own reply"); delivered(cur, rc, err, data, len, true); sym_reach("answered"); }
      if (data != q) tpfree(q); tpfree(data); free_cds(3); }
  } else if (cs == 4) { // full queue or failing send
    int fl = sym_pick("flags", 0, 5); long flags = (fl & 1 ? TPNOREPLY : 0) | (fl / 2 == 1 ? TPNOBLOCK : 0) | (fl / 2 == 2 ? TPNOTIME : 0); bool big = sym_bool("big"); char *q = tpalloc((char *)"STRING", nullptr, 5000); memset(q, 'x', 4500); q[big ? 4500 : 3] = 0; M->mach().blocktime = 300;
    tpacall((char *)"S2", q, 0, TPNOREPLY); int n2 = env_q_len(sq2), files0 = env_file_count(); bool fault = sym_bool("fault"); if (fault) { env_faults = F_MSGSND | F_MKSTEMP | F_WRITE; env_fault_budget = 1; } else { if (fl / 2 == 2) sym_end(); env_queue_cap = 0; }
    int rc = tpacall((char *)"SVC", q, 0, flags), err = tperrno; env_faults = 0; env_queue_cap = 100; sym_check((rc == -1) == (env_q_len(sq) == 0), "a call fails exactly when its request was not sent"); sym_check(env_q_len(sq2) == n2, "a request goes to its service");
    if (rc == -1) { if (!fault) sym_check(err == (fl / 2 == 1 ? TPEBLOCK : TPETIME), "a full queue is told as such"); else sym_check(err != 0, "a failure leaves an error"); sym_check(env_file_count() == files0 && env_open_fds() == 0, "a failed call leaves no file"); free_cds(3); sym_reach("not sent"); int cd = tpacall((char *)"SVC", q, 0, 0); sym_check(cd > 0, "a later call works"); sym_check(tpcancel(cd) == 0, "its descriptor is valid"); }
    else sym_reach("sent"); tpfree(q);
  } else if (cs == 5) { // refused calls
    int k = sym_pick("what", 0, 8); char *q = tpalloc((char *)"STRING", nullptr, 16), *d = tpalloc((char *)"STRING", nullptr, 16); strcpy(q, "req"); strcpy(d, "old"); char name[40]; strcpy(name, "SVC"); int rc = 0, err = 0, want = TPEINVAL; bool any = false; static long fake[64]; long len = -5; char *nul = nullptr; int cd = 5; char *keep = d;
    if (k == 0) { name[sym_pick("at", 0, 3)] = sym_range("char", 'a', 'z'); name[4] = 0; rc = tpacall(name, q, 0, sym_bool("noreply") ? TPNOREPLY : 0), err = tperrno; want = TPENOENT; }
    else if (k == 1) { memset(name, 'S', 39); name[sym_pick("length", 15, 39)] = 0; rc = tpacall(name, q, 0, 0), err = tperrno; any = true; }
    else if (k == 2) { rc = tpacall(nullptr, q, 0, 0), err = tperrno; }
    else if (k == 3) { rc = tpacall((char *)"SVC", (char *)(fake + 32), 0, 0), err = tperrno; any = true; }
    else if (k == 4) { rc = tpcall((char *)"SVC", q, 0, nullptr, &len, 0), err = tperrno; }
    else if (k == 5) { rc = tpcall((char *)"SVC", q, 0, &nul, &len, 0), err = tperrno; }
    else if (k == 6) { rc = tpgetrply(&cd, nullptr, &len, 0), err = tperrno; }
    else if (k == 7) { rc = tpgetrply(nullptr, &d, &len, 0), err = tperrno; }
    else { rc = tpgetrply(&cd, &nul, &len, 0), err = tperrno; }
    sym_check(rc == -1 && (any ? err == TPEINVAL || err == TPENOENT : err == want), "a refused call leaves its error"); sym_check(env_q_len(sq) == 0 || k == 4 || k == 5, "a refused call sends nothing"); sym_check(d == keep && !strcmp(d, "old") && len == -5, "a refused call changes nothing"); env_q_clear(sq); free_cds(3); int c2 = tpacall((char *)"SVC", q, 0, 0); sym_check(c2 > 0 && env_q_len(sq) == 1, "a later call works"); tpfree(q); tpfree(d); sym_reach("refused");
  } else if (cs == 6) { // the limit
    env_queue_cap = 5000; int n = 0, last = 0; while (true) { int cd = tpacall((char *)"SVC", nullptr, 0, 0); if (cd == -1) break; sym_check(cd > last, "descriptors are distinct"); last = cd; n++; sym_check(env_q_len(sq) == n, "a call sends one request"); sym_check(n < 4000, "the number of outstanding calls is limited"); } int err = tperrno; sym_check(err == TPELIMIT, "too many outstanding calls are told as such"); sym_check(env_q_len(sq) == n, "a refused call sends nothing"); sym_check(n >= 1024, "that many calls may be outstanding"); sym_check(tpacall((char *)"SVC", nullptr, 0, TPNOREPLY) == 0, "calls without reply need no descriptor");
    int c = sym_pick("which", 0, 2), v = c == 0 ? 1 : c == 1 ? n / 2 : last; sym_check(tpcancel(v) == 0, "an outstanding call can be cancelled"); int cd = tpacall((char *)"SVC", nullptr, 0, 0); sym_check(cd > 0, "a released descriptor can be used"); sym_check(cd == v || cd > last, "descriptors are distinct"); sym_check(tpacall((char *)"SVC", nullptr, 0, 0) == -1, "the limit holds"); sym_reach("limit");
  } else { // wrap-around of the descriptor numbers
    responses r; int start = sym_range("last", 0x7ffffff8, 0x7ffffffe); for (int i = 1; i <= 3; i++) if (sym_bool("low in use")) { r.seq_ = i - 1; sym_check(r.allocate() == i, "free"); } bool hi = sym_bool("high in use"); if (hi) { r.seq_ = 0x7ffffffd - 1; r.allocate(); }
    r.seq_ = start; int got[5]; for (int k = 0; k < 5; k++) { std::vector<int> used; for (auto &c : r.calls_) used.push_back(c.first); int cd = r.allocate(); sym_check(cd > 0, "a descriptor is positive"); for (int u : used) sym_check(cd != u, "a descriptor in use is not given out"); sym_check(r.check(cd) == 0, "a descriptor given out is valid"); if (k == 2 && sym_bool("release")) r.release(cd); } sym_reach("wrapped");
  }
}
