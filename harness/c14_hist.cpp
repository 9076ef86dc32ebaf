// C14: histories of calls, replies in any order, waits, cancels, time-outs
#include "c14_common.h"
#ifndef STEPS
#define STEPS 4
#endif
static bool timedout; static int budget = 2; static int waiting_for; // call index, -1 any
static bool can_any() { for (int i = 0; i < ncalls; i++) if (!calls[i].noreply && !calls[i].cancelled && !calls[i].delivered) return true; return false; }
static void answer(callrec &c) { c.kind = sym_pick("kind", 0, 2); c.byte = sym_range("byte", 1, 255); c.rval = sym_bool("fails") ? TPESVCFAIL : TPMINVAL; c.rcode = sym_int("rcode"); reply(c); }
static int on_empty(int id, long) {
  sym_check(id == me().rpid, "a client waits on its own queue"); long w = wait_until(); sym_check(w >= env_now_ns && w <= env_now_ns + 15000L * 1000000, "a waiting client is registered with its time limit");
  sym_check(env_lock_depth == 0, "no lock is held while waiting"); for (int j = 0; j < ncalls; j++) if (!calls[j].noreply && calls[j].replied && !calls[j].cancelled && !calls[j].delivered) sym_check(waiting_for >= 0 && waiting_for != j, "a reply that arrived earlier is delivered without waiting"); if (!budget--) sym_end();
  int n = sym_pick("arrives", 0, ncalls + 1); if (n < ncalls) { if (calls[n].noreply || calls[n].replied) sym_end(); answer(calls[n]); return 1; }
  if (n == ncalls) { env_now_ns = w + 1; unblock(); timedout = true; return 1; } // the monitor
  env_now_ns += 1000000000; unblock(); return 1; } // a wake-up that was meant for an earlier wait
static void wait(int i, bool any, int bad) {
  char *data = tpalloc((char *)"STRING", nullptr, 32); strcpy(data, "old"); long len = -5; int cd = any ? -7 : bad ? bad : calls[i].cd; timedout = false; waiting_for = any ? -1 : i; bool haslen = sym_bool("len"); callrec before[MAXC]; memcpy(before, calls, sizeof calls);
  int rc = tpgetrply(&cd, &data, haslen ? &len : nullptr, any ? TPGETANY : 0), err = tperrno; sym_check(wait_until() == INVALID_TIME.time_since_epoch().count(), "a client that does not wait is not registered as waiting");
  if (any) { if (rc == -1 && err == TPETIME) { sym_check(timedout, "a wait times out only after its time has passed"); sym_reach("timed out"); tpfree(data); return; }
    int k = -1; for (int j = 0; j < ncalls; j++) if (!calls[j].noreply && calls[j].cd == cd) k = j; sym_check(k >= 0, "a reply is delivered with the descriptor of its call"); sym_check(calls[k].replied && !calls[k].cancelled && !calls[k].delivered, "a reply is delivered once and not after its call was cancelled"); calls[k].delivered = true; delivered(calls[k], rc, err, data, len, haslen); sym_reach("any reply"); }
  else if (bad || calls[i].cancelled || calls[i].delivered || calls[i].noreply) { sym_check(rc == -1 && err == TPEBADDESC, "an answered or cancelled descriptor is invalid"); sym_check(!strcmp(data, "old"), "a refused wait changes nothing"); sym_reach("bad descriptor"); }
  else if (rc == -1 && err == TPETIME) { sym_check(timedout, "a wait times out only after its time has passed"); sym_check(!strcmp(data, "old"), "a wait that times out changes no data"); sym_reach("timed out"); }
  else { sym_check(calls[i].replied, "a call is answered by its own reply"); calls[i].delivered = true; delivered(calls[i], rc, err, data, len, haslen); sym_check(cd == calls[i].cd, "the descriptor of the call"); sym_reach("reply"); }
  tpfree(data); }
extern "C" void harness_main() {
  setup(); int cs = sym_case(); static const int second[] = {0, 1, 2, 3, 4}; env_on_empty = on_empty; // case: second and third step
  for (int k = 0; k < STEPS; k++) { int op = k == 0 ? 0 : k == 1 ? cs % 5 : k == 2 ? cs / 5 : sym_pick("op", 2, 4);
    if (op == 0) { if (ncalls >= 2) sym_end(); callrec &c = calls[ncalls]; memset(&c, 0, sizeof c); c.noreply = k && sym_bool("noreply"); int kind = k ? sym_pick("data", 0, 2) : 0; char *d = kind == 2 ? nullptr : tpalloc((char *)(kind ? "CARRAY" : "STRING"), nullptr, 8); uint8_t b = sym_range("request", 1, 255); if (d) { strcpy(d, "req"); d[2] = b; }
      c.cd = tpacall((char *)(ncalls ? "S2" : "SVC"), d, kind == 1 ? 3 : 0, c.noreply ? TPNOREPLY : 0); int err = tperrno; sym_check(c.noreply ? c.cd == 0 : c.cd > 0, "a call gets a descriptor"); sym_check(err == 0, "a successful call leaves no error"); for (int j = 0; j < ncalls; j++) if (!c.noreply && !calls[j].noreply) sym_check(c.cd != calls[j].cd, "descriptors are distinct"); c.sent = true; take(c, ncalls ? sq2 : sq, ncalls ? "S2" : "SVC", d, kind == 1 ? 3 : 0); ncalls++; if (d) tpfree(d); }
    else if (op == 1) { int i = sym_pick("which", 0, ncalls - 1); if (calls[i].noreply || calls[i].replied) sym_end(); answer(calls[i]); }
    else if (op == 2) { int i = sym_pick("which", 0, ncalls); static const int bad[] = {-1, 99}; wait(i, false, i == ncalls ? bad[sym_bool("bad")] : 0); }
    else if (op == 3) { if (!can_any()) sym_end(); wait(0, true, 0); }
    else { int i = sym_pick("which", 0, ncalls); int cd = i == ncalls ? 77 : calls[i].cd; bool good = i < ncalls && !calls[i].noreply && !calls[i].cancelled && !calls[i].delivered; int rc = tpcancel(cd), err = tperrno; sym_check(good ? rc == 0 && err == 0 : rc == -1 && err == TPEBADDESC, "exactly the descriptors of outstanding calls can be cancelled"); if (good) { calls[i].cancelled = true; sym_reach("cancelled"); } } }
  // afterwards: every outstanding call is answered, in one order or the other, and gets its reply
  bool rev = sym_bool("reverse"); for (int j = 0; j < ncalls; j++) { int i = rev ? ncalls - 1 - j : j; if (!calls[i].noreply && !calls[i].replied) { calls[i].kind = 0; calls[i].byte = 'a' + i; calls[i].rval = TPMINVAL; calls[i].rcode = 10 + i; reply(calls[i]); } }
  budget = 0; for (int i = 0; i < ncalls; i++) if (!calls[i].noreply && !calls[i].cancelled && !calls[i].delivered) { char *data = tpalloc((char *)"STRING", nullptr, 32); int cd = calls[i].cd; long len = 0; bool any = i == 0 && sym_bool("any"); waiting_for = any ? -1 : i; int rc = tpgetrply(&cd, &data, &len, any ? TPGETANY : 0), err = tperrno, k = i; if (any) for (int j = 0; j < ncalls; j++) if (!calls[j].noreply && calls[j].cd == cd) k = j; sym_check(!calls[k].cancelled && !calls[k].delivered && cd == calls[k].cd, "a reply is delivered once"); delivered(calls[k], rc, err, data, len, true); calls[k].delivered = true; tpfree(data); if (k != i) i--; }
  for (int i = 0; i < ncalls; i++) if (!calls[i].noreply) { int rc = tpcancel(calls[i].cd), err = tperrno; sym_check(rc == -1 && err == TPEBADDESC, "no descriptor stays in use"); }
  sym_check(env_lock_depth == 0, "the lock is given back"); tpterm(); bool found = false; for (size_t i = 0; i < M->accessers().length(); i++) found = found || M->accessers().at(i).pid; sym_check(!found, "a client that leaves is not registered"); sym_reach("end");
}
