// C10: every message size around the in-queue limit, every header value: what is received is what was sent, in order, and no file stays
#include "c10_common.h"
extern "C" void harness_main() {
  static const int sz[] = {0, 150, 1000, 3900, 3990, 3991, 3992, 3993, 3999, 4000, 4001, 4002, 4007, 4008, 4009, 5000, 8192, 20000}; int c = sym_case();
  int q = qcreate(); int i = sym_pick("size", c * 3, c * 3 + 2); int fl = sym_pick("flags", 0, 2), ty = sym_pick("type", 0, 1);
  msg m; head h; load l; bool nodata = i == 0 && sym_bool("nodata");
  if (sym_bool("reused")) { load o; payload(o, 0, sym_bool("large") ? 6000 : 500); m.set_data(o.p, o.n); m->cat = unblock; m->ttype = file; }
  fill(h, m); if (nodata) m.set_data(nullptr, 0); else { payload(l, ty, sz[i]); m.set_data(l.p, l.n); }
  fill(h, m); // header after the data, as the callers do
  sym_check(qsend(q, m, sym_bool("limit") ? 5000 : 0, (fux::ipc::flags)fl), "a message is sent when there is room"); sym_check(env_q_len(q) == 1, "one message is queued per send");
  sym_check(env_open_fds() == 0, "no file stays open after sending"); sym_check(fl == notime || env_snd_blocking == 0, "a non-blocking or time-limited send does not block"); same(h, m);
  // another one behind it
  msg m2; head h2; load l2; fill(h2, m2); payload(l2, 0, sym_bool("second") ? 4300 : 300); m2.set_data(l2.p, l2.n); int second = sym_bool("two"); if (second) { sym_assume(h2.mtype != h.mtype); sym_check(qsend(q, m2, 0, notime), "a message is sent when there is room"); }
  int by = sym_pick("by", 0, second ? 2 : 1); msg r; if (sym_bool("dirty")) { r.resize_data(6000); r->cat = unblock; }
  qrecv(q, r, by == 0 ? 0 : by == 1 ? h.mtype : h2.mtype, 0);
  if (by == 2) { same(h2, r); got(l2, r); sym_check(env_q_len(q) == 1, "one message is taken per receive"); qrecv(q, r, 0, 0); }
  same(h, r); if (nodata) sym_check(r.size_data() == 0, "a received message has the payload length sent"); else got(l, r);
  if (second && by != 2) { qrecv(q, r, 0, 0); same(h2, r); got(l2, r); }
  sym_check(env_q_len(q) == 0 && env_file_count() == 0, "no temporary file remains after delivery"); sym_check(env_open_fds() == 0, "no file stays open after delivery"); sym_reach(i >= 10 ? "through a file" : "in the queue");
}
