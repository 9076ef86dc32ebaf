// C10: full queues and failing system calls, one (thorough: two) per history: told or delivered, nothing half done
#include "c10_common.h"
#include <system_error>
static int q0, room_after, sleeps;
static void on_sleep() { if (++sleeps == room_after) env_queue_cap = 100; }
extern "C" void harness_main() {
  int c = sym_case(), big = c & 1, what = c >> 1; q0 = qcreate(); msg m; head h; load l; payload(l, 0, big ? 4500 : 700); m.set_data(l.p, l.n); fill(h, m);
  static const unsigned kinds[] = {F_MKSTEMP, F_WRITE, F_SHORTWRITE, F_CLOSE, F_MSGSND, F_NANOSLEEP}, rk[] = {F_MSGRCV, F_OPEN, F_STAT, F_READ, F_CLOSE, F_UNLINK};
#ifdef THOROUGH
  env_fault_budget = 2;
#else
  env_fault_budget = 1;
#endif
  int fl = sym_pick("flags", 0, 2); long limit = fl == noflags ? sym_pick("limit", 0, 3) * 150 : 0; bool ok = false, threw = false;
  if (what == 0) { // failures while sending
    env_faults = 0; for (unsigned k : kinds) env_faults |= k;
  } else if (what == 1) { // full queue, perhaps with room later
    if (fl == notime) sym_end(); env_queue_cap = 0; room_after = sym_pick("room", 0, 6); env_on_sleep = on_sleep;
  } else if (what == 2) { env_queue_cap = 0; env_faults = F_NANOSLEEP | F_MSGSND; if (fl == notime) sym_end(); }
  if (what <= 2) {
    try { ok = qsend(q0, m, limit, (fux::ipc::flags)fl); } catch (const std::system_error &e) { threw = true; }
    env_faults = 0; sym_check(ok == (env_q_len(q0) == 1), "a message is queued exactly when the sender is told so");
    sym_check(fl == notime || env_snd_blocking == 0, "a non-blocking or time-limited send does not block"); sym_check(env_slept_ns <= (limit + 500) * 1000000, "a time-limited send ends"); if (fl == noblock) sym_check(env_slept_ns == 0, "a non-blocking send does not wait");
    if (what == 1) { sym_check(!threw, "a full queue is not an error"); if (fl == noblock) sym_check(!ok, "a full queue refuses"); else if (limit >= 100 && room_after >= 1 && room_after * 100 <= limit) sym_check(ok, "a message is sent when room appears in time"); }
    if (!ok) { sym_check(env_file_count() == 0, "no temporary file remains when a send fails"); sym_check(env_open_fds() == 0, "no file stays open when a send fails"); sym_reach("not sent"); env_queue_cap = 10; sym_check(qsend(q0, m, 0, notime), "a later send works"); }
    msg r; qrecv(q0, r, 0, 0); same(h, r); got(l, r); sym_check(env_file_count() == 0 && env_open_fds() == 0 && env_q_len(q0) == 0, "no temporary file remains after delivery"); sym_reach("sent");
  } else { // failures while receiving
    sym_check(qsend(q0, m, 0, notime), "sent"); for (unsigned k : rk) env_faults |= k; msg r; try { qrecv(q0, r, 0, 0); ok = true; } catch (const std::system_error &e) { threw = true; }
    env_faults = 0; if (ok) { same(h, r); got(l, r); sym_reach("received"); sym_check(env_file_count() == 0, "no temporary file remains after delivery"); } else sym_reach("not received");
    sym_check(env_open_fds() == 0, "no file stays open after receiving");
    if (!ok && env_q_len(q0) == 1) { qrecv(q0, r, 0, 0); same(h, r); got(l, r); } // still queued: not lost
  }
}
