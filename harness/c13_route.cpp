// C13: histories of advertise / withdraw by servers and requests by two processes, changes also while a process waits for the lock
#include "sym.h"
#include "env.h"
#include <xa.h>
#include <tx.h>
#include <string>
#include <vector>
#include "mib.h"
#include "svcrepo.h"
#ifndef STEPS
#define STEPS 2
#endif
static mib *M; static const int NS = 4; // servers: 0,1 in group 1 with own queues, 2 in group 2 sharing the queue of 0 (MSSQ), 3 in group 3
static int grp[NS], qid[NS]; static bool adv[2][NS]; static int order[2][NS], norder[2]; static const char *svc[2] = {"SVC", "SVC2"}; static size_t qidx[NS];
static void change(int s, int i, bool on) { if (adv[s][i] == on) return; if (on) M->advertise(svc[s], qidx[i], i); else M->unadvertise(svc[s], qidx[i], i); adv[s][i] = on; }
static int pend_s = -1, pend_i, pend_when; static bool fired; // a change by another process around the lock
static void onlock(int) { if (pend_s >= 0 && pend_when == 0) { int s = pend_s; pend_s = -1; change(s, pend_i, !adv[s][pend_i]); fired = true; } }
static void onunlock(int) { if (pend_s >= 0 && pend_when == 1) { int s = pend_s; pend_s = -1; change(s, pend_i, !adv[s][pend_i]); fired = true; } }
static bool offered(int s, int g, int id) { for (int i = 0; i < NS; i++) if (adv[s][i] && (g == -1 || grp[i] == g) && qid[i] == id) return true; return false; }
static bool any(int s, int g) { for (int i = 0; i < NS; i++) if (adv[s][i] && (g == -1 || grp[i] == g)) return true; return false; }
static int ask(service_repository &r, int g, int s) { try { return r.get_queue(g, svc[s]); } catch (const std::out_of_range &) { return -1; } }
extern "C" void harness_main() {
  tuxconfig cfg; memset(&cfg, 0, sizeof cfg); cfg.maxservers = NS; cfg.maxservices = 3; cfg.maxqueues = NS; cfg.maxgroups = 4; cfg.maxaccessers = 2; cfg.ipckey = 7; mib m(cfg); M = &m;
  for (int i = 0; i < NS; i++) { grp[i] = i == 1 ? 1 : i == 0 ? 1 : i; m.make_server(i + 1, grp[i], "srv", "", i == 2 ? "q0" : "q" + std::to_string(i)); qidx[i] = m.servers().at(i).rqaddr; qid[i] = m.make_service_rqaddr(i); sym_check(env_q_exists(qid[i]), "a server has a queue"); }
  sym_check(qid[2] == qid[0] && qid[1] != qid[0] && qid[3] != qid[0] && qid[3] != qid[1], "servers share a queue exactly when their addresses are equal");
  int c = sym_case(); for (int i = 0; i < NS; i++) if (c >> i & 1) change(0, i, true); if (c & 5) change(1, 3, true);
  service_repository r0(m), r1(m); service_repository *r[2] = {&r0, &r1}; env_on_lock = onlock; env_on_unlock = onunlock;
  if (sym_bool("used")) ask(r0, -1, 0);
  for (int k = 0; k < STEPS; k++) {
    int op = sym_pick("op", 0, 2);
    if (op == 0) { auto l = m.data_lock(); int s = k ? 0 : sym_pick("svc", 0, 1), i = sym_pick("srv", s ? 3 : 0, NS - 1); change(s, i, !adv[s][i]); }
    else { int g = k < STEPS - 1 ? -1 : sym_pick("grp", -1, 3), s = k == STEPS - 1 ? sym_pick("svc", 0, 1) : 0, p = sym_pick("process", 0, 1); if (g == 0) sym_end(); fired = false; bool was[NS]; memcpy(was, adv[s], sizeof was);
      if (op == 2) { pend_s = s; pend_i = sym_pick("changed", s ? 3 : 0, NS - 1); pend_when = sym_pick("when", 0, 1); }
      int id = ask(*r[p], g, s); bool after = fired && pend_when == 1; if (after) { bool now[NS]; memcpy(now, adv[s], sizeof now); memcpy(adv[s], was, sizeof was); bool oka = id == -1 ? !any(s, g) : offered(s, g, id); memcpy(adv[s], now, sizeof now); bool okb = id == -1 ? !any(s, g) : offered(s, g, id); sym_check(oka || okb, "a request goes to a server that offers the service"); sym_reach("changed after the look"); }
      else { if (id == -1) { sym_check(!any(s, g), "a service is found when it is offered"); sym_reach("no such service"); } else { sym_check(offered(s, g, id), "a request goes to a server that offers the service, in the group asked for"); sym_reach("routed"); } if (fired) sym_reach("changed before the look"); }
      pend_s = -1; }
    sym_check(env_lock_depth == 0, "the lock is given back");
  }
  // rotation: as many requests as offers reach every one
  int p = sym_pick("process", 0, 1), n = 0, hits[NS] = {0}; for (int i = 0; i < NS; i++) n += adv[0][i];
  if (n) { int seen[2 * NS]; for (int k = 0; k < 2 * n; k++) seen[k] = ask(*r[p], -1, 0); for (int k = 0; k < n; k++) sym_check(seen[k] == seen[k + n], "requests rotate"); for (int i = 0; i < NS; i++) if (adv[0][i]) { int want = 0, got = 0; for (int j = 0; j < NS; j++) want += adv[0][j] && qid[j] == qid[i]; for (int k = 0; k < n; k++) got += seen[k] == qid[i]; sym_check(want == got, "successive requests rotate through all servers offering the service"); } sym_reach("rotated"); }
  else sym_check(ask(*r[p], -1, 0) == -1, "a service nobody offers does not exist");
  sym_check(ask(*r[p], -1, 0) == -1 || n, "end"); service_repository r2(m); sym_check((ask(r2, -1, 0) != -1) == (n > 0), "a new process finds a service exactly when it is offered");
  bool t = false; try { r2.get_queue(-1, "SV"); } catch (const std::out_of_range &) { t = true; } sym_check(t, "a name that is only the beginning of a service's name is not found");
}
