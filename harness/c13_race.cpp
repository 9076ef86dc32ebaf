// C13: a request while another process advertises or withdraws, before any access of the caller to the shared registry that the lock allows
#include "shared.h"
#include "env.h"
#include <xa.h>
#include <tx.h>
#include <string>
#include <vector>
#include "mib.cpp"
#include "svcrepo.h"
static mib *M; static const int NS = 3; static int qid[NS]; static size_t qidx[NS]; static bool adv[NS], was[NS]; static int what; static bool acted;
static void change(int i, bool on) { if (adv[i] == on) return; if (on) M->advertise("SVC", qidx[i], i); else M->unadvertise("SVC", qidx[i], i); adv[i] = on; }
static void other() { acted = true; auto l = M->data_lock(); if (what < NS) change(what, !adv[what]); else { change(0, !adv[0]); change(what - NS + 1, !adv[what - NS + 1]); } }
static int ask(service_repository &r, int g) { try { return r.get_queue(g, "SVC"); } catch (const std::out_of_range &) { return -1; } }
static bool offered(const bool *a, int g, int id) { bool any = false; for (int i = 0; i < NS; i++) if (a[i] && (g == -1 || g == i + 1)) { any = true; if (qid[i] == id) return true; } return id == -1 && !any; }
extern "C" void harness_main() {
  tuxconfig cfg; memset(&cfg, 0, sizeof cfg); cfg.maxservers = NS; cfg.maxservices = 3; cfg.maxqueues = NS; cfg.maxgroups = 4; cfg.maxaccessers = 2; cfg.ipckey = 7; mib m(cfg); M = &m; int c = sym_case();
  for (int i = 0; i < NS; i++) { m.make_server(i + 1, i + 1, "srv", "", "q" + std::to_string(i)); qidx[i] = m.servers().at(i).rqaddr; qid[i] = m.make_service_rqaddr(i); }
  if (c & 8) { m.advertise("OTHER", qidx[1], 1); } for (int i = 0; i < NS; i++) if (c >> i & 1) change(i, true);
  service_repository r(m); if (sym_bool("used")) ask(r, -1); if (sym_bool("stale")) { auto l = m.data_lock(); change(1, !adv[1]); }
  what = sym_pick("what", 0, NS + 1); memcpy(was, adv, sizeof was); int g = sym_pick("group", 0, NS); if (g == 0) g = -1;
  sh_lo = (char *)m.operator->(); sh_hi = sh_lo + mib::needed(cfg); sh_may = [] { return env_lock_depth == 0; }; sh_other = other; int id = ask(r, g); sh_other = nullptr;
  sym_check(sh_points > 0 || id == -1, "the registry is looked at"); sym_check(env_lock_depth == 0, "the lock is given back");
  sym_check(offered(was, g, id) || (acted && offered(adv, g, id)), "a request goes to a server that offers the service, in the group asked for"); sym_reach(acted ? "met" : "not met");
  for (int k = 0; k < NS; k++) { int n = ask(r, g); sym_check(offered(adv, g, n), "the next request notices the change"); } int n = 0, hits = 0; bool seen[NS] = {false}; for (int i = 0; i < NS; i++) n += adv[i]; for (int k = 0; k < n; k++) { int x = ask(r, -1); for (int i = 0; i < NS; i++) if (qid[i] == x && !seen[i]) { seen[i] = true; hits++; } } sym_check(hits == n, "successive requests rotate through all servers offering the service"); sym_reach("end");
}
