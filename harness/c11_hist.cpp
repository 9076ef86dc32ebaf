// C11: every history of registry calls against a plain model of the tables, small capacities
#include "sym.h"
#include "env.h"
#include <xa.h>
#include <tx.h>
#include <string>
#include <vector>
#include "mib.h"
#include "trx.h"
#ifndef STEPS
#define STEPS 3
#endif
struct G { unsigned no; std::string name, oi, ci, tms; };
struct Q { std::string a; long cnt; size_t srv; int id; };
struct S { unsigned id, grp; std::string name, clopt; size_t q; };
struct V { std::string name; uint64_t rev; state_t st; };
struct A { size_t svc, q, srv; };
static std::vector<G> g; static std::vector<Q> q; static std::vector<S> s; static std::vector<V> v; static std::vector<A> a; static std::vector<int> c; // c: clients, 0 = free slot
static mib *M; static tuxconfig cfg;
// a name: first letter symbolic, length from the short ones or around the limit
static std::string name(const char *n, size_t limit, bool big) {
  int k = sym_pick("len", 0, big ? 3 : 1); size_t len = k == 0 ? 1 : k == 1 ? 2 : k == 2 ? limit - 1 : limit; std::string r(len, 'x'); r[0] = sym_range(n, 'a', 'c'); return r; }
static size_t mfq(const std::string &x) { for (size_t i = 0; i < q.size(); i++) if (q[i].a == x) return i; return mib::badoff; }
static size_t mfs(unsigned id, unsigned grp) { for (size_t i = 0; i < s.size(); i++) if (s[i].id == id && s[i].grp == grp) return i; return mib::badoff; }
static size_t mfv(const std::string &x) { for (size_t i = 0; i < v.size(); i++) if (v[i].name == x) return i; return mib::badoff; }
static size_t mfg(unsigned no) { for (size_t i = 0; i < g.size(); i++) if (g[i].no == no) return i; return mib::badoff; }
static void compare() {
  mib &m = *M;
  sym_check(m.groups().length() == g.size() && m.servers().length() == s.size() && m.queues().length() == q.size() && m.services().length() == v.size() && m.accessers().length() == c.size(), "the tables have the registered number of entries");
  sym_check(m.groups().length() <= cfg.maxgroups && m.servers().length() <= cfg.maxservers && m.queues().length() <= cfg.maxqueues && m.services().length() <= cfg.maxservices && m.accessers().length() <= cfg.maxaccessers && m.advertisements().length() <= (size_t)cfg.maxservers * cfg.maxservices, "the tables stay within their capacity");
  for (size_t i = 0; i < g.size(); i++) { auto &x = m.groups().at(i); sym_check(x.grpno == g[i].no && g[i].name == x.srvgrp && g[i].oi == x.openinfo && g[i].ci == x.closeinfo && g[i].tms == x.tmsname, "a group has the attributes it was created with"); sym_check(m.find_group(g[i].no) == i, "a group is found by its number"); sym_check(m.group_index(g[i].name) <= i, "a group is found by its name"); }
  for (size_t i = 0; i < q.size(); i++) { auto &x = m.queues().at(i); sym_check(q[i].a == x.rqaddr && x.servercnt == q[i].cnt && x.msqid == q[i].id && (q[i].cnt == 0 || x.server_idx == q[i].srv), "a queue has the attributes it was created with"); sym_check(m.find_queue(q[i].a) == i, "a queue is found by its address"); }
  for (size_t i = 0; i < s.size(); i++) { auto &x = m.servers().at(i); sym_check(x.srvid == s[i].id && x.grpno == s[i].grp && s[i].name == x.servername && s[i].clopt == x.clopt && x.rqaddr == s[i].q, "a server has the attributes it was created with"); sym_check(m.find_server(s[i].id, s[i].grp) == i, "a server is found by its id and group"); }
  for (size_t i = 0; i < v.size(); i++) { auto &x = m.services().at(i); sym_check(v[i].name == x.servicename && x.state == v[i].st && x.load == 50 && x.prio == 50 && x.trantime == 30 && !strcmp(x.autotran, "N") && !strcmp(x.buftype, "ALL") && !strcmp(x.buftypeconv, "NOCONVERT"), "a service has the attributes it was created with"); sym_check(x.revision == v[i].rev, "a service's revision changes exactly when its advertisements do"); sym_check(m.find_service(v[i].name) == i, "a service is found by its name"); }
  size_t n = 0; for (size_t i = 0; i < m.advertisements().length(); i++) { auto &x = m.advertisements().at(i); if (x.service == mib::badoff) { sym_check(x.queue == mib::badoff && x.server == mib::badoff, "a withdrawn advertisement is gone"); continue; } n++; bool f = false; for (auto &y : a) f = f || (x.service == y.svc && x.queue == y.q && x.server == y.srv); sym_check(f, "an advertisement present was made and not withdrawn"); sym_check(x.state == state_t::ACTive, "an advertisement present is active"); }
  sym_check(n == a.size(), "every advertisement made and not withdrawn is present once");
  for (size_t i = 0; i < c.size(); i++) sym_check(m.accessers().at(i).pid == c[i], "a client registration is kept until it ends");
}
static void step(int op, bool last) {
  mib &m = *M; bool ok = true; size_t r = mib::badoff;
  try { switch (op) {
    case 0: { G n{(unsigned)sym_range("grpno", 1, 4), "", "oi", "c", "tms"}; int w = last ? sym_pick("which", 0, 3) : 0; (w == 0 ? n.name : w == 1 ? n.oi : w == 2 ? n.ci : n.tms) = name("name", w == 0 ? 30 : 256, last); if (w) n.name = "b"; bool good = mfg(n.no) == mib::badoff && g.size() < cfg.maxgroups && n.name.size() < 30 && n.oi.size() < 256 && n.ci.size() < 256 && n.tms.size() < 256; 
      try { r = m.make_group(n.no, n.name, n.oi, n.ci, n.tms); } catch (const std::exception &) { ok = false; } sym_check(ok == good, "a group is created unless it exists, is too long or the table is full"); if (ok) { sym_check(r == g.size(), "a created group is the last entry"); g.push_back(n); } break; }
    case 1: { S n{(unsigned)sym_range("srvid", 1, 3), (unsigned)sym_range("grp", 0, 2), "server", "-A", 0}; int w = last ? sym_pick("which", 0, 2) : 0; std::string qa = "bq"; (w == 0 ? qa : w == 1 ? n.name : n.clopt) = name("name", w == 0 ? 32 : w == 1 ? 128 : 1024, last);  size_t qi = mfq(qa); bool good = mfs(n.id, n.grp) == mib::badoff && s.size() < cfg.maxservers && n.name.size() < 128 && n.clopt.size() < 1024 && qa.size() < 32 && (qi != mib::badoff || q.size() < cfg.maxqueues);
      try { r = m.make_server(n.id, n.grp, n.name, n.clopt, qa); } catch (const std::exception &) { ok = false; } sym_check(ok == good, "a server is created unless it exists, is too long or a table is full"); if (ok) { sym_check(r == s.size(), "a created server is the last entry"); if (qi == mib::badoff) { qi = q.size(); q.push_back({qa, 0, 0, -1}); } n.q = qi; q[qi].cnt++; q[qi].srv = s.size(); s.push_back(n); } break; }
    case 2: { std::string qa = name("rqaddr", 32, last); bool good = mfq(qa) == mib::badoff && q.size() < cfg.maxqueues && qa.size() < 32; try { r = m.make_queue(qa); } catch (const std::exception &) { ok = false; } sym_check(ok == good, "a queue is created unless it exists, is too long or the table is full"); if (ok) { sym_check(r == q.size(), "a created queue is the last entry"); q.push_back({qa, 0, 0, -1}); } break; }
    case 3: { std::string n = name("service", XATMI_SERVICE_NAME_LENGTH, last); bool good = mfv(n) == mib::badoff && v.size() < cfg.maxservices && n.size() < XATMI_SERVICE_NAME_LENGTH; try { r = m.make_service(n); } catch (const std::exception &) { ok = false; } sym_check(ok == good, "a service is created unless it exists, is too long or the table is full"); if (ok) v.push_back({n, 0, state_t::INActive}); break; }
    case 4: case 5: { if (s.empty()) sym_end(); std::string n = name("service", XATMI_SERVICE_NAME_LENGTH, last); size_t si = sym_pick("server", 0, s.size() - 1), qi = s[si].q; size_t vi = mfv(n), at = mib::badoff; for (size_t i = 0; i < a.size(); i++) if (a[i].svc == vi && a[i].q == qi && a[i].srv == si) at = i;
      if (op == 4) { bool good = at == mib::badoff && (vi != mib::badoff || (v.size() < cfg.maxservices && n.size() < XATMI_SERVICE_NAME_LENGTH)); try { m.advertise(n, qi, si); } catch (const std::exception &) { ok = false; } sym_check(ok == good, "a service is advertised unless it is already or the table is full"); if (ok) { if (vi == mib::badoff) { vi = v.size(); v.push_back({n, 0, state_t::INActive}); } v[vi].rev++; v[vi].st = state_t::ACTive; a.push_back({vi, qi, si}); sym_reach("advertised"); } }
      else { bool good = vi != mib::badoff && at != mib::badoff; try { m.unadvertise(n, qi, si); } catch (const std::exception &) { ok = false; } sym_check(ok == good, "a service is withdrawn if it is advertised"); if (ok) { uint64_t was = v[vi].rev; v[vi].rev = m.services().at(vi).revision; sym_check(v[vi].rev != was, "withdrawing changes the revision"); a.erase(a.begin() + at); sym_reach("withdrawn"); } } break; }
    case 6: { int pid = 100 + sym_range("pid", 0, 9); size_t want = c.size(); for (size_t i = c.size(); i-- > 0;) if (!c[i]) want = i; bool good = want < cfg.maxaccessers; try { r = m.make_accesser(pid); } catch (const std::exception &) { ok = false; } sym_check(ok == good, "a client is registered unless the table is full"); if (ok) { sym_check(r < c.size() ? c[r] == 0 : r == c.size(), "a client gets a free place"); if (r == c.size()) c.push_back(0); c[r] = pid; } else sym_reach("full"); break; }
    case 7: { if (c.empty()) sym_end(); int i = sym_pick("client", 0, c.size() - 1); m.accessers().at(i).invalidate(); c[i] = 0; break; }
    case 8: { if (s.empty()) sym_end(); int i = sym_pick("server", 0, s.size() - 1); env_faults = F_MSGGET; env_fault_budget = 1; int id = -1; try { id = m.make_service_rqaddr(i); } catch (const std::exception &) { ok = false; } env_faults = 0; Q &x = q[s[i].q]; if (ok) { sym_check(x.id == -1 ? env_q_exists(id) : id == x.id, "a server's queue is created once"); x.id = id; } else sym_check(x.id == -1, "an existing queue is used"); break; }
  } } catch (const std::exception &) { sym_fail("unexpected exception"); }
  if (!ok) sym_reach("refused");
}
extern "C" void harness_main() {
  int cs = sym_case(), first = cs % 9, cap = cs / 9 == 1, twice = cs / 9 == 2; memset(&cfg, 0, sizeof cfg); int k = cap ? 2 : 1; cfg.maxservers = cap ? 2 : 1; cfg.maxservices = 2; cfg.maxqueues = k; cfg.maxgroups = k; cfg.maxaccessers = k; cfg.size = 0; cfg.ipckey = 0;
  mib m(cfg, fux::mib::in_heap()); M = &m; compare();
  if (cap || first == 5 || first == 7 || first == 8) { size_t r = m.make_server(1, 1, "server", "", "bq"); (void)r; q.push_back({"bq", 1, 0, -1}); s.push_back({1, 1, "server", "", 0}); m.make_accesser(77); c.push_back(77); m.make_group(1, "ax", "o", "", ""); g.push_back({1, "ax", "o", "", ""});
    m.advertise("a", 0, 0); v.push_back({"a", 1, state_t::ACTive}); a.push_back({0, 0, 0}); }
  // a step of the case's kind, then steps of any kind, the last one also with names around the limits
  for (int i = 0; i < (twice ? 2 : STEPS); i++) { int op = i == STEPS - 1 || twice ? first : sym_pick("op", 0, 8); if (i == 0 && STEPS > 2) { if (op != first && op != 4 && op != 6) sym_end(); } step(op, twice || i == STEPS - 1); compare(); }
  // what was never registered is not found
  sym_check(m.find_group(9) == mib::badoff && m.find_queue("zz") == mib::badoff && m.find_server(9, 9) == mib::badoff && m.find_service("zz") == mib::badoff && m.find_service("") == mib::badoff && m.group_index("zz") == mib::badoff, "what is not registered is not found");
  sym_reach("end");
}
