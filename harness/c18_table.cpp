// C18: histories of start, join, look-up and end on small transaction tables; unique ids
#include "sym.h"
#include "env.h"
#include <xa.h>
#include <tx.h>
#include <string>
#include <vector>
#include "mib.h"
#include "trx.h"
#ifndef STEPS
#define STEPS 2
#endif
struct T { bool live; XID x; bool in[4]; };
static bool same(const XID &a, const XID &b) { return a.formatID == b.formatID && a.gtrid_length == b.gtrid_length && a.bqual_length == b.bqual_length && memcmp(a.data, b.data, a.gtrid_length + a.bqual_length) == 0; }
static XID fresh(bool simple = false) { XID x; memset(&x, 0, sizeof x); x.formatID = sym_range("format", 0, 2) - 1; int k = simple ? 2 : sym_pick("lengths", 0, 3); x.gtrid_length = k == 3 ? 2 : k > 0; x.bqual_length = k >= 2; x.data[0] = sym_u8("d0"); x.data[1] = sym_range("d1", 0, 1); return x; }
extern "C" void harness_main() {
  int cs = sym_case(); if (cs >= 6) { // unique ids: another process in the middle, any clock, any number of calls in between
    tuxconfig cfg; memset(&cfg, 0, sizeof cfg); cfg.maxservers = cfg.maxservices = cfg.maxqueues = cfg.maxgroups = cfg.maxaccessers = 1; static mib m(cfg, fux::mib::in_heap()); m->host = sym_u32("host"); m->counter = sym_u32("counter"); static uint64_t mid; static int calls; static bool second; mid = 0; calls = 0; second = sym_bool("concurrent");
    env_now_ns = (long)(sym_u32("sec1") & 0x7fffffff) * 1000000000L; if (second) env_on_clock = [] { env_on_clock = nullptr; mid = m.genuid(); };
    uint64_t a = m.genuid(); env_on_clock = nullptr; uint32_t others = sym_u32("others"); sym_assume(others < (1u << 24) - 4); m->counter += others; env_now_ns = (long)(sym_u32("sec2") & 0x7fffffff) * 1000000000L; uint64_t b = m.genuid();
    sym_check(a != b, "two transactions get different identifiers"); if (second) sym_check(a != mid && b != mid, "transactions started concurrently get different identifiers"); sym_check(a != 0 && b != 0, "an identifier is not empty"); sym_check((a >> 54) == (m->host & 1023) && (b >> 54) == (m->host & 1023), "an identifier names the machine"); sym_reach("unique"); return; }
  static const int caps[] = {1, 2, 3}; size_t cap = caps[cs % 3], groups = cs < 3 ? 2 : 3, ng = cs < 3 ? 2 : 9; auto G = [&](size_t k) { return k == 0 ? k : ng - groups + k; }; transaction_table *t = (transaction_table *)calloc(1, transaction_table::needed(cap, ng)); t->init(cap, ng); T m[3]; memset(m, 0, sizeof m);
  if (cap > 1) { int filled = sym_pick("filled", cap - 1, cap), places[3]; for (int k = 0; k < filled; k++) { XID x = fresh(true); sym_assume(x.formatID != -1); for (auto &e : m) if (e.live) sym_assume(!same(e.x, x)); int at = t->start(x, G(k == 0)); sym_check(at < (int)cap && !m[at].live, "transactions started have different places"); m[at].live = true; m[at].x = x; m[at].in[k == 0] = true; places[k] = at; }
    int gone = sym_pick("ended", 0, filled); if (gone < filled) { t->end(places[gone]); memset(&m[places[gone]], 0, sizeof(T)); } }
  for (int k = 0; k < STEPS; k++) { int op = sym_pick("op", 0, 3); int n = 0; for (auto &e : m) n += e.live;
    if (op == 0) { XID x = fresh(); sym_assume(x.formatID != -1); for (auto &e : m) if (e.live) sym_assume(!same(e.x, x)); size_t g = sym_pick("group", 0, groups); bool ok = true; fux::gttid i = 0; try { i = t->start(x, G(g)); } catch (const std::out_of_range &) { ok = false; } sym_check(ok == (n < (int)cap && g < groups), "a transaction is started unless the table is full or the group unknown");
      if (ok) { sym_check(i < cap && !m[i].live, "a transaction gets a free place"); memset(&m[i], 0, sizeof(T)); m[i].live = true; m[i].x = x; m[i].in[g] = true; sym_reach("started"); } else sym_reach("refused"); }
    else if (op == 1) { size_t i = sym_pick("at", 0, cap), g = sym_pick("group", 0, groups); bool live = i < cap && m[i].live; if (!live && i < cap) continue; bool ok = true; try { auto &r = t->join(i, G(g)); sym_check(same(r.xid, m[i].x), "joining returns the transaction"); } catch (const std::out_of_range &) { ok = false; } sym_check(ok == (i < cap && g < groups), "a group joins a transaction there is"); if (ok) m[i].in[g] = true; }
    else if (op == 2) { int i = sym_pick("at", 0, cap - 1); if (!m[i].live) sym_end(); t->end(i); memset(&m[i], 0, sizeof(T)); sym_reach("ended"); }
    else { XID x = fresh(); int want = -1; for (int i = 0; i < 3; i++) if (m[i].live && same(m[i].x, x)) want = i; int got = -1; try { got = t->find(x); } catch (const std::out_of_range &) {} sym_check(got == want, "a transaction is found by its identifier while it lives"); sym_reach(got == -1 ? "not found" : "found"); }
    for (int i = 0; i < (int)cap; i++) if (m[i].live) { sym_check(t->find(m[i].x) == i, "a transaction is found by its identifier while it lives"); sym_check(same(t->at(i).xid, m[i].x), "a transaction keeps its identifier"); for (size_t g = 0; g < ng; g++) sym_check(t->has_joined(i, g) == (g == 0 ? m[i].in[0] : g >= G(1) && m[i].in[g - G(1) + 1]), "a transaction remembers exactly the groups that joined"); } }
  sym_reach("end");
}
