// C18: beginning, joining and ending a transaction while another process begins, joins or ends others, before any access to the shared registry that the lock allows
#include "shared.h"
#include "tx_common.h"
#include "tx.cpp"
namespace hx {
static const int NO = 3; static struct { bool live; XID x; fux::gttid id; bool in[4]; } o[NO]; static int what; static bool acted; static const int CAP = 4;
static void fill(XID &x, int k) { memset(&x, 0, sizeof x); x.formatID = 7; x.gtrid_length = 2; x.bqual_length = 1; x.data[0] = k; x.data[1] = sym_u8("id"); }
static void start(int k, int g) { auto &t = M->transactions(); o[k].id = t.start(o[k].x, M->find_group(g)); o[k].live = true; memset(o[k].in, 0, sizeof o[k].in); o[k].in[g] = true; }
static void other() { acted = true; auto l = M->data_lock(); auto &t = M->transactions();
  if (what == 0) start(2, 1); else if (what == 1) { t.join(o[0].id, M->find_group(2)); o[0].in[2] = true; } else if (what == 2) { t.end(o[0].id); o[0].live = false; } else { t.end(o[1].id); o[1].live = false; start(2, 3); } }
static void look(XID *mine, bool live) { auto &t = M->transactions(); int n = 0; for (int k = 0; k < NO; k++) { int at = -1; try { at = t.find(o[k].x); } catch (const std::out_of_range &) {} sym_check(o[k].live ? at == o[k].id : at == -1, "a transaction is found by its identifier while it lives"); if (!o[k].live) continue; n++; for (int g = 1; g <= 3; g++) sym_check(t.has_joined(at, M->find_group(g)) == o[k].in[g], "a transaction remembers exactly the groups that joined"); }
  int at = -1; if (mine) { try { at = t.find(*mine); } catch (const std::out_of_range &) {} sym_check((at != -1) == live, "a transaction is found by its identifier while it lives"); if (live) for (auto &e : o) sym_check(!e.live || e.id != at, "transactions have different places"); }
  sym_check(live_transactions() == n + (mine && live), "a transaction occupies a place exactly while it lives"); }
extern "C" void harness_main() {
  int c = sym_case(); M = &world(); for (int g = 1; g <= 3; g++) M->make_group(g, "G" + std::to_string(g), "", "", ""); what = sym_pick("what", 0, 3); for (int k = 0; k < NO; k++) fill(o[k].x, k); start(0, 1); start(1, 2);
  sh_lo = (char *)M->operator->(); sh_hi = sh_lo + mib::needed(w_cfg); sh_may = [] { return env_lock_depth == 0; }; TXINFO i; sym_check(tx_open() == TX_OK, "opened");
  if (c == 0) { sh_other = other; sym_check(tx_begin() == TX_OK, "begun"); sh_other = nullptr; sym_check(tx_info(&i) == 1, "in a transaction"); look(&i.xid, true); for (int g = 1; g <= 3; g++) sym_check(!M->transactions().has_joined(M->transactions().find(i.xid), M->find_group(g)), "a new transaction has no participants"); sym_check(tx_rollback() == TX_OK, "ended"); look(&i.xid, false); }
  else if (c < 3) { sym_check(tx_begin() == TX_OK, "begun"); sym_check(tx_info(&i) == 1, "in a transaction"); sh_other = other; int rc = c == 1 ? tx_commit() : tx_rollback(); sh_other = nullptr; sym_check(rc == TX_OK, "ended"); look(&i.xid, false); sym_check(tx_info(nullptr) == 0, "in no transaction"); }
  else { fux::tx::grpidx = M->find_group(3); fux::tx::grpno = 3; if (what == 3) sym_end(); auto id = o[1].id; sh_other = other; fux::tx_join(id); sh_other = nullptr; sym_check(tx_info(&i) == 1 && same(i.xid, o[1].x), "the transaction of the request is joined"); o[1].in[3] = true; look(nullptr, false); }
  sym_check(sh_points > 0 && env_lock_depth == 0, "the lock is given back"); sym_reach(acted ? "met" : "not met");
}
}
