// C11: tables of several sizes filled to the last place, including transactions: nothing overlaps, everything reads back
#include "sym.h"
#include "env.h"
#include <xa.h>
#include <tx.h>
#include <string>
#include "mib.h"
#include "trx.h"
extern "C" void harness_main() {
  static const uint16_t caps[] = {1, 2, 3, 5, 16}; int cs = sym_case(); tuxconfig cfg; memset(&cfg, 0, sizeof cfg);
  cfg.maxservers = caps[cs % 5]; cfg.maxservices = caps[(cs / 5 + cs) % 5]; cfg.maxqueues = caps[sym_pick("q", 0, 3)]; cfg.maxgroups = caps[sym_pick("g", 0, 3)]; cfg.maxaccessers = caps[sym_pick("a", 0, 3)];
  if (cfg.maxservers * cfg.maxservices > 80) cfg.maxservices = 3;
  cfg.ipckey = 99; mib m(cfg); // shared memory of exactly the size asked for
  sym_check(env_shm_size(0) == mib::needed(cfg), "the shared memory has the size needed"); int sy = sym_int("value"); uint8_t b = sym_u8("byte"); sym_assume(b != 0);
  auto fill = [&](void *p, size_t n, int k) { memset(p, 0, n); memset(p, 1 + k % 100, n < 40 ? n : 40); memset((char *)p + n - 1, b, 1); };
  auto is = [&](void *p, size_t n, int k) { for (size_t i = 0; i < (n < 40 ? n : 40) - 1; i++) if (((uint8_t *)p)[i] != 1 + k % 100) return false; return ((uint8_t *)p)[n - 1] == b; };
  int k = 0; m.groups()->len = cfg.maxgroups; m.servers()->len = cfg.maxservers; m.queues()->len = cfg.maxqueues; m.services()->len = cfg.maxservices; m.accessers()->len = cfg.maxaccessers; m.advertisements()->len = m.advertisements().size();
#define ALL(F) for (size_t i = 0; i < cfg.maxgroups; i++) F(&m.groups().at(i), sizeof(group), k++); for (size_t i = 0; i < cfg.maxservers; i++) F(&m.servers().at(i), sizeof(server), k++); for (size_t i = 0; i < cfg.maxqueues; i++) F(&m.queues().at(i), sizeof(queue), k++); for (size_t i = 0; i < cfg.maxservices; i++) F(&m.services().at(i), sizeof(service), k++); for (size_t i = 0; i < cfg.maxaccessers; i++) F(&m.accessers().at(i), sizeof(accesser), k++); for (size_t i = 0; i < m.advertisements().size(); i++) F(&m.advertisements().at(i), sizeof(advertisement), k++);
  sym_check(m.groups().size() == cfg.maxgroups && m.servers().size() == cfg.maxservers && m.queues().size() == cfg.maxqueues && m.services().size() == cfg.maxservices && m.accessers().size() == cfg.maxaccessers && m.advertisements().size() == (size_t)cfg.maxservers * cfg.maxservices, "the tables have their configured capacity");
  ALL(fill) m.domain().trantime = sy; m.mach().blocktime = sy;
  XID x; memset(&x, 0, sizeof x); x.formatID = 5; x.gtrid_length = 8; for (size_t i = 0; i < m.transactions().size; i++) { x.data[0] = i; m.transactions().start(x, cfg.maxgroups - 1); }
  k = 0;
#define CHK(p, n, i) sym_check(is(p, n, i), "an entry keeps its content when others are written")
  ALL(CHK)
  for (size_t i = 0; i < m.transactions().size; i++) { x.data[0] = i; sym_check(m.transactions().find(x) == i && m.transactions().has_joined(i, cfg.maxgroups - 1), "a transaction keeps its content when others are written"); }
  for (size_t i = 0; i < m.transactions().size; i++) { m.transactions()[i].xid.bqual_length = 1 + i; memset(m.transactions()[i].xid.data, b, XIDDATASIZE); for (size_t j = 0; j < cfg.maxgroups; j++) m.transactions()[i].groups[j] = 3; }
  k = 0; ALL(CHK)
  sym_check((int)m.domain().trantime == sy && m.mach().blocktime == sy && m->conf.ipckey == 99, "the configuration keeps its content"); sym_reach("end");
}
