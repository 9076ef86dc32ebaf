#pragma once
// the shared registry and the library connected to it
#include "sym.h"
#include "env.h"
#include <atmi.h>
#include <xatmi.h>
#include <xa.h>
#include <tx.h>
#include <string>
#include <vector>
#include "mib.h"
#include "trx.h"
static tuxconfig w_cfg;
static mib &world(int servers = 4, int services = 6, int queues = 6, int groups = 4, int accessers = 4) {
  memset(&w_cfg, 0, sizeof w_cfg); w_cfg.size = sizeof w_cfg; w_cfg.ipckey = 4711; w_cfg.maxservers = servers; w_cfg.maxservices = services; w_cfg.maxqueues = queues; w_cfg.maxgroups = groups; w_cfg.maxaccessers = accessers;
  env_put_file("tuxconfig", &w_cfg, sizeof w_cfg); env_set("TUXCONFIG", "tuxconfig"); env_set("ULOGPFX", "/dev/null/U"); // no log
  mib m(w_cfg); m.make_server(0, 0, "BBL", "-A", ".BBL"); return getmib(); }
