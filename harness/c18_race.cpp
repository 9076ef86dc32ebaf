// C18: identifiers made by two processes at once, the second one at any access of the first one to the shared registry
#include "sym.h"
#include "env.h"
#include <xa.h>
#include <tx.h>
#include "shared.h"
#include "mib.cpp"
static mib *M; static uint64_t mid; static bool second;
extern "C" void harness_main() {
  tuxconfig cfg; memset(&cfg, 0, sizeof cfg); cfg.maxservers = cfg.maxservices = cfg.maxqueues = cfg.maxgroups = cfg.maxaccessers = 1; mib m(cfg, fux::mib::in_heap()); M = &m; m->host = sym_u32("host"); m->counter = sym_u32("counter"); env_now_ns = (long)(sym_u32("sec1") & 0x7fffffff) * 1000000000L;
  sh_lo = (char *)m.operator->(); sh_hi = sh_lo + mib::needed(cfg); sh_other = [] { second = true; mid = M->genuid(); }; env_on_clock = [] { sh_access(sh_lo); };
  uint64_t a = m.genuid(); if (sym_case() == 1) { if (second) sym_end(); } else sh_other = nullptr; env_now_ns = (long)(sym_u32("sec2") & 0x7fffffff) * 1000000000L; uint64_t b = m.genuid(); sh_other = nullptr;
  sym_check(sh_points > 0, "the registry is used"); sym_check(a != b, "two transactions get different identifiers"); if (second) { sym_check(a != mid && b != mid, "transactions started concurrently get different identifiers"); sym_reach("concurrent"); } else sym_reach("alone");
}
