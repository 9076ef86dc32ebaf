// C19: a configuration with one thing wrong is refused by the loader and leaves the configuration in force as it was; so does a syntax check
#include "sym.h"
#include "env.h"
#include <string>
#include "mib.h"
#define main tmloadcf_main
#define require tmloadcf_require
#include "tmloadcf.cpp"
#undef main
namespace hx {
static std::string rep(const char *s, int n) { std::string r; while (n--) r += s; return r; }
// the parts of a good configuration, each of which a case may replace
static std::string ipc = "IPCKEY 77", res, mach = "host1", mkeys = " LMID=site TUXCONFIG=tuxconfig TUXDIR=/t APPDIR=/a", mach2, grp = "*GROUPS\n", g1 = "GRPA", g1no = "GRPNO=1", g1k, g2 = "GRPB GRPNO=2", srv = "*SERVERS\n", s1 = "srv1", s1grp = " SRVGRP=GRPA", s1id = " SRVID=5", s1k, s2 = "srv2 SRVGRP=GRPB SRVID=5", tail;
// a value that is not a number in [lo, hi]: just outside, far outside, not a number, a number followed by something
static std::string bad(long lo, long hi) { int k = sym_pick("bad value", 0, 6); if (k == 0) return std::to_string(lo - 1); if (k == 1) return std::to_string(hi + 1); if (k == 2) return "99999999999999999999"; if (k == 3) return std::to_string(lo) + "x"; if (k == 4) return "\"\""; if (k == 5) { uint8_t c[2]; sym_bytes(c, 2, "text"); for (int i = 0; i < 2; i++) sym_assume(c[i] && c[i] != ' ' && (c[i] < 9 || c[i] > 13) && c[i] != '"' && c[i] != '#' && c[i] != '='); bool d1 = c[1] >= '0' && c[1] <= '9'; sym_assume(!d1 || (c[0] != '+' && (c[0] != '-' || lo > 0) && (c[0] < '0' || c[0] > '9'))); return std::string((char *)c, 2); } return "0x5"; } // "text": any two characters that are not a number
extern "C" void harness_main() {
  env_set("TUXCONFIG", "tuxconfig"); env_set("ULOGPFX", "/dev/null/U"); int c = sym_case(); bool noop = false, good = false;
  switch (c) {
  case 0: { static const char *k[] = {"MAXSERVERS", "MAXSERVICES", "MAXGROUPS", "MAXQUEUES", "MAXACCESSERS"}; static const long hi[] = {8192, 1048575, 32768, 8192, 32768}; int i = sym_pick("limit", 0, 4); std::string b = bad(1, hi[i]); res = std::string(k[i]) + " " + b + "\n"; break; }
  case 1: ipc = sym_bool("no key") ? "" : "IPCKEY " + bad(-2147483648l, 2147483647l); break;
  case 2: { static const char *k[] = {"BLOCKTIME 15x\n", "BLOCKTIME x\n", "SCANUNIT ms\n", "SCANUNIT x\n", "SCANUNIT 1xMS\n", "BLOCKTIME 9223372036854775807\n", "SCANUNIT 99999999999999999999\n", "BLOCKTIME -1\n", "SCANUNIT 10M\n", "BLOCKTIME 1e3\n"}; res = k[sym_pick("which", 0, 9)]; break; }
  case 3: g1no = "GRPNO=" + bad(1, 30000); break;
  case 4: s1id = " SRVID=" + bad(1, 30000); break;
  case 5: { static const char *k[] = {"MIN", "MAX", "MINDISPATCHTHREADS", "MAXDISPATCHTHREADS"}; int i = sym_pick("key", 0, 3); std::string b = bad(1, 1000); s1k = std::string(" ") + k[i] + "=" + b; break; }
  case 6: g1k = " TMSNAME=TMS TMSCOUNT=" + bad(2, 10); break;
  case 7: { static const char *k[] = {" TUXCONFIG=tuxconfig TUXDIR=/t APPDIR=/a", " LMID=site TUXDIR=/t APPDIR=/a", " LMID=site TUXCONFIG=tuxconfig APPDIR=/a", " LMID=site TUXCONFIG=tuxconfig TUXDIR=/t"}; int i = sym_pick("missing", 0, 6); if (i < 4) mkeys = k[i]; if (i == 4) g1no = ""; if (i == 5) s1id = ""; if (i == 6) s1grp = ""; break; }
  case 8: { int i = sym_pick("too long", 0, 6); int over = sym_pick("over", 0, 1); if (i == 0) mach = rep("h", sizeof(t_machine::address) + over); if (i == 1) mkeys = " LMID=" + rep("l", sizeof(t_machine::lmid) + over) + " TUXCONFIG=tuxconfig TUXDIR=/t APPDIR=/a"; if (i == 2) mkeys += " ULOGPFX=" + rep("u", sizeof(t_machine::ulogpfx) + over); if (i == 3) g1k = " OPENINFO=" + rep("o", sizeof(group::openinfo) + over); if (i == 4) { s1 = rep("s", sizeof(server::servername) + over); } if (i == 5) s1k = " RQADDR=" + rep("q", sizeof(queue::rqaddr) + over); if (i == 6) s1k = " CLOPT=" + rep("c", sizeof(server::clopt) + over); break; }
  case 9: { int i = sym_pick("duplicate", 0, 2); if (i == 0) g2 = "GRPB GRPNO=1"; if (i == 1) { s2 = "srv2 SRVGRP=GRPA SRVID=5"; } if (i == 2) { s1k = " MAX=3"; s2 = "srv2 SRVGRP=GRPA SRVID=7"; } break; }
  case 10: { int i = sym_pick("machines", 0, 3); if (i == 0) mach2 = "host2 LMID=x TUXCONFIG=tuxconfig TUXDIR=/t APPDIR=/a\n"; if (i == 1) mach = mkeys = ""; if (i == 2) mkeys = " LMID=site TUXCONFIG=tuxconfig2 TUXDIR=/t APPDIR=/a"; if (i == 3) s1grp = " SRVGRP=GRPX"; break; }
  case 11: { int i = sym_pick("too many", 0, 3); if (i == 0) res = "MAXSERVERS 2\n"; if (i == 1) res = "MAXGROUPS 1\n"; if (i == 2) res = "MAXQUEUES 2\n"; if (i == 3) { res = "MAXSERVERS 9\n"; s1k = " MAX=8"; } break; }
  case 12: { static const char *k[] = {"\" x\n", "srv3 SRVGRP\n", "srv3 SRVGRP=\n", "srv3 SRVGRP=GRPA SRVID=9 # note\n", "*\n", "*SERVERS x\n", "=GRPA\n", "srv3 =\n", "srv3 SRVGRP=GRPA SRVID=9", "*RESOURCES\nX\n", "*RESOURCES\nX 1 2\n", "srv3 SRVGRP=\"GRPA\n"}; tail = k[sym_pick("syntax", 0, 11)]; break; }
  default: noop = sym_bool("no load"); good = true; }
  std::string text = "*RESOURCES\n" + ipc + "\n" + res + "*MACHINES\n" + mach + mkeys + "\n" + mach2 + grp + g1 + " " + g1no + g1k + "\n" + g2 + "\n" + srv + s1 + s1grp + s1id + s1k + "\n" + s2 + "\n" + tail;
  env_put_file("ubb", text.data(), text.size()); int mode = c < 13 ? sym_pick("mode", 0, 2) : 2; static const char old[] = "the configuration in force"; if (mode) env_put_file("tuxconfig", old, sizeof old); static const char *argv[] = {"tmloadcf", "-y", "ubb", nullptr}; if (mode == 1 || noop) argv[1] = "-n";
  int rc = tmloadcf_main(3, (char **)argv); static char now[8192]; long n = env_get_file("tuxconfig", now, sizeof now);
  if (good) { sym_check(rc == 0, "a good configuration is accepted"); if (noop) { sym_check(n == (long)sizeof old && !memcmp(now, old, n), "a syntax check leaves the configuration in force as it was"); sym_reach("checked"); } else { sym_check(n == (long)(sizeof(tuxconfig) + text.size()) && !memcmp(now + sizeof(tuxconfig), text.data(), text.size()), "the configuration loaded is in force"); sym_reach("loaded"); } }
  else { sym_check(rc != 0, "the configuration is refused"); if (mode) sym_check(n == (long)sizeof old && !memcmp(now, old, n), "a refused configuration leaves the one in force as it was"); else sym_check(n == -1, "a refused configuration leaves nothing behind"); sym_reach("refused"); }
}
}
