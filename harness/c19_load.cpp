// C19: a configuration text, written to a file, loaded by tmloadcf and read back by a process starting in the configured system
#include "sym.h"
#include "env.h"
#include <string>
#include "mib.h"
#define main tmloadcf_main
#define require tmloadcf_require
#include "tmloadcf.cpp"
#undef main
namespace hx {
#ifndef DIGITS
#define DIGITS 1
#endif
static std::string text; static int topic; // what varies in this case
static bool opt(int t, const char *n) { return topic == t && sym_bool(n); } static int pick(int t, const char *n, int hi, int other) { return topic == t ? sym_pick(n, 0, hi) : other; }
static void eol() { text += "\n"; }
static void sep() { text += " "; }
static void val(const std::string &v, bool quote) { if (quote) text += "\""; text += v; if (quote) text += "\""; }
static long number(int t, const char *n, long base, std::string &s) { uint8_t d = topic == t ? sym_range(n, 0, 9) : 4; long v = base * 10 + d; s = base ? std::to_string(base) : ""; s += char('0' + d); return v; }
static void kv(const char *k, const std::string &v, int layout, bool quote) { if (layout == 1) text += "\n\t"; else if (layout == 2) text += " \t "; else sep(); text += k; if (layout == 2) text += " = "; else text += "="; val(v, quote); }
static int load() { static const char *argv[] = {"tmloadcf", "-y", "ubb", nullptr}; env_put_file("ubb", text.data(), text.size()); return tmloadcf_main(3, (char **)argv); }
static mib *M;
extern "C" void harness_main() {
  env_set("TUXCONFIG", "tuxconfig"); env_set("ULOGPFX", "/dev/null/U"); int c = sym_case(); int layout = c % 3; topic = c / 3; bool quote = opt(4, "quotes"); std::string s1, s2, s3;
  if (opt(4, "comments")) text += "# a comment *GROUPS\n\n"; text += "*RESOURCES\n"; long ipc = number(4, "ipckey", 5, s1); text += "IPCKEY "; val(s1, quote); eol(); long mserv = 50, msvc = 100, mq = 50, mg = 100, ma = 50; // built-in defaults
  int lim = pick(0, "limits", 5, 0); std::string s; if (lim == 1) { mserv = number(0, "limit", 1, s); text += "MAXSERVERS\t" + s + "\n"; } if (lim == 2) { msvc = number(0, "limit", 200, s); mserv = 9; text += "MAXSERVICES " + s + "\nMAXSERVERS 9\n"; } if (lim == 3) { mq = number(0, "limit", 1, s); text += "MAXQUEUES " + s + "\n"; } if (lim == 4) { mg = number(0, "limit", 0, s); sym_assume(mg >= 2); text += "MAXGROUPS " + s + "\n"; } if (lim == 5) { ma = number(0, "limit", 3, s); text += "MAXACCESSERS " + s + "\n"; }
  long block = 15000; int bl = pick(1, "blocktime", 4, 0); if (bl == 1) { block = number(1, "blk", 1, s) * 1000; text += "BLOCKTIME " + s + "\n"; } if (bl == 2) { long u = number(1, "unit", 1, s); text += "SCANUNIT " + s + "\nBLOCKTIME 3\n"; block = 3 * u * 1000; } if (bl == 3) { long u = number(1, "unit", 50, s); text += "SCANUNIT " + s + (opt(1, "lower") ? "ms" : "MS") + "\n"; block = 15 * u; } if (bl == 4) { long u = number(1, "unit", 0, s); text += "SCANUNIT " + s + "\n"; block = 15 * u * 1000; }
  text += "*MACHINES\nhost1"; kv("LMID", "site", layout, quote); kv("TUXCONFIG", "tuxconfig", layout, quote); kv("TUXDIR", "/tux", layout, true); kv("APPDIR", "/app x#=", layout, true); bool ul = opt(4, "ulogpfx"); if (ul) kv("ULOGPFX", "UL", layout, quote); eol(); if (opt(4, "blank")) text += "\n# x\n";
  int g1, g2; g1 = number(2, "grpno", 1, s1); text += "*GROUPS\nGRPA"; kv("GRPNO", s1, layout, quote); bool op = opt(2, "open info"), tms = topic == 2 ? sym_bool("tms") : topic == 3; int tmsn = 3; if (op) { kv("OPENINFO", "RM:a=b", layout, true); kv("CLOSEINFO", "RM:c", layout, quote); } if (tms) { kv("TMSNAME", "TMS1", layout, quote); int k = pick(2, "tmscount", 2, 0); if (k) { tmsn = k == 1 ? 2 : 4; kv("TMSCOUNT", std::to_string(tmsn), layout, quote); } } eol(); g2 = number(2, "grpno2", 2, s2); text += "GRPB"; kv("GRPNO", s2, layout, quote); eol();
  text += "*SERVERS\n"; long sid = number(3, "srvid", 3, s3); int max = 1, min = 1; val("srv1", quote); kv("SRVGRP", "GRPB", layout, quote); kv("SRVID", s3, layout, quote); int k = pick(3, "instances", 2, 1); if (k) { max = 3; kv("MAX", "3", layout, quote); if (k == 2) { min = 2; kv("MIN", "2", layout, quote); } } bool clopt = opt(3, "clopt"); if (clopt) kv("CLOPT", "-A -- -x", layout, true); bool rq = opt(3, "rqaddr"); if (rq) kv("RQADDR", "shared", layout, quote); bool thr = k == 0 && opt(3, "threads"); if (thr) { kv("MINDISPATCHTHREADS", "2", layout, quote); kv("MAXDISPATCHTHREADS", "7", layout, quote); } eol(); text += "srv2"; kv("SRVGRP", "GRPA", layout, quote); kv("SRVID", "8", layout, quote); eol();
  int n = 1 + (tms ? tmsn : 0) + max + 1, nq = 1 + (tms ? 1 : 0) + (rq ? 1 : max) + 1; if (lim == 1 && n > mserv) { sym_fail("too many servers for this harness"); } int rc = load(); sym_check(rc == 0, "a well-formed configuration is loaded"); sym_check(getubb() == text, "unloading gives the text back"); M = &getmib(); mib &m = *M;
  sym_check(m.groups().size() == (size_t)mg && m.servers().size() == (size_t)mserv && m.queues().size() == (size_t)mq && m.services().size() == (size_t)msvc && m.accessers().size() == (size_t)ma && m.advertisements().size() == (size_t)mserv * msvc, "the limits are those configured"); auto &d = m.domain(); sym_check(d.ipckey == ipc && d.maxservers == mserv && d.maxservices == msvc && d.maxqueues == mq && d.maxgroups == mg && d.maxaccessers == ma, "the limits are those configured");
  auto &h = m.mach(); sym_check(!strcmp(h.address, "host1") && !strcmp(h.lmid, "site") && !strcmp(h.tuxconfig, "tuxconfig") && !strcmp(h.tuxdir, "/tux") && !strcmp(h.appdir, "/app x#=") && !strcmp(h.ulogpfx, ul ? "UL" : "") && !strcmp(h.tlogdevice, ""), "the machine is the one configured"); sym_check(h.blocktime == block, "the blocking time is the one configured");
  sym_check(m.groups()->len == 2 && m.servers()->len == (size_t)n && m.queues()->len == (size_t)nq && m.services()->len == 0 && m.accessers()->len == 0 && m.advertisements()->len == 0, "exactly what is listed is registered"); auto &a = m.groups().at(0), &b = m.groups().at(1); sym_check(a.grpno == g1 && !strcmp(a.srvgrp, "GRPA") && !strcmp(a.openinfo, op ? "RM:a=b" : "") && !strcmp(a.closeinfo, op ? "RM:c" : "") && !strcmp(a.tmsname, tms ? "TMS1" : ""), "a group is the one configured"); sym_check(b.grpno == g2 && !strcmp(b.srvgrp, "GRPB") && !b.openinfo[0] && !b.tmsname[0], "a group is the one configured");
  auto check = [&](int id, int grp, const char *nm, const char *cl, const std::string &q, bool start, int mint, int maxt) { size_t i = m.find_server(id, grp); sym_check(i != mib::badoff, "every server listed is registered"); auto &v = m.servers().at(i); sym_check(!strcmp(v.servername, nm) && !strcmp(v.clopt, cl) && v.autostart == start && v.mindispatchthreads == mint && v.maxdispatchthreads == maxt && v.pid == 0, "a server is the one configured"); sym_check(q == m.queues().at(v.rqaddr).rqaddr && m.queues().at(v.rqaddr).msqid == -1, "a server's queue is the one configured"); };
  check(0, 0, "BBL", "-A", ".BBL", true, 0, 0); for (int i = 0; tms && i < tmsn; i++) check(30001 + i, g1, "TMS1", "-A", std::to_string(g1) + ".TM", true, 0, 0); for (int i = 0; i < max; i++) check(sid + i, g2, "srv1", clopt ? "-A -- -x" : "", rq ? "shared" : std::to_string(g2) + "." + std::to_string(sid + i), i < min, thr ? 2 : 1, thr ? 7 : 1); check(8, g1, "srv2", "", std::to_string(g1) + ".8", true, 1, 1);
  sym_reach(tms ? "with transaction managers" : "without"); sym_reach("end");
}
}
