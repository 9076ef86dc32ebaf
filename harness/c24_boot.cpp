// C24: tmboot on any registry: which servers are started, how, in which order, and what is recorded and reported
#include "world.h"
#include <iostream>
#include <sstream>
#define main tmboot_main
#define start tmboot_start
#include "tmboot.cpp"
#undef main
#undef start
namespace hx {
static const int N = 4; static mib *M; static bool want[N]; static int was[N], life[512], outcome[N], delay[N], forked[N], cur = -1, order, lastsrv = -1; // was: 0 no process, 1 running, 2 gone. outcome: 0 becomes active, 1 ends, 2 active then ends, 3 no process
static bool noexec, sel_i, sel_g; static int sid; static bool child;
static const int SRV[N] = {0, 5, 6, 5}, GRP[N] = {0, 1, 1, 2};
static void step() { sym_check(!env_lock_depth, "the lock is not held while waiting"); if (cur < 0) return; if (delay[cur] > 0) { delay[cur]--; return; } if (outcome[cur] == 0 || outcome[cur] == 2) M->servers().at(cur).state = state_t::ACTive; if (outcome[cur] == 1 || outcome[cur] == 2) life[200 + cur] = 2; }
static int onfork() {
  sym_check(!env_lock_depth, "the lock is not held while a process is started"); int i = lastsrv + 1; while (i < N && !(want[i] && was[i] != 1)) i++; sym_check(i < N, "a server is started that is not to be started"); sym_check(!noexec, "nothing is started when only the sequence is asked for");
  if (cur >= 0) sym_check(life[200 + cur] != 1 || M->servers().at(cur).state == state_t::ACTive, "the next server is started when the one before is ready or gone");
  lastsrv = i; if (M->servers().at(i).state == state_t::ACTive) sym_fail("a server being started is not yet active");
  if (sym_case() % N == i && sym_bool("new process")) { child = true; cur = i; return 0; }
  if (outcome[i] == 3) { cur = -1; forked[i] = 2; return -EAGAIN; } cur = i; forked[i] = 1; life[200 + i] = 1; if (delay[i] == 0) step(); return 200 + i; }
static void onexec(const char *f, char *const *a) { sym_check(child, "only a new process is replaced"); const char *names[] = {"BBL", "srvA", "srvB", "srvC"}; sym_check(!strcmp(f, names[cur]), "the configured program is started"); std::string g = std::to_string(GRP[cur]), s = std::to_string(SRV[cur]); const char *want[] = {names[cur], "-g", g.c_str(), "-i", s.c_str(), "-A", nullptr}; for (int i = 0; i < 6; i++) sym_check(a[i] && !strcmp(a[i], want[i]), "the program is given its group, its number and told to advertise all"); sym_check(a[6] == nullptr, "nothing else is given to the program"); sym_check(!strcmp(getenv("PATH"), "/tux/bin:/app:/bin"), "the program is looked for in the system's and the application's directory first"); sym_reach("new process"); }
static void onexit(int c) { sym_check(child && c != 0, "a new process that cannot start the program ends"); sym_reach("cannot run"); }
static int onwait(int p, int *, int o) { sym_check(cur >= 0 && p == 200 + cur, "only the process started is waited for"); sym_check(o != 0, "no wait for the process to end"); return life[p] == 1 ? 0 : p; }
static int onkill(int p, int s) { sym_check(s == 0, "no process is stopped"); return life[p] == 1 ? 0 : -ESRCH; }
static int count(const std::string &s, const char *w) { int n = 0; for (size_t p = 0; (p = s.find(w, p)) != std::string::npos; p++) n++; return n; }
extern "C" void harness_main() {
  int c = sym_case(); M = &world(6, 6, 6, 4, 4); mib &m = *M; strcpy(m.mach().tuxdir, "/tux"); strcpy(m.mach().appdir, "/app"); env_set("PATH", "/bin"); const char *names[] = {"BBL", "srvA", "srvB", "srvC"}; m.make_group(1, "GA", "", "", ""); m.make_group(2, "GB", "", "", "");
  for (int i = 1; i < N; i++) m.make_server(SRV[i], GRP[i], names[i], i == 2 ? "-A -- opt" : "", "q" + std::to_string(i)); m.servers().at(0).pid = 0; int mode = c / N; // 0 all, 1 one server, 2 one group, 3 both, 4 sequence only, 5 invalid log directory, 6 help
  sel_i = mode == 1 || mode == 3; sel_g = mode == 2 || mode == 3; noexec = mode == 4; sid = sel_i ? sym_pick("srvid", 4, 6) : -1; int gsel = sel_g ? sym_pick("group", 0, 2) : -1; const char *gn[] = {"GA", "GB", "GC"};
  bool autos[N]; for (int i = 0; i < N; i++) { autos[i] = i == 0 || sym_bool("autostart"); m.servers().at(i).autostart = autos[i]; bool in = (sid == -1 || SRV[i] == sid) && (gsel == -1 || GRP[i] == gsel + 1); want[i] = autos[i] && in; bool focus = i == c % N;
    was[i] = focus ? sym_pick("process", 0, 2) : 0; if (was[i]) { m.servers().at(i).pid = 100 + i; life[100 + i] = was[i]; m.servers().at(i).state = sym_bool("state") ? state_t::ACTive : state_t::INActive; } else m.servers().at(i).state = state_t::INActive; outcome[i] = focus ? sym_pick("outcome", 0, 3) : (i == (c + 1) % N ? 1 : 0); delay[i] = focus ? sym_pick("delay", 0, 2) : i % 2; }
  state_t st0[N]; for (int i = 0; i < N; i++) st0[i] = m.servers().at(i).state; if (mode == 5) strcpy(m.mach().tlogdevice, "/nodir");
  env_on_fork = onfork; env_on_exec = onexec; env_on_exit = onexit; env_on_wait = onwait; env_on_kill = onkill; env_on_sleep = step;
  std::string id = std::to_string(sid); std::vector<const char *> av = {"tmboot"}; if (!noexec || sym_bool("yes")) av.push_back("-y"); if (noexec) av.push_back("-n"); if (mode == 6) av.push_back("-h"); if (c % N == 3) av.push_back("-d"); if (sel_i) { av.push_back("-i"); av.push_back(id.c_str()); } if (sel_g) { av.push_back("-g"); av.push_back(gn[gsel]); } int n = av.size(); av.push_back(nullptr);
  std::ostringstream out, er; auto *o0 = std::cout.rdbuf(out.rdbuf()); auto *e0 = std::cerr.rdbuf(er.rdbuf()); int rc = tmboot_main(n, (char **)&av[0]); std::cout.rdbuf(o0); std::cerr.rdbuf(e0); std::string s = out.str();
  sym_check(!env_lock_depth, "the lock is given back"); if (mode == 5) { sym_check(rc != 0 && lastsrv == -1 && !er.str().empty(), "a system whose log directory is missing is not started"); sym_reach("not started"); return; } sym_check(rc == 0, "tmboot succeeds"); if (mode == 6) { sym_check(lastsrv == -1, "asking for help starts nothing"); sym_reach("help"); return; } int execs = 0, dup = 0, ok = 0, bad = 0;
  for (int i = 0; i < N; i++) { auto &v = m.servers().at(i); execs += want[i]; if (!want[i] || noexec) { sym_check(!forked[i] && v.pid == (was[i] ? 100 + i : 0) && v.state == st0[i], "a server that is not to be started is left alone"); continue; } if (was[i] == 1) { dup++; sym_check(!forked[i] && v.pid == 100 + i && v.state == st0[i], "a running server is not started again"); sym_reach("running"); continue; }
    sym_check(forked[i], "every server to be started is started"); bool alive = forked[i] == 1 && life[200 + i] == 1; sym_check(v.pid == (alive ? 200 + i : 0), "the registry knows the process of every running server and no other"); if (alive) { ok++; sym_check(v.state == state_t::ACTive, "a server that became active stays so"); sym_reach("started"); } else { bad++; sym_reach("failed"); } sym_check(v.autostart == autos[i] && v.srvid == SRV[i] && v.grpno == GRP[i] && !strcmp(v.servername, names[i]), "a server's entry is otherwise unchanged"); }
  sym_check(count(s, "exec ") == execs, "every server to be started is listed once"); sym_check(count(s, "Duplicate server") == dup && count(s, "Started.") == ok && count(s, "Failed.") == bad, "the outcome is reported for every server"); if (noexec) sym_reach("sequence"); sym_reach("end");
}
}
