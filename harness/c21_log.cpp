// C21: log lines, error texts and formatted texts of every length around the sizes of the areas they are made in
#include "world.h"
#include <userlog.h>
#include <sys/time.h>
#include <time.h>
#include <fml32.h>
#include "misc.h"
extern char *proc_name;
static char text[9200], pn[9200], got[9200];
static const char *logname() { static char n[64]; struct timeval tv; struct tm t; gettimeofday(&tv, nullptr); localtime_r(&tv.tv_sec, &t); snprintf(n, sizeof n, "ulog.%02d%02d%02d", t.tm_mon + 1, t.tm_mday, t.tm_year % 100); return n; }
static int around(const char *n, int lo, int size, int width) { int k = sym_pick(n, 0, lo + width); return k <= lo ? k : size - width / 2 + (k - lo); }
extern "C" void harness_main() {
  int c = sym_case(); for (size_t i = 0; i < sizeof text; i++) text[i] = 'a' + i % 23; memcpy(pn, text, sizeof pn);
  if (c <= 2) { // log lines: long messages, long program names, both
    env_set("ULOGPFX", "ulog"); bool ms = sym_bool("milliseconds"); if (ms) env_set("ULOGMILLISEC", sym_bool("y") ? "y" : "n"); int n = c == 1 ? sym_pick("len", 0, 1) * 40 : around("len", 1, BUFSIZ - (c == 2 ? 100 : 40), 60), p = c == 0 ? 4 : c == 1 ? around("name", 1, BUFSIZ - 30, 44) : 100; text[n] = 0; pn[p] = 0; proc_name = pn;
    int rc = c == 1 ? userlog("%s", text) : sym_bool("number") ? userlog("%d%s", 5, text) : userlog("%s", text); sym_check(rc == 0, "the message is logged"); long l = env_get_file(logname(), got, sizeof got); sym_check(l > 0 && l < BUFSIZ && got[l - 1] == '\n', "a log line is complete"); got[l - 1] = 0;
    char *at = strchr(got, ':'); sym_check(at && at < got + 40, "with its time and machine"); sym_check(!strncmp(at + 1, pn, l - 1 - (at + 1 - got) < p ? l - 1 - (at + 1 - got) : p), "and program"); char *m = strstr(got, ": "); if (m) { m += 2; if (*m == '5') m++; size_t k = strlen(m); sym_check(!strncmp(m, text, k) && (k == (size_t)n || l >= BUFSIZ - 2), "and message, cut only where it does not fit"); if (k < (size_t)n) sym_reach("cut"); else sym_reach("whole"); } else sym_reach("cut");
    // a second line follows the first
    proc_name = (char *)"x"; sym_check(userlog("next") == 0, "logged"); long l2 = env_get_file(logname(), got, sizeof got); sym_check(l2 > l + 10 && !strcmp("next\n", (got[l2] = 0, got + l2 - 5)), "lines are kept");
  } else if (c == 3) { // formatted text
    int n = around("len", 2, 128, 8); if (sym_bool("long")) n = 9000; text[n] = 0; auto s = string_format("%s", text); sym_check((int)s.size() == n && !memcmp(s.data(), text, n), "formatted text is whole"); s = string_format("<%s>%d", text, 12); sym_check((int)s.size() == n + 4 && !memcmp(s.data() + 1, text, n) && !strcmp(s.c_str() + n + 1, ">12"), "formatted text is whole"); sym_reach("formatted");
  } else if (c == 4) { // error texts
    env_set("ULOGPFX", "ulog"); int n = around("len", 1, 1024, 8); if (sym_bool("long")) n = 9000; text[n] = 0; if (sym_bool("fml")) { fux::fml32::set_Ferror32(FBADNAME, "%s", text); int e = Ferror32; sym_check(e == FBADNAME, "the code is kept"); } else { fux::atmi::set_tperrno(TPEINVAL, "%s", text); int e = tperrno; sym_check(e == TPEINVAL, "the code is kept"); } int e = sym_int("number"); char *s = tpstrerror(e); sym_check(s != nullptr, "every number has a text"); if ((e >= TPEABORT) & (e <= TPEMATCH)) sym_check(s[0] != 0, "every error has a text"); sym_reach("text");
  } else if (c == 6) { // error texts of any bytes
    env_set("ULOGPFX", "ulog"); int n = sym_pick("len", 0, 4); for (int i = 0; i < n; i++) { text[i] = sym_u8("byte"); sym_assume(text[i] != 0); } text[n] = 0; proc_name = (char *)"x"; bool f = sym_bool("fml"); if (f) fux::fml32::set_Ferror32(FBADNAME, "<%s>", text); else fux::atmi::set_tperrno(TPENOENT, "<%s>", text);
    long l = env_get_file(logname(), got, sizeof got); if (f && l <= 0) { sym_reach("end"); return; } int k = 0; while (k < l && got[k] != '<') k++; sym_check(l >= 0 && k + n + 2 <= l, "an error is logged"); bool same = got[k + n + 1] == '>'; for (int i = 0; i < n; i++) same &= got[k + 1 + i] == text[i]; sym_check(same, "an error is logged with its text, whatever bytes it has"); sym_reach("any bytes");
  } else { // the name of the log
    int n = around("len", 1, FILENAME_MAX - 4, 16); text[n] = 0; env_set("ULOGPFX", text); int rc = userlog("x"); sym_check(rc == 0 || rc == -1, "answered"); sym_reach("name"); }
  sym_reach("end");
}
