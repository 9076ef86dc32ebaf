// C18: transaction identifiers as text: round trip, any text
#include "sym.h"
#include "env.h"
#include <xa.h>
#include <tx.h>
#include <string>
#include "mib.h"
#include "trx.h"
// the documented form: number . hex pairs [ . hex pairs ]
static bool hexd(char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
static bool valid(const std::string &s) {
  size_t i = 0, n = s.size(); if (i < n && s[i] == '-') i++; size_t d = i; while (i < n && s[i] >= '0' && s[i] <= '9') i++; if (i == d || i == n || s[i] != '.') return false; i++;
  size_t b = i; while (i < n && hexd(s[i])) i++; if ((i - b) % 2 || i - b > 128) return false; if (i == n) return true; if (s[i] != '.') return false; i++; b = i; while (i < n && hexd(s[i])) i++; return i == n && (i - b) % 2 == 0 && i - b <= 128; }
static int hv(char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
extern "C" void harness_main() {
  int c = sym_case();
  if (c < 8) { // round trip; guard bytes behind the identifier
    int k = sym_pick("lengths", 0, 8); static const int kg[] = {0, 1, 2, 64, 63, 8, 0, 64, 8}, kb[] = {0, 0, 2, 0, 64, 1, 3, 64, 63}; int g = kg[k], b = kb[k]; static const long fid[] = {0, 1, -1, 5, 2147483647L, -2147483648L, 9223372036854775807L, (long)0x8000000000000000UL};
    XID x; memset(&x, 0x5a, sizeof x); x.formatID = fid[c]; x.gtrid_length = g; x.bqual_length = b; memset(x.data, 0, sizeof x.data); for (int i = 0; i < g + b; i++) x.data[i] = i * 37 + c;
    fx_fmt_exact = 1; int w = sym_bool("where"); if (g && !w) x.data[g - 1] = sym_u8("last"); else if (b) x.data[g + (b > 1)] = sym_u8("bqual");
    std::string s = fux::to_string(&x); sym_check(valid(s), "an identifier's text has the documented form"); XID y; try { y = fux::to_xid(s); } catch (const std::exception &) { sym_fail("an identifier's text is accepted"); }
    sym_check(y.formatID == x.formatID && y.gtrid_length == g && y.bqual_length == b, "an identifier keeps its format and lengths"); sym_check(memcmp(y.data, x.data, g + b) == 0, "an identifier keeps its content"); sym_check(fux::to_string(&y) == s, "the text of an identifier is the same again"); sym_reach("round trip");
  } else if (c < 16) { // any short text
    int n = c - 8; char t[9]; if (n) sym_bytes(t, n, "text"); t[n] = 0; for (int i = 0; i < n; i++) sym_assume(t[i] != 0); std::string s(t, n); XID y; bool ok = true; try { y = fux::to_xid(s); } catch (const std::exception &) { ok = false; }
    sym_check(ok == valid(s), "text is accepted exactly when it is an identifier"); if (ok) { size_t i = s.find('.') + 1; int k = 0; for (; i < s.size(); i += s[i] == '.' ? 1 : 2) if (s[i] != '.') { sym_check((uint8_t)y.data[k] == hv(s[i]) * 16 + hv(s[i + 1]), "an identifier has the bytes written"); k++; } sym_check(k == y.gtrid_length + y.bqual_length, "an identifier has the length written"); sym_reach("accepted"); } else sym_reach("refused");
  } else { // long texts around the capacity, one arbitrary character somewhere
    static const int ln[] = {126, 127, 128, 129, 130, 132, 200, 256, 258, 600}; int g = ln[sym_pick("g", 0, 9)], b = ln[sym_pick("b", 0, 9)]; bool two = sym_bool("two"); std::string s = "7."; s += std::string(g, 'a'); if (two) s += "." + std::string(b, '1'); int at = c == 16 ? 1 : c == 17 ? s.size() - 1 : c == 18 ? 2 + g / 2 : c == 19 ? 0 : 2 + g - 1; if (at >= (int)s.size()) sym_end(); s[at] = sym_u8("c"); sym_assume(s[at] != 0);
    XID y; bool ok = true; try { y = fux::to_xid(s); } catch (const std::exception &) { ok = false; } sym_check(ok == valid(s), "text is accepted exactly when it is an identifier"); if (ok) sym_check(y.gtrid_length <= 64 && y.bqual_length <= 64 && y.gtrid_length >= 0 && y.bqual_length >= 0, "an accepted identifier fits"); sym_reach(ok ? "accepted" : "refused"); }
}
