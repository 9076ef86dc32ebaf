// C09: importing anything else: short, damaged or arbitrary bytes and texts are refused and the receiver stays as it was
#include "c09_common.h"
extern "C" void harness_main() {
  int c = sym_case(), rt = sym_pick("receiver", 0, 2); content a; char *dst = build(a, rt, 4, 0), *before = dst; (void)before;
  static char in[4000]; long n = 0; long flags = 0; char *src = nullptr; bool must = true;
  if (c == 0) { n = sym_pick("n", 1, 30); sym_bytes(in, n, "x"); must = n < 25; sym_assume(in[0] != 'C' && in[0] != 'T' && in[0] != 'S' && in[0] != 'F'); must = true; } // arbitrary bytes without a type at the start
  else if (c == 1 || c == 2) { // an export cut short
    content s; int t = sym_pick("type", 0, 2); src = build(s, t, 3, 0); long l = sizeof in; sym_check(tpexport(src, 3, in, &l, 0) == 0, "export"); int cut = sym_pick("cut", 1, 3); n = c == 1 ? (t == 0 ? sym_pick("left", 1, 23) : l - (t == 1 ? cut : cut * 7)) : sym_pick("left", 1, 23); }
  else if (c == 3) { // unknown type, subtype
    content s; int t = sym_pick("type", 0, 2); src = build(s, t, 3, 0); n = sizeof in; sym_check(tpexport(src, 3, in, &n, 0) == 0, "export"); int k = sym_pick("pos", 0, 2); char old = in[k == 2 ? 8 : k]; char x = sym_u8("x"); sym_assume(x != old); if (k == 2) sym_assume(x != 0); in[k == 2 ? 8 : k] = x; }
  else if (c == 4) { // text that is not base64 or not of whole groups
    flags = TPEX_STRING; content s; src = build(s, 0, 3, 0); long l = sizeof in; sym_check(tpexport(src, 3, in, &l, TPEX_STRING) == 0, "export"); int w = sym_pick("w", 0, 2); n = l - 1; if (w == 0) { n -= sym_pick("cut", 1, 3); in[n] = 0; } else { int k = w == 1 ? sym_pick("pos", 0, 3) : n - sym_pick("pos", 3, 4); char x = sym_u8("x"); sym_assume(x != 0 && !((x >= 'A') & (x <= 'Z')) && !((x >= 'a') & (x <= 'z')) && !((x >= '0') & (x <= '9')) && x != '+' && x != '/'); in[k] = x; } }
  else if (c == 5) { flags = TPEX_STRING; n = sym_pick("n", 0, 5) * 4; for (long i = 0; i < n; i++) in[i] = 'A' + i; if (n > 4) { in[4] = sym_u8("x"); in[7] = sym_u8("y"); sym_assume(in[4] != 0 && in[7] != 0); } in[n] = 0; } // texts shorter than any export
  else if (c == 6) { // a string or fielded buffer followed by more bytes
    content s; int t = sym_pick("type", 1, 2); src = build(s, t, 3, 0); n = sizeof in; sym_check(tpexport(src, 3, in, &n, 0) == 0, "export"); int more = sym_pick("more", 1, 2); sym_bytes(in + n, more, "m"); n += more; }
  else { n = 10; int w = sym_pick("w", 0, 2); long l = 3; int r = w == 0 ? tpimport(nullptr, 10, &dst, &l, 0) : w == 1 ? tpimport(in, 10, nullptr, &l, 0) : ({ char *z = nullptr; tpimport(in, 10, &z, &l, 0); }); sym_check(r == -1 && tperrno == TPEINVAL, "missing arguments"); same_content(a, dst); sym_reach("refused"); return; }
  char *e = (char *)malloc(n + 1); memcpy(e, in, n); e[n] = 0; if (!(flags & TPEX_STRING)) { char *g = (char *)malloc(n ? n : 1); memcpy(g, in, n); free(e); e = g; }
  long olen = 5; int r = tpimport(e, n, &dst, &olen, flags);
  sym_check(r == -1 && tperrno != 0, "what is not an export is refused"); same_content(a, dst); usable(dst); sym_reach("refused"); tpfree(dst);
}
