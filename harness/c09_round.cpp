// C09: export (binary and text) into areas of every size around what is needed, import into receivers of every type and size
#include "c09_common.h"
extern "C" void harness_main() {
  int c = sym_case(), type = c % 4, text = (c / 4) & 1; static const int sizes[] = {0, 1, 2, 3, 4, 5, 60}; int n = sizes[sym_pick("n", 0, 6)];
  content a; char *src = build(a, type, n, sym_pick("extra", 0, 1) * 30); long len = given(a);
  long flags = text ? TPEX_STRING : 0, big = 6000; static char probe[6000]; sym_check(tpexport(src, len, probe, &big, flags) == 0 && tperrno == 0, "an export into a large area succeeds");
  long need = big; if (text) sym_check((long)strlen(probe) == need - 1 && (need - 1) % 4 == 0, "announced length of a text export");
  long d = sym_pick("d", -2, 1); if (sym_bool("none")) d = -need; long sz = need + d; char *out = (char *)malloc(sz + 1); out[sz] = 77; long olen = sz;
  int r = tpexport(src, len, out, &olen, flags);
  if (d < 0) { sym_check(r == -1 && tperrno == TPELIMIT && olen == need, "an export that does not fit is refused and announces the size needed"); same_content(a, src); sym_reach("too small"); return; }
  sym_check(r == 0 && olen == need, "an export that fits succeeds"); sym_check(memcmp(out, probe, need) == 0, "exports of the same buffer are equal"); same_content(a, src); tpfree(src);
  if (d == 1) { sym_check(out[sz] == 77, "an export stays within its announced length"); sym_reach("fits"); return; }
  // receivers
  int rt = sym_pick("receiver", 0, 3); static const int rs[] = {0, 20, 70, 600, 2000}; int ri = sym_pick("rsize", 0, 4); content b; char *dst;
  if (ri == 4) { dst = tpalloc((char *)TY[rt], (char *)"*", 2000); dst = tprealloc(dst, 10); } else if (ri == 3) { dst = tpalloc((char *)TY[rt], (char *)"*", 10); dst = tprealloc(dst, 600); } else dst = tpalloc((char *)TY[rt], (char *)"*", rs[ri]);
  if (rt == 2) { short x = 3; Fadd32((FBFR32 *)dst, fid(FLD_SHORT, 77), (char *)&x, 0); }
  long got = 0; char *in = (char *)malloc(need); memcpy(in, out, need); free(out);
  long ilen = need; if (text) ilen = sym_bool("zero") ? 0 : need - 1; long *gp = sym_bool("olen") ? &got : nullptr;
  r = tpimport(in, ilen, &dst, gp, flags); sym_check(r == 0 && tperrno == 0, "an export is accepted by import"); free(in);
  same_content(a, dst); usable(dst); sym_reach("round trip");
  if (sym_bool("again")) { content e; char *s2 = build(e, 0, 60, 0); long l2 = 6000; sym_check(tpexport(s2, 60, probe, &l2, 0) == 0 && tpimport(probe, l2, &dst, nullptr, 0) == 0, "second import"); same_content(e, dst); }
  tpfree(dst);
}
