#pragma once
#include "fmlmodel.h"
#include "env.h"
#include <atmi.h>
#include <xatmi.h>
static const char *TY[] = {"CARRAY", "STRING", "FML32", "TPINIT"};
static void is_type(char *p, const char *ty) { char t[8], s[16]; sym_check(tptypes(p, t, s) >= 0, "type of a typed buffer"); sym_check(strncmp(t, ty, 8) == 0, "an imported buffer has the exported type"); sym_check(strncmp(s, "*", 16) == 0, "an imported buffer has the exported subtype"); }
#define FS fid(FLD_SHORT, 5)
#define FT fid(FLD_STRING, 6)
struct content { int type; long n; char b[80]; short f; int nt; };
// a buffer of the type with symbolic content; n: content size class
static char *build(content &c, int type, int n, long extra) {
  c.type = type; c.n = n; char *p = tpalloc((char *)TY[type], (char *)"*", n + extra); sym_check(p != nullptr, "tpalloc");
  if (type == 0 || type == 3) { if (n) { sym_bytes(c.b, n > 3 ? 3 : n, "b"); for (int i = 3; i < n; i++) c.b[i] = i; if (n > 4) c.b[n - 1] = c.b[1]; memcpy(p, c.b, n); } }
  else if (type == 1) { if (n) { int k = n > 3 ? 3 : n; sym_bytes(c.b, k, "s"); for (int i = 0; i < k; i++) sym_assume(c.b[i] != 0); for (int i = 3; i < n; i++) c.b[i] = 'a' + i % 20; } c.b[n] = 0; strcpy(p, c.b); }
  else { long z = Fsizeof32((FBFR32 *)p); memset(p, 0, 200); Finit32((FBFR32 *)p, z); c.f = sym_case() >= 4 ? 300 : sym_u16("f"); c.nt = n % 3; sym_check(Fadd32((FBFR32 *)p, FS, (char *)&c.f, 0) == 0, "fields"); if (sym_case() >= 4) c.b[0] = sym_pick("t", 0, 1) ? 0xe9 : 'x'; else { c.b[0] = sym_u8("t"); sym_assume(c.b[0] != 0); } c.b[1] = 0; for (int i = 0; i < c.nt; i++) sym_check(Fadd32((FBFR32 *)p, FT, c.b, 0) == 0, "fields"); }
  return p;
}
static long given(content &c) { return c.type == 0 || c.type == 3 ? c.n : sym_bool("len0") ? 0 : 999; } // length argument: only used for types without their own length
static void same_content(content &c, char *p) {
  is_type(p, TY[c.type]);
  if (c.type == 0 || c.type == 3) sym_check(memcmp(p, c.b, c.n) == 0, "an imported buffer has the exported content");
  else if (c.type == 1) sym_check(strcmp(p, c.b) == 0, "an imported buffer has the exported content");
  else { short g; sym_check(Fget32((FBFR32 *)p, FS, 0, (char *)&g, 0) == 0 && g == c.f, "an imported buffer has the exported content"); sym_check(Foccur32((FBFR32 *)p, FT) == c.nt && Foccur32((FBFR32 *)p, FS) == 1, "an imported buffer has the exported content"); for (int i = 0; i < c.nt; i++) sym_check(strcmp(Ffind32((FBFR32 *)p, FT, i, nullptr), c.b) == 0, "an imported buffer has the exported content"); sym_check(Fused32((FBFR32 *)p) + Funused32((FBFR32 *)p) == Fsizeof32((FBFR32 *)p) && Funused32((FBFR32 *)p) >= 0, "used + unused = size"); }
}
// everything the buffer announces as its own can be written
static void usable(char *p) { char t[8]; tptypes(p, t, nullptr); if (strncmp(t, "FML32", 8) == 0) { int k = 0; while (k < 50 && Fadd32((FBFR32 *)p, FT, (char *)"................................................................................", 0) == 0) k++; } }
