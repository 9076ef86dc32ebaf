// C01: fields with several hundred occurrences (counts, positions and offsets beyond one byte)
#include "sym.h"
#include <fml32.h>
#include <stdlib.h>
#ifdef THOROUGH
#define N 700
#else
#define N 300
#endif
static const int ty[] = {FLD_SHORT, FLD_LONG, FLD_STRING, FLD_CARRAY, FLD_CHAR, FLD_DOUBLE};
static int t; static short base; static char val[16] __attribute__((aligned(8))); static FLDLEN32 vlen;
static char *value(int i) {
  memset(val, 0, sizeof val);
  if (t == FLD_SHORT) { short s = base + i; memcpy(val, &s, 2); vlen = 2; } else if (t == FLD_LONG) { long s = base + i; memcpy(val, &s, 8); vlen = 8; } else if (t == FLD_DOUBLE) { double s = i; memcpy(val, &s, 8); vlen = 8; }
  else if (t == FLD_CHAR) { val[0] = base + i; vlen = 1; } else { vlen = 1 + i % 11; for (int k = 0; k < vlen; k++) val[k] = 'a' + (i + k) % 26; if (t == FLD_STRING) { val[vlen++] = 0; } }
  return val;
}
extern "C" void harness_main() {
  t = ty[sym_case() % 6]; base = sym_u16("base");
  FBFR32 *b = (FBFR32 *)malloc(N * 28 + 200); sym_check(Finit32(b, N * 28 + 200) == 0, "Finit32");
  FLDID32 id = Fmkfldid32(t, 77), lo = Fmkfldid32(t, 76), hi = Fmkfldid32(t, 78);
  value(1); int a1 = Fadd32(b, lo, val, vlen); value(2); int a2 = Fadd32(b, hi, val, vlen); sym_check(a1 == 0 && a2 == 0, "a field that fits is added");
  for (int i = 0; i < N; i++) { value(i); sym_check(Fadd32(b, id, val, vlen) == 0, "a field that fits is added"); }
  static const int pos[] = {0, 1, 126, 127, 128, 129, 254, 255, 256, 257, N - 2, N - 1};
  int p = pos[sym_pick("pos", 0, 11)], op = sym_pick("op", 0, 3); int shift = 0, n = N, changed = -1;
  if (op == 1) { sym_check(Fdel32(b, id, p) == 0, "a present occurrence is deleted"); shift = 1; n--; }
  else if (op == 2) { value(p + 13); sym_check(Fchg32(b, id, p, val, vlen) == 0, "a field that fits is changed"); changed = p; }
  else if (op == 3) { value(5); sym_check(Fchg32(b, id, N + 2, val, vlen) == 0, "a field that fits is changed"); n = N + 3; }
  sym_check(Foccur32(b, id) == n, "number of occurrences"); sym_check(Foccur32(b, lo) == 1 && Foccur32(b, hi) == 1, "other fields stay");
  sym_check(Fpres32(b, id, n - 1) == 1 && Fpres32(b, id, n) == 0, "presence");
  FLDOCC32 last = -1; FLDLEN32 l = -1; char *q = Ffindlast32(b, id, &last, &l); sym_check(q && last == n - 1, "last occurrence");
  auto ok = [&](int oc, char *got, FLDLEN32 len) {
    if (op == 3 && oc >= N && oc < N + 2) { sym_check(len == (t == FLD_STRING ? 1 : t == FLD_CARRAY ? 0 : vlen), "gap filled with the empty value"); return; }
    value(op == 3 && oc == N + 2 ? 5 : oc == changed ? oc + 13 : oc + (shift && oc >= p)); sym_check(got && len == vlen && !memcmp(got, val, vlen), "value of an occurrence is the one stored"); };
  ok(n - 1, q, l);
  for (int i = 0; i < 12; i++) for (int d = -1; d <= 1; d++) { int oc = pos[i] + d; if (oc < 0 || oc >= n) continue; l = -1; q = Ffind32(b, id, oc, &l); sym_check(q != nullptr, "an occurrence is found"); ok(oc, q, l); }
  FLDID32 it = BADFLDID; FLDOCC32 oc = 0; int seen = 0;
  for (;;) { static char v[64]; l = 64; int r = Fnext32(b, &it, &oc, v, &l); if (r != 1) { sym_check(r == 0, "iteration does not fail"); break; }
    if (seen == 0) sym_check(it == lo, "iteration is in ascending field order"); else if (seen <= n) { sym_check(it == id && oc == seen - 1, "iteration gives every occurrence once, in order"); if (seen % 16 == 1) ok(oc, v, l); } else sym_check(it == hi && oc == 0, "iteration is in ascending field order");
    if (++seen > n + 2) break; }
  sym_check(seen == n + 2, "iteration gives every occurrence exactly once");
  sym_observe("used", (char *)b + 4, 4); sym_reach("end");
}
