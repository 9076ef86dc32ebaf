// C04: every pair of types, any value; conversion function and converting add/get
#include "fmlmodel.h"
#ifndef SLEN
#define SLEN 4
#endif
static const int ty[] = {FLD_SHORT, FLD_LONG, FLD_CHAR, FLD_FLOAT, FLD_DOUBLE, FLD_STRING, FLD_CARRAY};
static int isnum(int t) { return t != FLD_STRING && t != FLD_CARRAY; }
static long refint(const char *s, int n) {   // atol of the first n characters
  int i = 0; while (i < n && (s[i] == ' ' || (s[i] >= 9 && s[i] <= 13))) i++;
  int neg = 0; if (i < n && (s[i] == '-' || s[i] == '+')) neg = s[i++] == '-';
  long v = 0; while (i < n && s[i] >= '0' && s[i] <= '9') v = v * 10 + (s[i++] - '0');
  return neg ? -v : v;
}
extern "C" void harness_main() {
  int c = sym_case(); int from = ty[c / 7], to = ty[c % 7];
  char in[32] __attribute__((aligned(8))) = {0}; FLDLEN32 inlen = 0; short s = 0; long l = 0; char ch = 0; float f = 0; double d = 0;
  char want[96] __attribute__((aligned(8))) = {0}; long wl = -1;
  long iv = 0; int inrange = 1;
  switch (from) {
    case FLD_SHORT: s = (short)sym_u16("v"); memcpy(in, &s, 2); iv = s; break;
    case FLD_LONG: l = sym_long("v"); if (!isnum(to)) { int p = sym_pick("size", 0, 2); if (p == 0) sym_assume(l >= -99999 && l <= 99999); else if (p == 1) l = (long)(1UL << 63) + (l & 7); else l = 0x7fffffffffffffffL - (l & 7); } memcpy(in, &l, 8); iv = l; break;
    case FLD_CHAR: ch = (char)sym_u8("v"); memcpy(in, &ch, 1); iv = ch; break;
    case FLD_FLOAT: { if (isnum(to)) { sym_bytes(&f, 4, "v"); if (to != FLD_FLOAT && to != FLD_DOUBLE) sym_assume(f > -128.0f && f < 127.0f); } else { static const float t[] = {0, 1.5f, -2.25f, 1e10f, 123456.0f}; f = t[sym_pick("i", 0, 4)]; } memcpy(in, &f, 4); } break;
    case FLD_DOUBLE: { if (isnum(to)) { sym_bytes(&d, 8, "v"); if (to != FLD_DOUBLE) { if (to == FLD_FLOAT) sym_assume(d == (double)(float)d); else sym_assume(d > -128.0 && d < 127.0); } } else { static const double t[] = {0, 1.5, -2.25, 1e15, 0.000001}; d = t[sym_pick("i", 0, 4)]; } memcpy(in, &d, 8); } break;
    default: {
      int n = sym_pick("n", 0, SLEN); if (to == FLD_FLOAT || to == FLD_DOUBLE) { static const char *t[] = {"", "1.5", "-3", "2e2", "x"}; const char *q = t[sym_pick("i", 0, 4)]; n = strlen(q); memcpy(in, q, n); }
      else if (n) { sym_bytes(in, n, "v"); if (from == FLD_STRING) for (int i = 0; i < n; i++) sym_assume(in[i] != 0); }
      if (from == FLD_CARRAY && n < 30) in[n] = 'Z', inlen = n;   // what follows a byte array is not part of it
      else inlen = 0;
      if (from == FLD_STRING) iv = refint(in, n); else { int z = n; for (int i = n - 1; i >= 0; i--) if (in[i] == 0) z = i; iv = to == FLD_STRING || to == FLD_CARRAY ? 0 : refint(in, z); }
      if (to == FLD_STRING) { memcpy(want, in, n); want[n] = 0; wl = n + 1; } else if (to == FLD_CARRAY) { memcpy(want, in, n); wl = n; }
      else if (to == FLD_CHAR) { want[0] = n ? in[0] : 0; wl = 1; }
      else if (to == FLD_FLOAT || to == FLD_DOUBLE) { double x = !strncmp(in, "1.5", 3) ? 1.5 : !strncmp(in, "-3", 2) ? -3 : !strncmp(in, "2e2", 3) ? 200 : 0; if (to == FLD_FLOAT) { float y = x; memcpy(want, &y, 4); wl = 4; } else { memcpy(want, &x, 8); wl = 8; } }
      break; } }
  int strfrom = !isnum(from);
  if (to == FLD_SHORT) { short x = from == FLD_FLOAT ? (short)f : from == FLD_DOUBLE ? (short)d : (short)iv; memcpy(want, &x, 2); wl = 2; }
  else if (to == FLD_LONG) { long x = from == FLD_FLOAT ? (long)f : from == FLD_DOUBLE ? (long)d : iv; memcpy(want, &x, 8); wl = 8; }
  else if (to == FLD_CHAR && !strfrom) { char x = from == FLD_FLOAT ? (char)f : from == FLD_DOUBLE ? (char)d : (char)iv; memcpy(want, &x, 1); wl = 1; }
  else if (to == FLD_FLOAT && !strfrom) { float x = from == FLD_FLOAT ? f : from == FLD_DOUBLE ? (float)d : from == FLD_SHORT ? (float)s : from == FLD_CHAR ? (float)ch : (float)l; memcpy(want, &x, 4); wl = 4; }
  else if (to == FLD_DOUBLE && !strfrom) { double x = from == FLD_FLOAT ? (double)f : from == FLD_DOUBLE ? d : from == FLD_SHORT ? (double)s : from == FLD_CHAR ? (double)ch : (double)l; memcpy(want, &x, 8); wl = 8; }
  FLDLEN32 tolen = 777; char *r = Ftypcvt32(&tolen, to, in, from, inlen);
  sym_check(r != nullptr, "a conversion between field types succeeds");
  if (wl >= 0) { sym_check((long)tolen == wl, "length of the converted value"); sym_check(memcmp(r, want, wl) == 0, "converted value"); }
  else { // number to text: read it back
    if (to == FLD_STRING) { sym_check(tolen >= 2 && r[tolen - 1] == 0, "a number as a string is terminated"); }
    int n = to == FLD_STRING ? tolen - 1 : tolen; sym_check(n > 0 && n < 90, "length of a number as text");
    if (from == FLD_CHAR) { sym_check(n == 1 && r[0] == ch, "a character as text is itself"); memcpy(want, r, 1); }
    else if (from == FLD_FLOAT || from == FLD_DOUBLE) { memcpy(want, r, n); want[n] = 0; double x = atof(want), y = from == FLD_FLOAT ? f : d; sym_check(x - y < 1e-5 && y - x < 1e-5, "a number as text has its value"); }
    else {
      for (int i = 0; i < n; i++) sym_check((r[i] >= '0') & (r[i] <= '9') | (i == 0) & (r[i] == '-') & (n > 1), "an integer as text has only digits");
      // no superfluous digits, and the same value
      unsigned long v = 0; int neg = r[0] == '-'; for (int i = neg; i < n; i++) v = v * 10 + (r[i] - '0'); sym_check((long)(neg ? 0 - v : v) == iv, "an integer as text has its value");
      sym_check(!(r[neg] == '0' && n > 1), "an integer as text has no leading zero");
    }
    memcpy(want, r, n); want[n] = 0; wl = tolen;
    sym_reach("number to text");
  }
  sym_observe("cvt", r, tolen);
  // through a buffer: converting add, then plain and converting reads
  FBFR32 *b = (FBFR32 *)malloc(300); sym_check(Finit32(b, 300) == 0, "Finit32"); FLDID32 id = fid(to, 5);
  sym_check(CFadd32(b, id, in, inlen, from) == 0, "converting add"); FLDLEN32 gl = 0; char *p = Ffind32(b, id, 0, &gl);
  if (to == FLD_STRING) wl = strlen(want) + 1;   // a string ends at its first zero byte
  sym_check(p && (long)gl == wl && memcmp(p, want, wl) == 0, "converting add stores the converted value"); sym_reach("converting add");
  FLDID32 id2 = fid(from, 6); if (from == FLD_CARRAY || from != FLD_STRING || 1) {
    sym_check(Fadd32(b, id2, in, inlen) == 0, "add");
    int cap = sym_pick("cap", 1, 12); FLDLEN32 n2 = cap; char *out = (char *)malloc(cap);
    FLDLEN32 need = tolen; int rr = CFget32(b, id2, 0, out, &n2, to), e = Ferror32;
    if ((int)need > cap) { sym_check(rr == -1 && e == FNOSPACE, "a conversion that does not fit the declared length reports FNOSPACE"); sym_reach("no space"); }
    else { sym_check(rr == 0 && n2 == need, "converting get gives the length of the converted value"); sym_check(memcmp(out, want, need) == 0, "converting get gives the converted value"); sym_reach("converting get"); }
  }
}
