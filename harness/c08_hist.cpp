// C08: allocate, resize and query histories of every type: type, subtype, content and size; every requested byte is usable
#include "fmlmodel.h"
#include "env.h"
#include <atmi.h>
#include <xatmi.h>
#ifndef STEPS
#define STEPS 2
#endif
static const char *TY[] = {"CARRAY", "STRING", "FML32", "TPINIT"};
static void types(char *p, const char *ty, const char *sub) {
  char t[9], s[17]; memset(t, 1, 9); memset(s, 1, 17); t[8] = s[16] = 0;
  sym_check(tptypes(p, t, s) >= 0 && tperrno == 0, "a typed buffer reports its type");
  sym_check(strncmp(t, ty, 8) == 0, "type of a typed buffer is the one it was allocated with"); sym_check(strncmp(s, sub, 16) == 0, "subtype of a typed buffer is the one it was allocated with");
  sym_check(t[8] == 0 && s[16] == 0, "type and subtype stay inside their arrays");
  sym_check(tptypes(p, nullptr, nullptr) >= 0, "type query without results wanted");
}
static long mn(long a, long b) { return a < b ? a : b; }
// exports the buffer and checks what is announced: the size used for size decisions
static int grows(char **p, int type, long size) { // imports something that needs `n` bytes of content into the buffer
  static char exp[4000]; long n = size + sym_pick("import", 0, 2) * 40 - 40; if (n < 1) n = 1; char *src = tpalloc((char *)"CARRAY", (char *)"*", n); sym_check(src != nullptr, "tpalloc"); memset(src, 7, n); src[0] = 3; src[n - 1] = 5;
  long olen = sizeof exp; sym_check(tpexport(src, n, exp, &olen, 0) == 0, "export"); tpfree(src);
  sym_check(tpimport(exp, olen, p, nullptr, 0) == 0, "import"); sym_check((*p)[n - 1] == 5, "content after an import into a resized buffer"); types(*p, "CARRAY", "*"); return 1;
}
extern "C" void harness_main() {
  int ti = sym_case() % 4, huge = sym_case() >= 4; const char *ty = TY[ti]; int si = sym_pick("subtype", 0, 2); const char *sub = si == 0 ? "*" : si == 1 ? "" : nullptr;
  static const long sz[] = {0, 1, 100, 511, 512, 513, 700, -5}; long size = sz[sym_pick("size", 0, 7)];
  if (huge) { // bad arguments and sizes no machine has
    int w = sym_pick("bad", 0, 5); char *p;
    if (w == 0) sym_check(tpalloc(nullptr, nullptr, 10) == nullptr && tperrno == TPEINVAL, "missing type");
    else if (w == 1) { char t[9] = ""; sym_bytes(t, 8, "type"); for (int i = 0; i < 4; i++) sym_assume(strncmp(t, TY[i], 8) != 0); p = tpalloc(t, (char *)"*", 10); sym_check(p == nullptr && tperrno == TPENOENT, "unknown type is refused"); }
    else if (w == 2) { char s[17] = ""; s[0] = sym_u8("s0"); s[1] = sym_u8("s1"); sym_assume(s[0] != 0 && !(s[0] == '*' && s[1] == 0)); p = tpalloc((char *)ty, s, 10); sym_check(p == nullptr && tperrno == TPENOENT, "unknown subtype is refused"); }
    else if (w == 3) { p = tpalloc((char *)ty, nullptr, sym_bool("max") ? 0x7fffffffffffffffl : 0x3fffffffffffffffl); sym_check(p == nullptr && tperrno == TPEOS, "a size that cannot be allocated is reported"); }
    else if (w == 4) { p = tpalloc((char *)ty, (char *)"*", 600); sym_check(p != nullptr, "tpalloc"); p[3] = 3; if (ti < 2) p[3] = 'x'; char *q = tprealloc(p, 0x3fffffffffffffffl); sym_check(q == nullptr && tperrno == TPEOS, "a size that cannot be allocated is reported"); types(p, ty, "*"); if (ti < 2) sym_check(p[3] == 'x', "content after a failed resize"); tpfree(p); }
    else { sym_check(tprealloc(nullptr, 5) == nullptr && tperrno == TPEINVAL, "missing buffer"); sym_check(tptypes(nullptr, nullptr, nullptr) == -1 && tperrno == TPEINVAL, "missing buffer"); tpfree(nullptr);
      char *fake = (char *)malloc(300); memset(fake, 0, 300); fake[40] = sym_u8("f"); sym_check(tptypes(fake + 200, nullptr, nullptr) == -1 && tperrno == TPEINVAL, "memory that is no typed buffer"); sym_check(tprealloc(fake + 200, 10) == nullptr && tperrno != 0, "memory that is no typed buffer"); }
    sym_reach("refused"); return;
  }
  char *p = tpalloc((char *)ty, (char *)sub, size); sym_check(p != nullptr && tperrno == 0, "tpalloc of a known type succeeds"); types(p, ty, sub ? sub : "");
  // content: two positions within the current size hold known values; a fielded buffer holds fields
  long have = 0; uint8_t v0 = 0, v1 = 0; short f = 0; FLDID32 S = fid(FLD_SHORT, 5), T = fid(FLD_STRING, 6); char tx[200]; int nt = 0; memset(tx, 'q', sizeof tx); tx[99] = 0;
  for (int i = 0; ; i++) {
    // use every byte that was asked for
    if (ti == 2) { if (i == 0) { f = sym_u16("f"); sym_check(Fadd32((FBFR32 *)p, S, (char *)&f, 0) == 0, "a fielded buffer is ready for use"); }
      sym_check(Fsizeof32((FBFR32 *)p) >= size, "a fielded buffer is at least as large as requested"); sym_check(Funused32((FBFR32 *)p) >= 0, "a fielded buffer is never smaller than its content");
      while (nt < 30 && Fadd32((FBFR32 *)p, T, tx, 0) == 0) nt++; }
    else if (size > 0) { uint8_t c = sym_u8("fill"); for (long k = have; k < size; k++) p[k] = c; if (have < size) { p[size - 1] = v1 = sym_u8("last"); if (size == 1) v0 = v1; else if (have == 0) p[0] = v0 = sym_u8("first"); have = size; } }
    if (i == STEPS) break;
    long old = size; size = sz[sym_pick("resize", 0, 7)]; char *q = tprealloc(p, size); sym_check(q != nullptr && tperrno == 0, "tprealloc succeeds"); p = q; types(p, ty, sub ? sub : "");
    if (ti == 2) { short g; sym_check(Fget32((FBFR32 *)p, S, 0, (char *)&g, 0) == 0 && g == f, "content is kept when a buffer is resized"); sym_check(Foccur32((FBFR32 *)p, T) == nt, "content is kept when a buffer is resized"); if (nt) sym_check(strcmp(Ffind32((FBFR32 *)p, T, nt - 1, nullptr), tx) == 0, "content is kept when a buffer is resized"); }
    else { if (size > 0 && have > 0) { sym_check((uint8_t)p[0] == v0, "content is kept when a buffer is resized"); if (size >= have) sym_check((uint8_t)p[have - 1] == v1, "content is kept when a buffer is resized"); } if (size < 0) size = 0; if (have > size) { have = size; if (have) { p[have - 1] = v1 = sym_u8("cut"); if (have == 1) v0 = v1; } } }
    sym_reach(size > old ? "grown" : "shrunk");
  }
  char *own = p; if (ti != 2) { if (size < 0) size = 0; grows(&own, ti, size); sym_reach("imported"); } else { sym_check(Fsizeof32((FBFR32 *)p) >= size, "size"); if (sym_bool("imp")) { grows(&own, ti, sym_pick("n", 1, 2) * 300); sym_reach("imported"); } }
  tpfree(own); sym_check(tperrno == 0, "tpfree"); sym_reach("end");
}
