// C21: every FML32 call with no/misaligned buffers, any field id, occurrence, type and length, and missing values, lists and files
#include "sym.h"
#include "env.h"
#include <fml32.h>
#include <stdlib.h>
static char mem[2][520] __attribute__((aligned(8))); static char image[2][520]; static char val[32]; static FBFR32 *B, *D; static int bad[2]; static int fail; static bool invalid;
static FBFR32 *buf(int i, const char *n) { // a good buffer, none, or one at an address no buffer can have
  FBFR32 *b = (FBFR32 *)mem[i]; sym_check(Finit32(b, 500) == 0, "Finit32"); if (i == 0) { short s = 7; long l = 8; sym_check(Fadd32(b, FLD_SHORT << 24 | 5, (char *)&s, 0) == 0 && Fadd32(b, FLD_LONG << 24 | 5, (char *)&l, 0) == 0 && Fadd32(b, FLD_STRING << 24 | 5, (char *)"abc", 0) == 0 && Fadd32(b, FLD_CARRAY << 24 | 5, (char *)"xyz", 3) == 0, "fields"); }
  memcpy(image[i], mem[i], 520); bad[i] = sym_pick(n, 0, 2); if (bad[i] == 1) { invalid = true; return nullptr; } if (bad[i] == 2) { invalid = true; return (FBFR32 *)(mem[i] + (sym_case() == 5 ? 4 : sym_pick("offset", 1, 7))); } return b; }
static void result(bool failed, const char *what) { int e = Ferror32; if (invalid) sym_check(failed, "a call with arguments that cannot be right fails"); if (failed) { sym_check((e >= FALIGNERR) & (e <= FBADRECORD), "a failed call sets a defined error code"); sym_check(Fstrerror32(e)[0] != 0, "with a text"); if (bad[0] == 1) sym_check(e == FNOTFLD, "no buffer"); if (bad[0] == 2) sym_check(e == FALIGNERR, "misaligned"); sym_reach("failed"); } else sym_reach("succeeded"); if (invalid) sym_check(!memcmp(image[0], mem[0], 520) && !memcmp(image[1], mem[1], 520), "nothing is written"); }
static bool known(FLDID32 id) { int t = id >> 24; return ((t <= FLD_CARRAY) | (t == FLD_FML32)) & (id != BADFLDID); }
static FLDID32 anyid() { FLDID32 id = sym_u32("id"); if (!known(id)) invalid = true; return id; }
static char *anyval(FLDID32 id) { int t = Fldtype32(id); if (sym_bool("no value")) return nullptr; if (t == FLD_FML32) { static char nb[64] __attribute__((aligned(8))); Finit32((FBFR32 *)nb, 64); return nb; } sym_bytes(val, 9, "val"); val[9] = 0; return val; }
static FLDLEN32 anylen() { FLDLEN32 l = sym_u32("len"); sym_assume((l <= 9) | (l >= 520)); return l; }
static bool tree_t(int t) { return t == FLD_SHORT || t == FLD_LONG || t == FLD_CHAR || t == FLD_FLOAT || t == FLD_DOUBLE || t == FLD_STRING || t == FLD_CARRAY; }
extern "C" void harness_main() {
  int c = sym_case(); Ferror32 = 0; memset(val, 0, sizeof val);
  if (c == 0) { // sizes
    int k = sym_pick("call", 0, 4); FLDOCC32 f = sym_int("F"); static const FLDLEN32 vs[] = {0, 1, 8, 100, 0x7fffffff, 0xffffffff}; FLDLEN32 v = vs[sym_pick("V", 0, 5)]; long need = Fneeded32(f, v); int e = Ferror32; __int128 want = (__int128)f * (8 + (__int128)v) + Fneeded32(0, 0);
    if (k == 0) { sym_check((need == -1) == ((f < 0) | (want > UINT32_MAX)), "sizes that cannot be kept are refused"); if (need != -1) sym_check(need == want, "the size needed"); else sym_check(e == FEINVAL, "FEINVAL"); sym_reach(need == -1 ? "too large" : "size"); }
    else if (k == 1) { sym_assume((need == -1) | (need < 4000)); if (need != -1) { f = (int)sym_concrete((unsigned)f & 3); v = 8; need = Fneeded32(f, v); } FBFR32 *b = Falloc32(f, v); e = Ferror32; if (!b) { sym_check((need == -1) & (e == FEINVAL), "only a size that cannot be kept is refused"); sym_reach("refused"); } else { sym_check(need != -1 && Fsizeof32(b) == need && Fused32(b) == Fneeded32(0, 0), "a new buffer is empty and of the size asked for"); sym_check(Ffree32(b) == 0, "free"); sym_reach("allocated"); } }
    else if (k == 2) { FBFR32 *b = Falloc32(4, 8); long size = Fsizeof32(b); sym_assume((need == -1) | (need < 400)); if (need != -1) { f = sym_pick("f", -1, 5); v = sym_pick("v", 0, 1) * 8; } FBFR32 *n = Frealloc32(b, f, v); e = Ferror32; if (n) { sym_check(f > 0 && v && Fsizeof32(n) == Fneeded32(f, v), "a reallocated buffer is of the size asked for"); b = n; } else sym_check(e == FEINVAL && Fsizeof32(b) == size, "a refused reallocation changes nothing"); Ffree32(b); }
    else if (k == 3) { FBFR32 *b = buf(0, "b"); FLDLEN32 n = sym_u32("n"); sym_assume(n <= 500); long min = Fneeded32(0, 0); int rc = Finit32(b, n); e = Ferror32; if (!invalid) { sym_check((rc == 0) == (n >= min), "only a buffer that holds the header is initialised"); if (rc) sym_check(e == FNOSPACE, "FNOSPACE"); else sym_check(Fsizeof32(b) == n, "size"); } else result(rc == -1, "Finit32"); }
    else { FBFR32 *b = buf(0, "b"); int m = sym_pick("which", 0, 8); if (m == 8) { if (b == nullptr || bad[0] == 2) { sym_check(Ffree32(b) == -1, "Ffree32"); result(true, "Ffree32"); } return; } long r = m == 0 ? Fsizeof32(b) : m == 1 ? Fused32(b) : m == 2 ? Funused32(b) : m == 3 ? Fidxused32(b) : m == 4 ? Findex32(b, sym_int("i")) : m == 5 ? Funindex32(b) : m == 6 ? Frstrindex32(b, sym_int("i")) : (Fchksum32(b) == -1 ? -1 : 0); result(r == -1, "sizes"); if (r != -1) sym_check(r >= 0, "sizes"); }
  } else if (c == 1 || c == 2) { // one occurrence of a field
    FBFR32 *b = buf(0, "b"); FLDID32 id = anyid(); FLDOCC32 oc = sym_int("oc"); int k = c == 1 ? sym_pick("call", 0, 5) : sym_pick("call", 6, 9); bool def = sym_bool("nulls"); FLDLEN32 len = 0; char *loc = def ? nullptr : val; int rc;
    if (k == 0) result(!Ffind32(b, id, oc, def ? nullptr : &len), "Ffind32"); else if (k == 1) { FLDOCC32 o; result(!Ffindlast32(b, id, def ? nullptr : &o, def ? nullptr : &len), "Ffindlast32"); } else if (k == 2) { rc = Fpres32(b, id, oc); result(rc == -1, "Fpres32"); } else if (k == 3) { rc = Foccur32(b, id); result(rc == -1, "Foccur32"); if (rc != -1) sym_check((rc >= 0) & (rc <= 1), "count"); } else if (k == 4) { long l = Flen32(b, id, oc); result(l == -1, "Flen32"); } else if (k == 5) { len = sym_u32("cap"); sym_assume(len <= 32); rc = Fget32(b, id, oc, loc, def ? nullptr : &len); result(rc == -1, "Fget32"); }
    else if (k == 6) { rc = Fdel32(b, id, oc); result(rc == -1, "Fdel32"); } else if (k == 7) { rc = Fdelall32(b, id); result(rc == -1, "Fdelall32"); } else if (k == 8) { len = sym_u32("extra"); sym_assume(len <= 32); char *p = Fgetalloc32(b, id, oc, def ? nullptr : &len); result(!p, "Fgetalloc32"); free(p); } else { FLDID32 nid = sym_bool("first") ? BADFLDID : id; if (nid != BADFLDID && !known(nid)) return; len = sym_u32("cap"); sym_assume(len <= 32); bool no = sym_bool("no occurrence"); rc = Fnext32(b, sym_bool("no id") ? (invalid = true, nullptr) : (invalid = bad[0], &nid), no ? (invalid = true, nullptr) : &oc, loc, def ? nullptr : &len); result(rc == -1, "Fnext32"); }
  } else if (c == 3 || c == 4) { // adding and changing
    FBFR32 *b = buf(0, "b"); FLDID32 id = anyid(); char *v = known(id) || id == BADFLDID ? anyval(id) : val; FLDLEN32 len = anylen(); if (Fldtype32(id) == FLD_FML32) id = (FLDID32)(FLD_FML32 << 24 | (id & 0xffffff)); FLDOCC32 oc = sym_int("oc"); sym_assume((oc >= -1) & ((oc <= 2) | (oc > 100))); if (oc <= 2) oc = (int)sym_concrete((uint64_t)(int64_t)oc); int rc = c == 3 ? Fadd32(b, id, v, len) : Fchg32(b, id, oc, v, len); int e = Ferror32; result(rc == -1, "add");
    if (!invalid && v && Fldtype32(id) == FLD_CARRAY && len >= 520) { sym_check(rc == -1 && e == FNOSPACE, "no room for a value this long"); sym_reach("too long"); } if (!invalid && v && c == 4 && oc > 100) sym_check(rc == -1 && e == FNOSPACE, "no room for that many occurrences"); if (rc == -1 && v) sym_check(!memcmp(image[0], mem[0], 520), "a refused change changes nothing"); sym_check(!memcmp(image[0] + 500, mem[0] + 500, 20), "nothing is written past the buffer");
  } else if (c == 5) { // converting
    FBFR32 *b = buf(0, "b"); static const int ty[] = {FLD_SHORT, FLD_STRING, FLD_FML32, 77}; FLDID32 id = (FLDID32)ty[sym_pick("field type", 0, 3)] << 24 | 5; if (!known(id)) invalid = true; int k = sym_pick("call", 0, 7), t = ty[sym_pick("type", 0, 3)]; FLDOCC32 oc = sym_pick("oc", -1, 1); bool nl = sym_bool("no length"), nv = sym_bool("no value"); strcpy(val, "12"); FLDLEN32 len = 8; char *v = nv ? nullptr : val; bool ok = tree_t(t) && tree_t(id >> 24); int rc;
    if (k == 0) { char *p = CFfind32(b, id, oc, nl ? nullptr : &len, t); invalid |= !ok; result(!p, "CFfind32"); } else if (k == 1) { invalid |= nv | !ok; rc = CFadd32(b, id, v, 2, t); result(rc == -1, "CFadd32"); } else if (k == 2) { invalid |= nv | !ok; rc = CFchg32(b, id, oc, v, 2, t); result(rc == -1, "CFchg32"); } else if (k == 3) { invalid |= nv | !ok; if (ok && Fldtype32(id) == FLD_STRING && !nv) return; rc = CFfindocc32(b, id, v, 2, t); result(rc == -1, "CFfindocc32"); } else if (k == 4) { len = 20; rc = CFget32(b, id, oc, v, nl ? nullptr : &len, t); invalid |= !ok; result(rc == -1, "CFget32"); } else if (k == 5) { invalid |= !tree_t(id >> 24); result(!Ffinds32(b, id, oc), "Ffinds32"); } else if (k == 6) { invalid |= !tree_t(id >> 24); rc = Fgets32(b, id, oc, v); result(rc == -1, "Fgets32"); } else { invalid |= nv; rc = Ffindocc32(b, id, v, 0); result(rc == -1, "Ffindocc32"); }
  } else if (c == 6) { // two buffers, lists
    B = buf(0, "b"); bool two = sym_bool("two"); int k; int rc; FLDID32 list[3] = {0, 0, 0}; bool nolist = sym_bool("no list"); if (!nolist) { list[0] = sym_u32("list"); }
    if (two) { int b0 = bad[0]; D = buf(1, "d"); bad[0] = 0; k = sym_pick("call", 0, 5); if (k == 0) rc = Fcpy32(D, B); else if (k == 1) rc = Fupdate32(D, B); else if (k == 2) rc = Fjoin32(D, B); else if (k == 3) rc = Fojoin32(D, B); else if (k == 4) rc = Fconcat32(D, B); else { invalid |= nolist; rc = Fprojcpy32(D, B, nolist ? nullptr : list); } (void)b0; result(rc == -1, "two"); }
    else { k = sym_pick("call", 0, 1); invalid |= nolist; rc = k ? Fdelete32(B, nolist ? nullptr : list) : Fproj32(B, nolist ? nullptr : list); result(rc == -1, "list"); }
  } else if (c == 7) { // files
    B = buf(0, "b"); int k = sym_pick("call", 0, 3); int n = sym_pick("content", 0, 3); static char t[8]; sym_bytes(t, 3, "t"); bool nofile = sym_bool("no file"); FILE *f = nofile ? nullptr : env_mem_file(t, n); if (nofile) invalid = true; int rc = k == 0 ? Ffprint32(B, f) : k == 1 ? Fread32(B, f) : k == 2 ? Fwrite32(B, f) : Fextread32(B, f); result(rc == -1, "file");
  } else if (c == 8) { // ids, names, trees, error texts
    int t = sym_int("type"); FLDID32 n = sym_u32("num"); int k = sym_pick("call", 0, 6); if (k == 0) { FLDID32 id = Fmkfldid32(t, n); int e = Ferror32; bool tok = ((t >= 0) & (t <= FLD_CARRAY)) | (t == FLD_FML32), nok = (n >= 1) & (n <= 0xffffff); sym_check((id == (FLDID32)-1) == !(tok & nok), "only types and numbers that exist make an id"); if (id == (FLDID32)-1) sym_check(e == (tok ? FBADFLD : FTYPERR), "the reason is reported"); else sym_check((Fldtype32(id) == t) & (Fldno32(id) == n), "an id is its type and number"); }
    else if (k == 1) { sym_check(!Fname32(n) && Ferror32 == FBADFLD, "an unknown id has no name"); } else if (k == 2) { sym_check(Fldid32(nullptr) == BADFLDID && Ferror32 == FBADNAME, "no name"); sym_check(Fldid32((char *)"nobody") == BADFLDID && Ferror32 == FBADNAME, "unknown name"); } else if (k == 3) { char *s = Fstrerror32(t); sym_check(s != nullptr, "every number has a text"); if ((t >= FALIGNERR) & (t <= FBADRECORD)) sym_check(s[0] != 0, "every error has a text"); }
    else if (k == 4) { sym_check(!Fboolco32(nullptr) && Ferror32 == FEINVAL, "no expression"); } else { B = buf(0, "b"); if (bad[0] == 2) return; char *tree = Fboolco32((char *)"1 == 1"); sym_check(tree != nullptr, "compiled"); bool nt = sym_bool("no tree"); if (k == 5) { int rc = Fboolev32(B, nt ? nullptr : tree); invalid |= nt; result(rc == -1, "Fboolev32"); double d = Ffloatev32(B, nt ? nullptr : tree); result(d == -1, "Ffloatev32"); } else { Fboolpr32(nt ? nullptr : tree, sym_bool("no file") ? nullptr : env_mem_file("", 0)); } free(tree); }
  } else { // plain conversions
    static const int ty[] = {FLD_SHORT, FLD_LONG, FLD_CHAR, FLD_FLOAT, FLD_DOUBLE, FLD_STRING, FLD_CARRAY, 8, 77, -1}; int from = ty[sym_pick("from", 0, 9)], to = ty[sym_pick("to", 0, 9)]; FLDLEN32 len; strcpy(val, "7"); bool nl = sym_bool("no length"), nv = sym_bool("no value"); char *p = Ftypcvt32(nl ? nullptr : &len, to, nv ? nullptr : val, from, 1); invalid = nl | nv | !tree_t(from) | !tree_t(to); result(!p, "Ftypcvt32"); sym_check((p == nullptr) == invalid, "types that exist are converted");
  }
  sym_reach("end");
}
