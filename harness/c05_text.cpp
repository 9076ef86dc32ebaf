// C05: any text (symbolic stretches in templates) either yields a buffer or is refused
#include "fmlmodel.h"
#include "env.h"
static const char table[] = "*base 100\nFS 1 short\nFC 3 char\nFT 4 string\nFA 5 carray\nFN 6 fml32\n";
#ifdef THOROUGH
#define X 1
#else
#define X 0
#endif
static const struct { const char *pre; int n; const char *post; } T[] = {
  {"", 3 + X, ""}, {"", 2 + X, "\tx\n\n"}, {"FT", 2 + X, "\n\n"}, {"FT\t", 3 + X, "\n\n"}, {"FN\t\n\t", 3 + X, "\n\n\n"}, {"FN\t\n\tFN\t\n", 3 + X, "FT\tx\n\n\n\n"}, {"FA\t\\", 2 + X, "\n\n"}, {"FS\t", 2 + X, "\nFC\t"}, {"FN\t\n\tFT\ta\n", 2 + X, ""}, {"FT\ta\nNOFIELD", 2, "b\n\n"}, {"FS\t99999999999999999999", 1, "\n\n"}, {"FT\tab\n", 1, "\n\nFT\tz"}};
extern "C" void harness_main() {
  fx_fmt_exact = 1; env_put_file("tbl", table, sizeof table - 1); env_set("FIELDTBLS32", "tbl"); env_set("FLDTBLDIR32", ".");
  auto &t = T[sym_case()]; static char txt[200]; long k = strlen(t.pre); memcpy(txt, t.pre, k); sym_bytes(txt + k, t.n, "t"); k += t.n; memcpy(txt + k, t.post, strlen(t.post)); k += strlen(t.post);
  long size = sym_pick("size", 0, 1) ? 64 : 300; FBFR32 *b = (FBFR32 *)malloc(size); sym_check(Finit32(b, size) == 0, "Finit32");
  int r = Fextread32(b, env_mem_file(txt, k)), e = Ferror32;
  sym_check(Fsizeof32(b) == size && Fused32(b) <= size, "the buffer stays within its size");
  if (r == -1) { sym_reach("refused"); }
  else { sym_reach("accepted"); FLDID32 id = BADFLDID; FLDOCC32 oc = 0; int n = 0; for (; n < 20; n++) { FLDLEN32 l = 300; static char v[300]; int q = Fnext32(b, &id, &oc, v, &l); sym_check(q == 0 || q == 1, "iteration works"); if (!q) break; sym_check(Fpres32(b, id, oc), "fields read are present"); } sym_check(n < 20, "iteration ends");
    FILE *f = env_mem_file("", 0); sym_check(Ffprint32(b, f) == 0, "what was read can be printed"); }
  if (sym_case() == 6) { auto hexv = [](int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }; auto plain = [](int c) { return c != '\n' && c != '\\'; }; uint8_t c0 = txt[4], c1 = txt[5]; int h0 = hexv(c0), h1 = hexv(c1); FLDLEN32 l = 99; static char v[100];
    if (h0 >= 0 && h1 < 0) sym_check(r == -1, "half a byte is refused"); if (!X && h0 >= 0 && h1 >= 0) { sym_check(r == 0 && Fget32(b, Fldid32((char *)"FA"), 0, v, &l) == 0 && l == 1 && (uint8_t)v[0] == h0 * 16 + h1, "a byte in hexadecimal digits"); } if (!X && h0 < 0 && plain(c0) && plain(c1)) { sym_check(r == 0 && Fget32(b, Fldid32((char *)"FA"), 0, v, &l) == 0 && l == 2 && v[0] == (char)c0 && v[1] == (char)c1, "other characters stand for themselves"); sym_reach("not hexadecimal"); } }
  sym_observe("r", &r, 4);
}
