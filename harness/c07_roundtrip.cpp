// C07: encode then decode
#include "sym.h"
#include "misc.h"
#include <stdlib.h>
#ifndef MAXN
#define MAXN 9
#endif
static bool in_alphabet(uint8_t c) { return (c >= 'A' && c <= 'Z') | (c >= 'a' && c <= 'z') | (c >= '0' && c <= '9') | (c == '+') | (c == '/'); }
static int val(uint8_t c) { return (int)sym_ite(c >= 'A' && c <= 'Z', c - 'A', sym_ite((c >= 'a') & (c <= 'z'), c - 'a' + 26, sym_ite((c >= '0') & (c <= '9'), c - '0' + 52, sym_ite(c == '+', 62, 63)))); }
extern "C" void harness_main() {
  int n = sym_case();
  uint8_t *in = (uint8_t *)malloc(n ? n : 1);
  if (n) sym_bytes(in, n, "in");
  size_t want = (n + 2) / 3 * 4;
  sym_check(base64chars(n) == want, "announced length");
  // the output size given is arbitrary around what is needed
  int olen = sym_pick("olen", want > 6 ? (int)want - 6 : 0, (int)want + 2);
  char *out = (char *)malloc(olen ? olen : 1);
  bool threw = false;
  size_t len = 0;
  try { len = base64encode(in, n, out, olen); } catch (const std::exception &) { threw = true; }
  sym_check(threw == ((size_t)olen < want), "encoding is refused exactly when the output does not fit");
  if (threw) { sym_reach("encode refused"); return; }
  sym_check(len == want, "encoded length");
  sym_observe("enc", out, len);
  for (size_t i = 0; i < len; i++) {
    int pad = i >= len - (size_t)((3 - n % 3) % 3);
    sym_check(pad ? out[i] == '=' : in_alphabet(out[i]), "alphabet and padding");
  }
  // reference values
  for (int i = 0; i < n; i += 3) {
    uint32_t g = in[i] << 16 | (i + 1 < n ? in[i + 1] << 8 : 0) | (i + 2 < n ? in[i + 2] : 0);
    for (int k = 0; k < 4; k++) if (out[i / 3 * 4 + k] != '=') sym_check(val(out[i / 3 * 4 + k]) == (int)((g >> (18 - 6 * k)) & 63), "encoded character");
  }
  size_t cap = len / 4 * 3;
  uint8_t *back = (uint8_t *)malloc(cap ? cap : 1);
  size_t m = 0;
  try { m = base64decode(out, len, back, cap); } catch (const std::exception &) { sym_fail("own encoding is rejected"); }
  sym_check(m == (size_t)n, "decoded length");
  sym_check(memcmp(back, in, n) == 0, "decoded bytes");
  sym_reach("round trip");
}
