// C07: decode arbitrary texts into outputs of any size
#include "sym.h"
#include "misc.h"
#include <stdlib.h>
static uint8_t val(uint8_t c) { return (uint8_t)sym_ite((c >= 'A') & (c <= 'Z'), c - 'A', sym_ite((c >= 'a') & (c <= 'z'), c - 'a' + 26, sym_ite((c >= '0') & (c <= '9'), c - '0' + 52, sym_ite(c == '+', 62, sym_ite(c == '/', 63, 128))))); }
extern "C" void harness_main() {
  int n = sym_case();
  char *in = (char *)malloc(n ? n : 1);
  if (n) sym_bytes(in, n, "in");
  int full = n / 4 * 3;
  int olen = sym_pick("olen", full > 4 ? full - 4 : 0, full + 1);
  uint8_t *out = (uint8_t *)malloc(olen ? olen : 1);
  // reference: length multiple of four, alphabet, '=' only as the last one or two characters
  int ok = n % 4 == 0, pad = 0; uint8_t v[64];
  if (ok && n) { pad = (int)sym_ite(in[n - 1] == '=', sym_ite(in[n - 2] == '=', 2, 1), 0); for (int i = 0; i < n; i++) { v[i] = val(in[i]); int last = (i == n - 1) | (i == n - 2); ok &= (v[i] != 128) | (last & (in[i] == '=') & (i >= n - pad)); } }
  size_t want = full - pad;
  bool threw = false; size_t m = 0;
  try { m = base64decode(in, n, out, olen); } catch (const std::exception &) { threw = true; }
  if (threw) { sym_check(!ok | (olen < full), "a valid text that fits is rejected"); sym_reach("rejected"); return; }
  sym_check(ok, "invalid base64 is accepted");
  sym_check(m == want, "decoded length");
  sym_check(m <= (size_t)olen, "decoded more than the output holds");
  for (size_t i = 0; i < m; i++) {
    uint32_t g = (uint32_t)(v[i / 3 * 4] & 63) << 18 | (uint32_t)(v[i / 3 * 4 + 1] & 63) << 12 | (uint32_t)(v[i / 3 * 4 + 2] & 63) << 6 | (v[i / 3 * 4 + 3] & 63);
    sym_check(out[i] == (uint8_t)(g >> (16 - 8 * (i % 3))), "decoded byte");
  }
  sym_observe("dec", out, m);
  sym_reach("accepted");
}
