// C04: field ids
#include "sym.h"
#include <fml32.h>
extern "C" void harness_main() {
  int type = sym_int("type"); FLDID32 num = sym_u32("num");
  FLDID32 id = Fmkfldid32(type, num); int e = Ferror32;
  int vt = (type == 0) | (type == 1) | (type == 2) | (type == 3) | (type == 4) | (type == 5) | (type == 6) | (type == 10);
  int vn = (num >= 1) & (num <= 0xffffff);
  if (vt & vn) { sym_check(id != (FLDID32)-1 && id != BADFLDID, "a valid type and number make a field id"); sym_check(Fldtype32(id) == type, "type of the id"); sym_check(Fldno32(id) == (long)num, "number of the id"); sym_reach("valid"); }
  else { sym_check(id == (FLDID32)-1, "an invalid type or number is rejected"); sym_check(e == (vt ? FBADFLD : FTYPERR), "error code of the rejection"); sym_reach("invalid"); }
  sym_observe("id", &id, 4);
}
