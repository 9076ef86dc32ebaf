// C22: two threads ask for names and ids at the same moment, switched at any lock of the tables; names stay valid until their table is unloaded
#include "sym.h"
#include "env.h"
#include <string.h>
#include <thread>
#include <fml32.h>
#ifdef THOROUGH
#define PRE 2
#else
#define PRE 1
#endif
namespace hx {
static const char TBL[] = "*base 100\nAA 1 long\nBB 2 string\nA_NAME_LONGER_THAN_SHORT_STRINGS 3 carray\n"; static const char *N[] = {"AA", "BB", "A_NAME_LONGER_THAN_SHORT_STRINGS", "CC"}; static FLDID32 I[4];
enum { NAME, ID, NONAME, NOID, UNLOADNM, UNLOADID, KINDS }; static bool unloads; static int met;
static void ask(int kind, int f) {
  char *n = nullptr; int e = 0; FLDID32 x = 0;
  switch (kind) {
  case NAME: n = Fname32(I[f]); e = Ferror32; sym_check(n && (unloads || !strcmp(n, N[f])), "an id maps to its name"); if (n && !unloads) { if (env_threads() > 1) env_yield(1); sym_check(!strcmp(n, N[f]), "a name stays until its table is unloaded"); } break;
  case ID: x = Fldid32((char *)N[f]); e = Ferror32; sym_check(x == I[f] && !e, "a name maps to its type and number"); break;
  case NONAME: n = Fname32(I[3]); e = Ferror32; sym_check(!n && e == FBADFLD, "an id that is not listed is unknown"); break;
  case NOID: x = Fldid32((char *)N[3]); e = Ferror32; sym_check(x == BADFLDID && e == FBADNAME, "a name that is not listed is unknown"); break;
  case UNLOADNM: Fnmid_unload32(); break;
  case UNLOADID: Fidnm_unload32(); break; } }
extern "C" void harness_main() {
  env_put_file("t1", TBL, sizeof TBL - 1); env_set("FIELDTBLS32", "t1"); env_set("FLDTBLDIR32", "."); I[0] = Fmkfldid32(FLD_LONG, 101); I[1] = Fmkfldid32(FLD_STRING, 102); I[2] = Fmkfldid32(FLD_CARRAY, 103); I[3] = Fmkfldid32(FLD_LONG, 109);
  int c = sym_case(), k0 = c % KINDS, k1 = c / KINDS; unloads = k0 == UNLOADID || k1 == UNLOADID; int f = sym_pick("field", 0, 2);
  char *kept = nullptr; if (sym_bool("loaded")) { kept = Fname32(I[f]); sym_check(kept && !strcmp(kept, N[f]), "an id maps to its name"); if (sym_bool("other direction unloaded")) { Fnmid_unload32(); sym_reach("half loaded"); } }
  int again = sym_pick("again", 0, 3); env_preempt = PRE; std::thread a([&] { ask(k0, f); if (again & 1) ask(k1 == UNLOADNM || k1 == UNLOADID ? NAME : k1, f); }), b([&] { ask(k1, f); if (again & 2) ask(ID, f); }); a.join(); b.join();
  if (kept && !unloads) { sym_check(!strcmp(kept, N[f]), "a name stays until its table is unloaded"); sym_reach("kept"); } unloads = false; ask(NAME, 2); ask(ID, 2); sym_reach("end");
}
}
