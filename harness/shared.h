// another process at any access to shared memory: the sources included after this header are compiled with a call before every load and
// store (-fsanitize-coverage=trace-loads,trace-stores); before one access in [sh_lo, sh_hi) the other process may act (sh_other, to its end)
#pragma once
#include "sym.h"
#include <stdint.h>
static bool (*sh_is)(char *); static void (*sh_switch)(); // or: at accesses sh_is picks, other threads of this process may go on
static char *sh_lo, *sh_hi; static void (*sh_other)(); static bool (*sh_may)(); static bool sh_in; static int sh_points;
#define SH_RAW __attribute__((no_sanitize("coverage")))
SH_RAW static void sh_access(void *p) { if (sh_is && !sh_in) { sh_in = true; bool y = sh_is((char *)p); sh_in = false; if (y) { sh_points++; sh_switch(); } return; } if (!sh_other || sh_in || (char *)p < sh_lo || (char *)p >= sh_hi) return; sh_in = true; sh_points++; if ((!sh_may || sh_may()) && sym_bool("other process")) { auto f = sh_other; sh_other = nullptr; f(); } sh_in = false; }
extern "C" {
SH_RAW void __sanitizer_cov_trace_pc(void) {}
#define SH_CB(n, t) SH_RAW void __sanitizer_cov_load##n(t *p) { sh_access(p); } SH_RAW void __sanitizer_cov_store##n(t *p) { sh_access(p); }
SH_CB(1, uint8_t) SH_CB(2, uint16_t) SH_CB(4, uint32_t) SH_CB(8, uint64_t) SH_CB(16, __int128)
}
