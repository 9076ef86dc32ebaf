// C library models for the symbolic executor (never linked natively). Undefined C library
// functions X in the program are redirected by the engine to fx_X (os_env) or model_X (here).
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include "sym.h"
#define M(x) model_##x
typedef struct fxfile FILE_;
int sym_fmt_double(char *buf, size_t n, const char *fmt, double v, int prec);
double sym_strtod(const char *s, size_t *used);
void *malloc(size_t); void free(void *);

size_t M(strlen)(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
size_t M(strnlen)(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
int M(strcmp)(const char *a, const char *b) { while (*a && *a == *b) a++, b++; return (int)(unsigned char)*a - (int)(unsigned char)*b; }
int M(strncmp)(const char *a, const char *b, size_t n) { for (; n; n--, a++, b++) { if (*a != *b) return (int)(unsigned char)*a - (int)(unsigned char)*b; if (!*a) return 0; } return 0; }
char *M(strchr)(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
char *M(strrchr)(const char *s, int c) { char *r = 0; for (;; s++) { if (*s == (char)c) r = (char *)s; if (!*s) return r; } }
void *M(memchr)(const void *p, int c, size_t n) { const unsigned char *s = p; for (size_t i = 0; i < n; i++) if (s[i] == (unsigned char)c) return (void *)(s + i); return 0; }
char *M(strcpy)(char *d, const char *s) { size_t i = 0; do d[i] = s[i]; while (s[i++]); return d; }
char *M(stpcpy)(char *d, const char *s) { while ((*d = *s)) d++, s++; return d; }
char *M(strncpy)(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *M(strcat)(char *d, const char *s) { M(strcpy)(d + strlen(d), s); return d; }
char *M(strdup)(const char *s) { size_t n = strlen(s); char *p = malloc(n + 1); memcpy(p, s, n + 1); return p; }
char *M(strstr)(const char *h, const char *n) { size_t l = strlen(n); if (!l) return (char *)h; for (; *h; h++) if (!strncmp(h, n, l)) return (char *)h; return 0; }

// character classes of the C locale, without branching
static void ctype_arg(int c) { sym_check((c >= -128) & (c <= 255), "character class of a value outside the character range"); }
#define R(c, a, b) (((c) >= (a)) & ((c) <= (b)))
int M(isdigit)(int c) { ctype_arg(c); return R(c, '0', '9'); }
int M(isalpha)(int c) { ctype_arg(c); return R(c, 'a', 'z') | R(c, 'A', 'Z'); }
int M(isalnum)(int c) { ctype_arg(c); return R(c, 'a', 'z') | R(c, 'A', 'Z') | R(c, '0', '9'); }
int M(isspace)(int c) { ctype_arg(c); return (c == ' ') | R(c, 9, 13); }
int M(isprint)(int c) { ctype_arg(c); return R(c, 32, 126); }
int M(isupper)(int c) { ctype_arg(c); return R(c, 'A', 'Z'); }
int M(islower)(int c) { ctype_arg(c); return R(c, 'a', 'z'); }
int M(isxdigit)(int c) { ctype_arg(c); return R(c, '0', '9') | R(c, 'a', 'f') | R(c, 'A', 'F'); }
int M(ispunct)(int c) { ctype_arg(c); return R(c, 33, 126) & !M(isalnum)(c); }
int M(iscntrl)(int c) { ctype_arg(c); return R(c, 0, 31) | (c == 127); }
int M(isgraph)(int c) { ctype_arg(c); return R(c, 33, 126); }
int M(isblank)(int c) { ctype_arg(c); return (c == ' ') | (c == 9); }
int M(tolower)(int c) { return (int)sym_ite(R(c, 'A', 'Z'), c + 32, c); }
int M(toupper)(int c) { return (int)sym_ite(R(c, 'a', 'z'), c - 32, c); }

int *fx_errno(void);
int *M(__errno_location)(void) { return fx_errno(); }

static int digitval(int c) { return (int)(int64_t)sym_ite(R(c, '0', '9'), c - '0', sym_ite(R(c, 'a', 'z'), c - 'a' + 10, sym_ite(R(c, 'A', 'Z'), c - 'A' + 10, 99))); }
static int isx(int c) { return R(c, '0', '9') | R(c, 'a', 'f') | R(c, 'A', 'F'); }
static unsigned long scan(const char *s, char **end, int base, int sgn, int width) {
  const char *p = s; int neg = 0;
  while (M(isspace)((unsigned char)*p)) p++;
  if (*p == '-') { neg = 1; p++; } else if (*p == '+') p++;
  if ((base == 0 || base == 16) && *p == '0' && (p[1] == 'x' || p[1] == 'X') && isx(p[2])) { p += 2; base = 16; }
  else if (base == 0) base = *p == '0' ? 8 : 10;
  unsigned long v = 0; int any = 0, over = 0;
  unsigned long lim = sgn ? (neg ? 1ul << 63 : ~0ul >> 1) : ~0ul;
  for (;; p++) {
    int d = digitval((unsigned char)*p);
    if (d >= base) break;
    any++;
    if (any >= 15) { unsigned long q = (lim - d) / base; if (v > q) over = 1; }
    v = v * base + d;
  }
  if (!any) { if (end) *end = (char *)s; return 0; }
  if (end) *end = (char *)p;
  if (over) { *fx_errno() = 34; return sgn ? (neg ? 1ul << 63 : ~0ul >> 1) : ~0ul; }
  return neg ? -v : v;
}
long M(strtol)(const char *s, char **e, int b) { return (long)scan(s, e, b, 1, 64); }
long M(strtoll)(const char *s, char **e, int b) { return (long)scan(s, e, b, 1, 64); }
long M(__isoc23_strtol)(const char *s, char **e, int b) { return (long)scan(s, e, b, 1, 64); }
long M(__isoc23_strtoll)(const char *s, char **e, int b) { return (long)scan(s, e, b, 1, 64); }
unsigned long M(strtoul)(const char *s, char **e, int b) { return scan(s, e, b, 0, 64); }
unsigned long M(__isoc23_strtoul)(const char *s, char **e, int b) { return scan(s, e, b, 0, 64); }
unsigned long M(__isoc23_strtoull)(const char *s, char **e, int b) { return scan(s, e, b, 0, 64); }
long M(atol)(const char *s) { return M(strtol)(s, 0, 10); }
int M(atoi)(const char *s) { return (int)M(strtol)(s, 0, 10); }
long M(atoll)(const char *s) { return M(strtol)(s, 0, 10); }
double M(strtod)(const char *s, char **e) { size_t u = 0; double d = sym_strtod(s, &u); if (e) *e = (char *)s + u; return d; }
float M(strtof)(const char *s, char **e) { size_t u = 0; double d = sym_strtod(s, &u); if (e) *e = (char *)s + u; return (float)d; }
double M(atof)(const char *s) { size_t u; return sym_strtod(s, &u); }

// ---- formatted output
int fx_fmt_exact;  // format symbolic numbers digit by digit (forks); otherwise they print as 0
typedef struct { char *b; size_t n, at; } out;
static void put(out *o, char c) { if (o->at + 1 < o->n) o->b[o->at] = c; o->at++; }
static void padn(out *o, char c, int n) { for (; n > 0; n--) put(o, c); }
int M(vsnprintf)(char *buf, size_t n, const char *f, va_list ap) {
  out o = {buf, n, 0};
  for (; *f; f++) {
    if (*f != '%') { put(&o, *f); continue; }
    f++;
    int left = 0, zero = 0, plus = 0, alt = 0, sp = 0, width = 0, prec = -1, lng = 0;
    for (;; f++) { if (*f == '-') left = 1; else if (*f == '0') zero = 1; else if (*f == '+') plus = 1; else if (*f == '#') alt = 1; else if (*f == ' ') sp = 1; else break; }
    if (*f == '*') { width = va_arg(ap, int); if (width < 0) { left = 1; width = -width; } f++; } else while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
    if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0'); }
    for (;; f++) { if (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't' || *f == 'q') lng = 8; else if (*f == 'h') lng = lng == 2 ? 1 : 2; else if (*f == 'L') lng = 16; else break; }
    if (*f == '%') { put(&o, '%'); continue; }
    if (*f == 'c') { int c = va_arg(ap, int); if (!left) padn(&o, ' ', width - 1); put(&o, (char)c); if (left) padn(&o, ' ', width - 1); continue; }
    if (*f == 's') {
      const char *s = va_arg(ap, const char *); if (!s) s = "(null)";
      size_t l = prec >= 0 ? M(strnlen)(s, prec) : strlen(s);
      if (!left) padn(&o, ' ', width - (int)l);
      for (size_t i = 0; i < l; i++) put(&o, s[i]);
      if (left) padn(&o, ' ', width - (int)l);
      continue; }
    if (*f == 'f' || *f == 'g' || *f == 'e' || *f == 'F' || *f == 'G' || *f == 'E') {
      double d = va_arg(ap, double); char fm[8]; int k = 0; fm[k++] = '%'; if (alt) fm[k++] = '#'; if (plus) fm[k++] = '+'; if (prec >= 0) { fm[k++] = '.'; fm[k++] = '*'; } fm[k++] = *f; fm[k] = 0;
      char t[400]; int r;
      if (!fx_fmt_exact && sym_is_symbolic(*(uint64_t *)&d)) { t[0] = '0'; r = 1; } else r = sym_fmt_double(t, sizeof t, fm, d, prec);
      char padc = zero && !left ? '0' : ' ';
      if (!left && padc == '0' && r && t[0] == '-') { put(&o, '-'); padn(&o, '0', width - r); for (int i = 1; i < r; i++) put(&o, t[i]); continue; }
      if (!left) padn(&o, padc, width - r); for (int i = 0; i < r; i++) put(&o, t[i]); if (left) padn(&o, ' ', width - r);
      continue; }
    uint64_t v; int neg = 0, base = 10; const char *dig = "0123456789abcdef";
    switch (*f) {
      case 'd': case 'i': { int64_t x = lng == 8 ? va_arg(ap, long) : va_arg(ap, int); if (lng == 2) x = (short)x; if (lng == 1) x = (signed char)x;
        if (!fx_fmt_exact && sym_is_symbolic(x)) x = 0;
        neg = x < 0; v = neg ? -(uint64_t)x : (uint64_t)x; break; }
      case 'p': alt = 1; lng = 8; /* fallthrough */
      case 'u': case 'x': case 'X': case 'o':
        v = lng == 8 ? va_arg(ap, unsigned long) : va_arg(ap, unsigned); if (lng == 2) v = (unsigned short)v; if (lng == 1) v = (unsigned char)v;
        if (!fx_fmt_exact && sym_is_symbolic(v)) v = 0;
        base = *f == 'u' ? 10 : *f == 'o' ? 8 : 16; if (*f == 'X') dig = "0123456789ABCDEF"; break;
      default: sym_fail("format directive not modelled");
    }
    char t[32]; int k = 0;
    if (base == 16) { do { t[k++] = dig[v & 15]; v >>= 4; } while (v); }
    else if (lng != 8 && base == 10) { uint32_t w = (uint32_t)v; do { t[k++] = (char)('0' + w % 10); w /= 10; } while (w); }
    else do { t[k++] = dig[v % base]; v /= base; } while (v);
    int sign = neg || plus || sp; int pre = alt && base == 16 ? 2 : 0; int nd = k < prec ? prec : k; if (prec >= 0) zero = 0;
    int tot = nd + sign + pre;
    if (!left && !zero) padn(&o, ' ', width - tot);
    if (sign) put(&o, neg ? '-' : plus ? '+' : ' ');
    if (pre) { put(&o, '0'); put(&o, 'x'); }
    if (!left && zero) padn(&o, '0', width - tot);
    padn(&o, '0', nd - k);
    while (k) put(&o, t[--k]);
    if (left) padn(&o, ' ', width - tot);
  }
  if (n) buf[o.at < n ? o.at : n - 1] = 0;
  return (int)o.at;
}
int M(snprintf)(char *b, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = M(vsnprintf)(b, n, f, ap); va_end(ap); return r; }
int M(vsprintf)(char *b, const char *f, va_list ap) { return M(vsnprintf)(b, (size_t)1 << 40, f, ap); }
int M(sprintf)(char *b, const char *f, ...) { va_list ap; va_start(ap, f); int r = M(vsnprintf)(b, (size_t)1 << 40, f, ap); va_end(ap); return r; }

// ---- FILE (over the in-memory files of os_env.cpp)
size_t fx_io_write(void *f, const void *p, size_t n); size_t fx_io_read(void *f, void *p, size_t n); int fx_io_getc(void *f); void *fx_io_open(const char *name, const char *mode); int fx_io_close(void *f);
static char fxout[8];
void *stdout = fxout, *stderr = fxout, *stdin = fxout;
const char *__progname = "fuxprog";
int M(vfprintf)(void *f, const char *fm, va_list ap) { if (f == fxout) return 0; char t[2048]; int r = M(vsnprintf)(t, sizeof t, fm, ap); fx_io_write(f, t, r); return r; }
int M(fprintf)(void *f, const char *fm, ...) { if (f == fxout) return 0; va_list ap; va_start(ap, fm); int r = M(vfprintf)(f, fm, ap); va_end(ap); return r; }
int M(printf)(const char *fm, ...) { return 0; }
int M(puts)(const char *s) { return 0; }
int M(putchar)(int c) { return c; }
int M(fputc)(int c, void *f) { char b = (char)c; if (f == fxout) return c; fx_io_write(f, &b, 1); return (unsigned char)c; }
int M(putc)(int c, void *f) { return M(fputc)(c, f); }
int M(fputs)(const char *s, void *f) { if (f == fxout) return 0; fx_io_write(f, s, strlen(s)); return 0; }
size_t M(fwrite)(const void *p, size_t s, size_t n, void *f) { if (!s || !n) return 0; if (f == fxout) return n; size_t w = fx_io_write(f, p, s * n); return w == s * n ? n : w / s; }
size_t M(fread)(void *p, size_t s, size_t n, void *f) { if (!s || !n) return 0; size_t w = fx_io_read(f, p, s * n); return w == s * n ? n : w / s; }
int M(fgetc)(void *f) { return fx_io_getc(f); }
int M(getc)(void *f) { return fx_io_getc(f); }
int M(fflush)(void *f) { return 0; }
void *M(fopen)(const char *n, const char *m) { return fx_io_open(n, m); }
void *M(fopen64)(const char *n, const char *m) { return fx_io_open(n, m); }
int M(fclose)(void *f) { return fx_io_close(f); }
void M(perror)(const char *s) {}
char *M(strerror)(int e) { return (char *)"system error"; }
void M(__assert_fail)(const char *a, const char *f, unsigned l, const char *fn) { sym_fail("assertion in the code fails"); }
void M(qsort)(void *b, size_t n, size_t s, int (*c)(const void *, const void *)) {
  char t[256];
  for (size_t i = 1; i < n; i++) for (size_t j = i; j > 0 && c((char *)b + (j - 1) * s, (char *)b + j * s) > 0; j--) { memcpy(t, (char *)b + j * s, s); memcpy((char *)b + j * s, (char *)b + (j - 1) * s, s); memcpy((char *)b + (j - 1) * s, t, s); }
}
int M(abs)(int x) { return x < 0 ? -x : x; }
struct tm_ { int tm_sec, tm_min, tm_hour, tm_mday, tm_mon, tm_year, tm_wday, tm_yday, tm_isdst; long off; const char *zone; };
struct tm_ *M(localtime_r)(const long *t, struct tm_ *r) { r->tm_sec = 7; r->tm_min = 6; r->tm_hour = 5; r->tm_mday = 4; r->tm_mon = 2; r->tm_year = 120; r->tm_wday = r->tm_yday = r->tm_isdst = 0; r->off = 0; r->zone = "UTC"; return r; }
int M(uname)(char *u) { memset(u, 0, 390); memcpy(u, "Linux", 6); memcpy(u + 65, "fxhost", 7); return 0; }
int M(pthread_once)(int *o, void (*f)(void)) { if (!*o) { *o = 1; f(); } return 0; }
int M(__cxa_guard_acquire)(char *g) { return !*g; }
void M(__cxa_guard_release)(char *g) { *g = 1; }
void M(__cxa_guard_abort)(char *g) {}
int M(sched_yield)(void) { return 0; }
char __libc_single_threaded = 1;
// POSIX regular expressions, basic syntax: literals . * ^ $ [..]
struct rx { char *pat; };
static int rx_here(const char *p, const char *t);
static int rx_one(const char *p, char c, int *len) {
  if (*p == '[') { int neg = 0, ok = 0, i = 1; if (p[i] == '^') { neg = 1; i++; } do { if (p[i + 1] == '-' && p[i + 2] != ']' && p[i + 2]) { if (c >= p[i] && c <= p[i + 2]) ok = 1; i += 3; } else { if (c == p[i]) ok = 1; i++; } } while (p[i] && p[i] != ']'); *len = i + 1; return c && (ok ^ neg); }
  if (*p == '\\' && p[1]) { *len = 2; return c == p[1]; }
  *len = 1; return c && (*p == '.' || *p == c); }
static int rx_here(const char *p, const char *t) {
  if (!*p) return 1; if (*p == '$' && !p[1]) return !*t;
  int l; int m = rx_one(p, *t, &l);
  if (p[l] == '*') { int l2; do { if (rx_here(p + l + 1, t)) return 1; } while (*t && rx_one(p, *t++, &l2)); return 0; }
  return m && rx_here(p + l, t + 1); }
int M(regcomp)(struct rx *r, const char *p, int f) { int open = 0; for (const char *q = p; *q; q++) { if (*q == '\\') { if (!q[1]) return 1; q++; } else if (*q == '[') { const char *e = q + 1; if (*e == '^') e++; if (*e == ']') e++; while (*e && *e != ']') e++; if (!*e) return 1; q = e; } } r->pat = M(strdup)(p); return 0; }
int M(regexec)(struct rx *r, const char *s, size_t n, int *m, int f) {
  const char *p = r->pat; 
  if (*p == '^') { if (rx_here(p + 1, s)) { if (n && m) { m[0] = 0; } return 0; } return 1; }
  for (const char *q = s;; q++) { if (rx_here(p, q)) { if (n && m) m[0] = (int)(q - s); return 0; } if (!*q) return 1; } }
void M(regfree)(struct rx *r) { free(r->pat); }
