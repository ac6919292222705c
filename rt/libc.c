// Bitcode models of the C library functions the code under test uses.
#define _GNU_SOURCE
#include <stddef.h>
#include <stdint.h>
#include <limits.h>
#include <errno.h>
#include <time.h>
#include <string.h>
#include <stdlib.h>
#include "sym.h"

char __libc_single_threaded = 0;
static _Thread_local int rt_errno;
int* __errno_location(void) { return &rt_errno; }

size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
int strcmp(const char* a, const char* b) { while (*a && *a == *b) { a++; b++; } return *(const unsigned char*)a - *(const unsigned char*)b; }
int strncmp(const char* a, const char* b, size_t n) { while (n && *a && *a == *b) { a++; b++; n--; } return n ? *(const unsigned char*)a - *(const unsigned char*)b : 0; }
static int low(int c) { return (unsigned)(c - 'A') < 26 ? c + 32 : c; }
int strcasecmp(const char* a, const char* b) { while (*a && low((unsigned char)*a) == low((unsigned char)*b)) { a++; b++; } return low((unsigned char)*a) - low((unsigned char)*b); }
int strncasecmp(const char* a, const char* b, size_t n) { while (n && *a && low((unsigned char)*a) == low((unsigned char)*b)) { a++; b++; n--; } return n ? low((unsigned char)*a) - low((unsigned char)*b) : 0; }
char* strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return 0; } }
char* strrchr(const char* s, int c) { const char* r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
void* memrchr(const void* p, int c, size_t n) { const unsigned char* s = p; while (n--) if (s[n] == (unsigned char)c) return (void*)(s + n); return 0; }
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)); return r; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
char* strncat(char* d, const char* s, size_t n) { char* p = d + strlen(d); while (n-- && *s) *p++ = *s++; *p = 0; return d; }
char* stpcpy(char* d, const char* s) { while ((*d = *s)) { d++; s++; } return d; }
size_t strnlen(const char* s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
char* strndup(const char* s, size_t m) { size_t n = strnlen(s, m); char* p = malloc(n + 1); memcpy(p, s, n); p[n] = 0; return p; }
int strcoll(const char* a, const char* b) { return strcmp(a, b); }
void* memmem(const void* h, size_t hn, const void* n, size_t nn) { const char* p = h; if (!nn) return (void*)h; for (; hn >= nn; p++, hn--) if (!memcmp(p, n, nn)) return (void*)p; return 0; }
void* rawmemchr(const void* p, int c) { const unsigned char* s = p; while (*s != (unsigned char)c) s++; return (void*)s; }
void bzero(void* p, size_t n) { memset(p, 0, n); }
char* strdup(const char* s) { size_t n = strlen(s) + 1; char* p = malloc(n); memcpy(p, s, n); return p; }
size_t strspn(const char* s, const char* a) { size_t n = 0; while (s[n] && strchr(a, s[n])) n++; return n; }
size_t strcspn(const char* s, const char* a) { size_t n = 0; while (s[n] && !strchr(a, s[n])) n++; return n; }
char* strpbrk(const char* s, const char* a) { s += strcspn(s, a); return *s ? (char*)s : 0; }
char* strtok_r(char* s, const char* d, char** sv) {
  if (!s) s = *sv;
  s += strspn(s, d);
  if (!*s) { *sv = s; return 0; }
  char* e = s + strcspn(s, d);
  if (*e) *e++ = 0;
  *sv = e;
  return s;
}
char* strtok(char* s, const char* d) { static char* sv; return strtok_r(s, d, &sv); }
char* strsep(char** sp, const char* d) { char* s = *sp; if (!s) return 0; char* e = s + strcspn(s, d); if (*e) { *e = 0; *sp = e + 1; } else *sp = 0; return s; }
char* strcasestr(const char* h, const char* n) { size_t l = strlen(n); for (;; h++) { if (!strncasecmp(h, n, l)) return (char*)h; if (!*h) return 0; } }
void qsort(void* b, size_t n, size_t w, int (*cmp)(const void*, const void*)) {
  char* p = b;
  for (size_t i = 1; i < n; i++)
    for (size_t j = i; j && cmp(p + (j - 1) * w, p + j * w) > 0; j--)
      for (size_t k = 0; k < w; k++) { char t = p[j * w + k]; p[j * w + k] = p[(j - 1) * w + k]; p[(j - 1) * w + k] = t; }
}
void* bsearch(const void* key, const void* b, size_t n, size_t w, int (*cmp)(const void*, const void*)) { for (size_t i = 0; i < n; i++) if (!cmp(key, (const char*)b + i * w)) return (char*)b + i * w; return 0; }
div_t div(int a, int b) { div_t r = { a / b, a % b }; return r; }
ldiv_t ldiv(long a, long b) { ldiv_t r = { a / b, a % b }; return r; }
static unsigned rt_seed;
void srand(unsigned s) { rt_seed = s; }
int rand(void) { return (int)((rt_seed = rt_seed * 1103515245 + 12345) >> 1); }
int abs(int v) { return v < 0 ? -v : v; }
long labs(long v) { return v < 0 ? -v : v; }
char* strstr(const char* h, const char* n) { size_t l = strlen(n); if (!l) return (char*)h; for (; *h; h++) if (!strncmp(h, n, l)) return (char*)h; return 0; }

int isspace(int c) { return c == ' ' || (unsigned)(c - 9) < 5; }
int isdigit(int c) { return (unsigned)(c - '0') < 10; }
int isalpha(int c) { return ((unsigned)c | 32) - 'a' < 26; }
int isupper(int c) { return (unsigned)(c - 'A') < 26; }
int islower(int c) { return (unsigned)(c - 'a') < 26; }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isxdigit(int c) { return isdigit(c) || ((unsigned)c | 32) - 'a' < 6; }
int isprint(int c) { return (unsigned)c - 0x20 < 0x5f; }
int iscntrl(int c) { return (unsigned)c < 0x20 || c == 0x7f; }
int ispunct(int c) { return isprint(c) && c != ' ' && !isalnum(c); }
int tolower(int c) { return (unsigned)(c - 'A') < 26 ? c + 32 : c; }
int isgraph(int c) { return (unsigned)c - 0x21 < 0x5e; }
int isblank(int c) { return (c == ' ') | (c == 9); }
int isascii(int c) { return (unsigned)c < 128; }
int toupper(int c) { return (unsigned)(c - 'a') < 26 ? c - 32 : c; }

// classic "C" table, indices -128..255
#define U 256 /* upper */
enum { UP = 1 << 8, LO = 1 << 9, AL = 1 << 10, DI = 1 << 11, XD = 1 << 12, SP = 1 << 13, PR = 1 << 14, GR = 1 << 15, BL = 1 << 0, CN = 1 << 1, PU = 1 << 2, AN = 1 << 3 };
#define CT CN
#define CS (CN | SP)
#define CB (CN | SP | BL)
#define PP (PR | GR | PU)
#define DD (PR | GR | DI | XD | AN)
#define UX (PR | GR | UP | AL | XD | AN)
#define UU (PR | GR | UP | AL | AN)
#define LX (PR | GR | LO | AL | XD | AN)
#define LL (PR | GR | LO | AL | AN)
const unsigned short rt_ctype_table[384] = {
  [128] = CT, CT, CT, CT, CT, CT, CT, CT, CT, CB, CS, CS, CS, CS, CT, CT,
  CT, CT, CT, CT, CT, CT, CT, CT, CT, CT, CT, CT, CT, CT, CT, CT,
  PR | SP | BL, PP, PP, PP, PP, PP, PP, PP, PP, PP, PP, PP, PP, PP, PP, PP,
  DD, DD, DD, DD, DD, DD, DD, DD, DD, DD, PP, PP, PP, PP, PP, PP,
  PP, UX, UX, UX, UX, UX, UX, UU, UU, UU, UU, UU, UU, UU, UU, UU,
  UU, UU, UU, UU, UU, UU, UU, UU, UU, UU, UU, PP, PP, PP, PP, PP,
  PP, LX, LX, LX, LX, LX, LX, LL, LL, LL, LL, LL, LL, LL, LL, LL,
  LL, LL, LL, LL, LL, LL, LL, LL, LL, LL, LL, PP, PP, PP, PP, CT,
};

static int digit(int c) { if ((unsigned)(c - '0') < 10) return (c - '0') & 15; if (((unsigned)c | 32) - 'a' < 26) return (((c | 32) - 'a') & 31) + 10; return 99; }
static unsigned long strtoX(const char* s, char** e, int base, int sg) {
  const char* p = s; int neg = 0, any = 0, ov = 0; unsigned long v = 0;
  while (isspace((unsigned char)*p)) p++;
  if (*p == '-') { neg = 1; p++; } else if (*p == '+') p++;
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] | 32) == 'x' && digit((unsigned char)p[2]) < 16) { p += 2; base = 16; }
  else if (base == 0) base = *p == '0' ? 8 : 10;
  for (;; p++) {
    int d = digit((unsigned char)*p);
    if (d >= base) break;
    any = 1;
    if (__builtin_mul_overflow(v, (unsigned long)base, &v) || __builtin_add_overflow(v, (unsigned long)d, &v)) ov = 1;
  }
  if (e) *e = (char*)(any ? p : s);
  if (sg) {
    if (ov || v > (unsigned long)LONG_MAX + neg) { rt_errno = ERANGE; return neg ? LONG_MIN : LONG_MAX; }
  } else if (ov) { rt_errno = ERANGE; return ULONG_MAX; }
  return neg ? -v : v;
}
long rt_strtol(const char* s, char** e, int b) __asm__("strtol");
long rt_strtol(const char* s, char** e, int b) { return (long)strtoX(s, e, b, 1); }
long rt23_strtol(const char* s, char** e, int b) __asm__("__isoc23_strtol");
long rt23_strtol(const char* s, char** e, int b) { return (long)strtoX(s, e, b, 1); }
unsigned long rt_strtoul(const char* s, char** e, int b) __asm__("strtoul");
unsigned long rt_strtoul(const char* s, char** e, int b) { return strtoX(s, e, b, 0); }
unsigned long rt23_strtoul(const char* s, char** e, int b) __asm__("__isoc23_strtoul");
unsigned long rt23_strtoul(const char* s, char** e, int b) { return strtoX(s, e, b, 0); }
long long rt_strtoll(const char* s, char** e, int b) __asm__("strtoll");
long long rt_strtoll(const char* s, char** e, int b) { return (long)strtoX(s, e, b, 1); }
long long rt23_strtoll(const char* s, char** e, int b) __asm__("__isoc23_strtoll");
long long rt23_strtoll(const char* s, char** e, int b) { return (long)strtoX(s, e, b, 1); }
unsigned long long rt_strtoull(const char* s, char** e, int b) __asm__("strtoull");
unsigned long long rt_strtoull(const char* s, char** e, int b) { return strtoX(s, e, b, 0); }
unsigned long long rt23_strtoull(const char* s, char** e, int b) __asm__("__isoc23_strtoull");
unsigned long long rt23_strtoull(const char* s, char** e, int b) { return strtoX(s, e, b, 0); }
// scanf family: integers, characters, strings and sets
#include <stdarg.h>
static int scan(const char* s, const char* f, va_list ap) {
  const char* s0 = s; int done = 0;
  for (; *f; f++) {
    if (isspace((unsigned char)*f)) { while (isspace((unsigned char)*s)) s++; continue; }
    if (*f != '%') { if (*s != *f) return done || *s ? done : -1; s++; continue; }
    f++;
    if (*f == '%') { if (*s != '%') return done; s++; continue; }
    int skip = 0, width = 0, size = 4;
    if (*f == '*') { skip = 1; f++; }
    while (isdigit((unsigned char)*f)) width = width * 10 + *f++ - '0';
    while (*f == 'l' || *f == 'h' || *f == 'z' || *f == 'j') { if (*f == 'h') size = size == 2 ? 1 : 2; else size = 8; f++; }
    if (*f == 'n') { *va_arg(ap, int*) = (int)(s - s0); continue; }
    if (*f != 'c' && *f != '[') while (isspace((unsigned char)*s)) s++;
    if (!*s) return done ? done : -1;
    switch (*f) {
      case 'd': case 'i': case 'u': case 'x': case 'X': {
        int base = *f == 'i' ? 0 : *f == 'x' || *f == 'X' ? 16 : 10;
        char b[72], *e; size_t n = 0, w = width && width < 70 ? width : 70;
        for (; n < w && s[n]; n++) b[n] = s[n];
        b[n] = 0;
        unsigned long v = *f == 'd' || *f == 'i' ? (unsigned long)rt_strtol(b, &e, base) : rt_strtoul(b, &e, base);
        if (e == b) return done;
        s += e - b;
        if (!skip) { void* p = va_arg(ap, void*); if (size == 8) *(long*)p = v; else if (size == 4) *(int*)p = (int)v; else if (size == 2) *(short*)p = (short)v; else *(char*)p = (char)v; done++; }
        break;
      }
      case 'c': { char* p = skip ? 0 : va_arg(ap, char*); for (int i = 0; i < (width ? width : 1); i++) { if (!*s) return done; if (p) p[i] = *s; s++; } if (p) done++; break; }
      case 's': { char* p = skip ? 0 : va_arg(ap, char*); for (int i = 0; *s && !isspace((unsigned char)*s) && (!width || i < width); i++, s++) if (p) *p++ = *s; if (p) { *p = 0; done++; } break; }
      case '[': {
        int neg = *++f == '^'; if (neg) f++;
        const char* set = f; if (*f == ']') f++;
        while (*f && *f != ']') f++;
        char* p = skip ? 0 : va_arg(ap, char*); int n = 0;
        for (; *s && (!width || n < width); n++, s++) {
          int hit = 0;
          for (const char* q = set; q < f; q++) { if (q[1] == '-' && q + 2 < f) { hit |= (*s >= q[0]) & (*s <= q[2]); q += 2; } else hit |= *s == *q; }
          if (hit == neg) break;
          if (p) *p++ = *s;
        }
        if (!n) return done;
        if (p) { *p = 0; done++; }
        break;
      }
      default: sym_fail("model: unsupported scanf conversion");
    }
  }
  return done;
}
#define SCAN(n) { va_list ap; va_start(ap, f); int r = scan(s, f, ap); va_end(ap); return r; }
int rt_sscanf(const char* s, const char* f, ...) __asm__("sscanf");
int rt_sscanf(const char* s, const char* f, ...) SCAN()
int rt99_sscanf(const char* s, const char* f, ...) __asm__("__isoc99_sscanf");
int rt99_sscanf(const char* s, const char* f, ...) SCAN()
int rt23_sscanf(const char* s, const char* f, ...) __asm__("__isoc23_sscanf");
int rt23_sscanf(const char* s, const char* f, ...) SCAN()
int __rt_parse_double(const char* s, size_t n, double* out);
double strtod(const char* s, char** e) {
  const char* p = s;
  while (isspace((unsigned char)*p)) p++;
  size_t n = 0, good = 0; double v = 0, t;
  while (((unsigned)(p[n] - '0') < 10) | (p[n] == '+') | (p[n] == '-') | (p[n] == '.') | ((p[n] | 32) == 'e')) { n++; if (__rt_parse_double(p, n, &t)) { good = n; v = t; } }
  if (e) *e = (char*)(good ? p + good : s);
  return v;
}
double atof(const char* s) { return strtod(s, 0); }
int atoi(const char* s) { return (int)strtoX(s, 0, 10, 1); }
long atol(const char* s) { return (long)strtoX(s, 0, 10, 1); }

// ---- time: starts at a fixed instant and passes only in waits
long long rt_clock_ns;
time_t time(time_t* t) { time_t v = 1000000000 + rt_clock_ns / 1000000000; if (t) *t = v; return v; }
struct rt_tv { long s, u; };
int gettimeofday(struct timeval* t, void* z) { ((struct rt_tv*)t)->s = time(0); ((struct rt_tv*)t)->u = rt_clock_ns / 1000 % 1000000; return 0; }
int clock_gettime(clockid_t c, struct timespec* t) { t->tv_sec = time(0); t->tv_nsec = rt_clock_ns % 1000000000; return 0; }
long rt_steady(void) __asm__("_ZNSt6chrono3_V212steady_clock3nowEv");
long rt_steady(void) { return 1000000000000000000 + rt_clock_ns; }
long rt_system(void) __asm__("_ZNSt6chrono3_V212system_clock3nowEv");
long rt_system(void) { return 1000000000000000000 + rt_clock_ns; }
// proleptic Gregorian calendar
struct tm* gmtime_r(const time_t* t, struct tm* r) {
  long days = *t / 86400, rem = *t % 86400;
  if (rem < 0) { rem += 86400; days--; }
  memset(r, 0, sizeof *r);
  r->tm_hour = rem / 3600; r->tm_min = rem / 60 % 60; r->tm_sec = rem % 60;
  r->tm_wday = ((days + 4) % 7 + 7) % 7;
  long z = days + 719468, era = (z >= 0 ? z : z - 146096) / 146097, doe = z - era * 146097;
  long yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365, doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153;
  long y = yoe + era * 400, m = mp < 10 ? mp + 3 : mp - 9;
  if (m <= 2) y++;
  r->tm_mday = doy - (153 * mp + 2) / 5 + 1; r->tm_mon = m - 1; r->tm_year = y - 1900;
  static const short before[12] = { 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334 };
  r->tm_yday = before[m - 1] + r->tm_mday - 1 + (m > 2 && (y % 4 == 0) && (y % 100 != 0 || y % 400 == 0));
  return r;
}
struct tm* localtime_r(const time_t* t, struct tm* r) { return gmtime_r(t, r); }
static struct tm rt_tm;
struct tm* gmtime(const time_t* t) { return gmtime_r(t, &rt_tm); }
struct tm* localtime(const time_t* t) { return gmtime_r(t, &rt_tm); }
time_t timegm(struct tm* t) {
  long mon = t->tm_mon, y = t->tm_year + 1900l + mon / 12, m = mon % 12;
  if (m < 0) { m += 12; y--; }
  m++;
  long yy = y - (m <= 2), era = (yy >= 0 ? yy : yy - 399) / 400, yoe = yy - era * 400, doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + t->tm_mday - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
  time_t r = (era * 146097 + doe - 719468) * 86400 + t->tm_hour * 3600l + t->tm_min * 60l + t->tm_sec;
  gmtime_r(&r, t);
  return r;
}
time_t mktime(struct tm* t) { return timegm(t); }
void tzset(void) {}
double difftime(time_t a, time_t b) { return (double)(a - b); }
static const char* two(const char* s, int* v, int lo, int hi, int digits) {
  int n = 0, x = 0;
  while (*s == ' ') s++;
  for (; n < digits && (unsigned)(*s - '0') < 10; n++, s++) x = x * 10 + (*s - '0');
  if (!n || x < lo || x > hi) return 0;
  *v = x;
  return s;
}
char* strptime(const char* s, const char* f, struct tm* t) {
  for (; *f; f++) {
    if (isspace((unsigned char)*f)) { while (isspace((unsigned char)*s)) s++; continue; }
    if (*f != '%') { if (*s++ != *f) return 0; continue; }
    int v;
    switch (*++f) {
      case 'Y': if (!(s = two(s, &v, 0, 9999, 4))) return 0; t->tm_year = v - 1900; break;
      case 'm': if (!(s = two(s, &v, 1, 12, 2))) return 0; t->tm_mon = v - 1; break;
      case 'd': case 'e': if (!(s = two(s, &v, 1, 31, 2))) return 0; t->tm_mday = v; break;
      case 'H': if (!(s = two(s, &v, 0, 23, 2))) return 0; t->tm_hour = v; break;
      case 'M': if (!(s = two(s, &v, 0, 59, 2))) return 0; t->tm_min = v; break;
      case 'S': if (!(s = two(s, &v, 0, 61, 2))) return 0; t->tm_sec = v; break;
      case 'F': if (!(s = strptime(s, "%Y-%m-%d", t))) return 0; break;
      case 'T': if (!(s = strptime(s, "%H:%M:%S", t))) return 0; break;
      case '%': if (*s++ != '%') return 0; break;
      default: sym_fail("model: unsupported strptime conversion");
    }
  }
  return (char*)s;
}

static size_t put2(char* s, size_t k, size_t max, long v, int width) {
  char b[24]; int n = 0, neg = v < 0; unsigned long u = neg ? -(unsigned long)v : (unsigned long)v;
  do { b[n++] = '0' + u % 10; u /= 10; } while (u);
  while (n < width) b[n++] = '0';
  if (neg) b[n++] = '-';
  while (n) { if (k + 1 >= max) return (size_t)-1; s[k++] = b[--n]; }
  return k;
}
// supports the numeric conversions only
size_t strftime(char* s, size_t max, const char* f, const struct tm* t) {
  size_t k = 0;
  for (; *f; f++) {
    if (*f != '%') { if (k + 1 >= max) return 0; s[k++] = *f; continue; }
    f++;
    switch (*f) {
      case 'Y': k = put2(s, k, max, (long)t->tm_year + 1900, 0); break;
      case 'a': case 'b': { const char* w = *f == 'a' ? "SunMonTueWedThuFriSat" + 3 * t->tm_wday : "JanFebMarAprMayJunJulAugSepOctNovDec" + 3 * t->tm_mon; for (int i = 0; i < 3; i++) { if (k + 1 >= max) return 0; s[k++] = w[i]; } break; }
      case 'm': k = put2(s, k, max, (long)t->tm_mon + 1, 2); break;
      case 'd': k = put2(s, k, max, t->tm_mday, 2); break;
      case 'H': k = put2(s, k, max, t->tm_hour, 2); break;
      case 'M': k = put2(s, k, max, t->tm_min, 2); break;
      case 'S': k = put2(s, k, max, t->tm_sec, 2); break;
      case 'F': k = put2(s, k, max, (long)t->tm_year + 1900, 0); if (k != (size_t)-1 && k + 1 < max) s[k++] = '-'; k = put2(s, k, max, (long)t->tm_mon + 1, 2); if (k != (size_t)-1 && k + 1 < max) s[k++] = '-'; k = put2(s, k, max, t->tm_mday, 2); break;
      case 'T': k = put2(s, k, max, t->tm_hour, 2); if (k + 1 < max) s[k++] = ':'; k = put2(s, k, max, t->tm_min, 2); if (k + 1 < max) s[k++] = ':'; k = put2(s, k, max, t->tm_sec, 2); break;
      case '%': if (k + 1 >= max) return 0; s[k++] = '%'; break;
      default: sym_fail("model: unsupported strftime conversion");
    }
    if (k == (size_t)-1) return 0;
  }
  if (k >= max) return 0;
  s[k] = 0;
  return k;
}
int rt_xpg_strerror_r(int e, char* b, size_t n) __asm__("__xpg_strerror_r");
int rt_xpg_strerror_r(int e, char* b, size_t n) { strncpy(b, "error", n); return 0; }
int getpid(void) { return 4711; }
int pthread_once(int* c, void (*f)(void)) { if (!*c) { *c = 1; f(); } return 0; }
char* getenv(const char* n) { return 0; }
char* secure_getenv(const char* n) { return 0; }
long sysconf(int n) { return n == 84 ? 2 : n == 30 ? 4096 : 1024; }
char* strerror_r(int e, char* b, size_t n) { return "error"; }
char* strerror(int e) { return "error"; }
// start-up hooks of libraries that are modelled elsewhere
__attribute__((weak)) void xmlInitParser(void) {}
void rt_ioslib(void) __asm__("_ZSt21ios_base_library_initv");
void rt_ioslib(void) {}
void __asan_poison_cxx_array_cookie(unsigned long p) {}
unsigned long __asan_load_cxx_array_cookie(unsigned long* p) { return *p; }
