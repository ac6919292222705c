// Stream members that the headers only declare as extern templates; defined under
// their mangled names so that they replace the header bodies at link time.
#include <locale>
#include <sstream>
#include <iostream>
#include <cstring>
#include <cstdio>
#include <ctime>
#include <iterator>
#include "sym.h"
namespace std { const ctype<char>& rt_ctype(); }
extern "C" {
int __rt_fmt_double(double d, char* b, size_t n, int prec);
int __rt_parse_double(const char* s, size_t n, double* out);

// a number of n characters at p, the first pre of which are sign and prefix, padded to the width of the stream
static std::ostream& put_num(std::ostream& o, const char* p, long n, long pre) {
  long w = o.width(0), pad = w > n ? w - n : 0;
  std::ios_base::fmtflags adj = o.flags() & std::ios_base::adjustfield;
  if (!pad) return o.write(p, n);
  if (adj == std::ios_base::left) o.write(p, n);
  else if (adj == std::ios_base::internal) { o.write(p, pre); p += pre; n -= pre; }
  while (pad--) o.put(o.fill());
  if (adj != std::ios_base::left) o.write(p, n);
  return o;
}
static std::ostream& put_int(std::ostream& o, unsigned long u, long s, bool sg) {
  std::ios_base::fmtflags fl = o.flags(), f = fl & std::ios_base::basefield;
  bool upper = fl & std::ios_base::uppercase, dec = f != std::ios_base::hex && f != std::ios_base::oct, neg = dec && sg && s < 0;
  unsigned base = f == std::ios_base::hex ? 16 : f == std::ios_base::oct ? 8 : 10;
  unsigned long v = neg ? 0ul - (unsigned long)s : u;
  bool zero = (fl & std::ios_base::showbase) && v == 0;
  char b[40]; int n = 40;
  do { unsigned d = v % base; b[--n] = d < 10 ? '0' + d : (upper ? 'A' : 'a') + d - 10; v /= base; } while (v);
  long pre = 0;
  if ((fl & std::ios_base::showbase) && !zero) {
    if (base == 16) { b[--n] = upper ? 'X' : 'x'; b[--n] = '0'; pre = 2; }
    else if (base == 8) b[--n] = '0';
  }
  if (neg) { b[--n] = '-'; pre = 1; }
  else if (dec && sg && (fl & std::ios_base::showpos)) { b[--n] = '+'; pre = 1; }
  return put_num(o, b + n, 40 - n, pre);
}
static std::ostream& put_float(std::ostream& o, double v) {
  std::ios_base::fmtflags fl = o.flags(), f = fl & std::ios_base::floatfield;
  char b[512], fmt[16]; int k = 0, n;
  fmt[k++] = '%';
  if (fl & std::ios_base::showpos) fmt[k++] = '+';
  if (fl & std::ios_base::showpoint) fmt[k++] = '#';
  fmt[k++] = '.'; fmt[k++] = '*';
  bool up = fl & std::ios_base::uppercase;
  fmt[k++] = f == std::ios_base::fixed ? 'f' : f == std::ios_base::scientific ? (up ? 'E' : 'e') : (up ? 'G' : 'g');
  fmt[k] = 0;
  n = snprintf(b, sizeof b, fmt, (int)o.precision(), v);
  return put_num(o, b, n, b[0] == '-' || b[0] == '+');
}
// Reads an integer as num_get does; 0 if there is none.
static int get_int(std::istream& i, bool& neg, unsigned long& v, bool& over) {
  std::istream::sentry ok(i, false);
  neg = over = false; v = 0;
  if (!ok) return -1;
  std::streambuf* sb = i.rdbuf();
  std::ios_base::fmtflags f = i.flags() & std::ios_base::basefield;
  unsigned base = f == std::ios_base::hex ? 16 : f == std::ios_base::oct ? 8 : 10;
  int c = sb->sgetc(), any = 0;
  if (c == '-' || c == '+') { neg = c == '-'; c = sb->snextc(); }
  if (base == 16 && c == '0') { any = 1; c = sb->snextc(); if ((c | 32) == 'x') { any = 0; c = sb->snextc(); } }
  for (;; c = sb->snextc()) {
    unsigned d = 99;
    if ((unsigned)(c - '0') < 10) d = c - '0';
    else if (base == 16 && (unsigned)((c | 32) - 'a') < 6) d = (c | 32) - 'a' + 10;
    if (d >= base) break;
    any = 1;
    if (__builtin_mul_overflow(v, (unsigned long)base, &v) || __builtin_add_overflow(v, (unsigned long)d, &v)) over = true;
  }
  if (c == EOF) i.setstate(std::ios_base::eofbit);
  return any;
}
static std::istream& get_signed(std::istream& i, long& r, long lo, long hi) {
  bool neg, over; unsigned long v; int k = get_int(i, neg, v, over);
  if (k < 0) return i;
  if (!k) { r = 0; i.setstate(std::ios_base::failbit); return i; }
  if (neg ? (over || v > 0ul - (unsigned long)lo) : (over || v > (unsigned long)hi)) { r = neg ? lo : hi; i.setstate(std::ios_base::failbit); return i; }
  r = neg ? (long)(0ul - v) : (long)v;
  return i;
}
static std::istream& get_unsigned(std::istream& i, unsigned long& r, unsigned long hi) {
  bool neg, over; unsigned long v; int k = get_int(i, neg, v, over);
  if (k < 0) return i;
  if (!k) { r = 0; i.setstate(std::ios_base::failbit); return i; }
  if (over || v > hi) { r = hi; i.setstate(std::ios_base::failbit); return i; }
  r = neg ? (0ul - v) & hi : v;
  return i;
}
#define DEF(R, N, A, M) R N A __asm__(M); R N A
DEF(std::ostream&, ins_l, (std::ostream* o, long v), "_ZNSo9_M_insertIlEERSoT_") { return put_int(*o, v, v, true); }
DEF(std::ostream&, ins_m, (std::ostream* o, unsigned long v), "_ZNSo9_M_insertImEERSoT_") { return put_int(*o, v, 0, false); }
DEF(std::ostream&, ins_x, (std::ostream* o, long long v), "_ZNSo9_M_insertIxEERSoT_") { return put_int(*o, v, v, true); }
DEF(std::ostream&, ins_y, (std::ostream* o, unsigned long long v), "_ZNSo9_M_insertIyEERSoT_") { return put_int(*o, v, 0, false); }
DEF(std::ostream&, ins_b, (std::ostream* o, bool v), "_ZNSo9_M_insertIbEERSoT_") { const char* s = (o->flags() & std::ios_base::boolalpha) ? (v ? "true" : "false") : (v ? "1" : "0"); return o->write(s, strlen(s)); }
DEF(std::ostream&, ins_d, (std::ostream* o, double v), "_ZNSo9_M_insertIdEERSoT_") { return put_float(*o, v); }
DEF(std::ostream&, ins_p, (std::ostream* o, const void* v), "_ZNSo9_M_insertIPKvEERSoT_") { std::ios_base::fmtflags f = o->flags(); o->flags(std::ios_base::hex | std::ios_base::showbase); put_int(*o, (unsigned long)v, 0, false); o->flags(f); return *o; }
DEF(std::istream&, ext_i, (std::istream* i, int* v), "_ZNSirsERi") { long r = *v; get_signed(*i, r, -2147483648l, 2147483647l); *v = (int)r; return *i; }
DEF(std::istream&, ext_s, (std::istream* i, short* v), "_ZNSirsERs") { long r = *v; get_signed(*i, r, -32768, 32767); *v = (short)r; return *i; }
DEF(std::istream&, ext_l, (std::istream* i, long* v), "_ZNSi10_M_extractIlEERSiRT_") { return get_signed(*i, *v, (-9223372036854775807l - 1), 9223372036854775807l); }
DEF(std::istream&, ext_x, (std::istream* i, long* v), "_ZNSi10_M_extractIxEERSiRT_") { return get_signed(*i, *v, (-9223372036854775807l - 1), 9223372036854775807l); }
DEF(std::istream&, ext_t, (std::istream* i, unsigned short* v), "_ZNSi10_M_extractItEERSiRT_") { unsigned long r = *v; get_unsigned(*i, r, 65535); *v = (unsigned short)r; return *i; }
DEF(std::istream&, ext_j, (std::istream* i, unsigned* v), "_ZNSi10_M_extractIjEERSiRT_") { unsigned long r = *v; get_unsigned(*i, r, 4294967295ul); *v = (unsigned)r; return *i; }
DEF(std::istream&, ext_m, (std::istream* i, unsigned long* v), "_ZNSi10_M_extractImEERSiRT_") { return get_unsigned(*i, *v, ~0ul); }
DEF(std::istream&, ext_y, (std::istream* i, unsigned long* v), "_ZNSi10_M_extractIyEERSiRT_") { return get_unsigned(*i, *v, ~0ul); }
DEF(std::istream&, ext_b, (std::istream* i, bool* v), "_ZNSi10_M_extractIbEERSiRT_") { unsigned long r = *v; get_unsigned(*i, r, ~0ul); if (r > 1) i->setstate(std::ios_base::failbit); *v = r != 0; return *i; }
DEF(std::istream&, ext_d, (std::istream* i, double* v), "_ZNSi10_M_extractIdEERSiRT_") {
  std::istream::sentry ok(*i, false);
  if (!ok) return *i;
  std::streambuf* sb = i->rdbuf();
  char b[512]; size_t n = 0; int c = sb->sgetc();
  for (; n < sizeof b; c = sb->snextc()) {
    if (!(((unsigned)(c - '0') < 10) | (c == '+') | (c == '-') | (c == '.') | ((c | 32) == 'e'))) break;
    b[n++] = (char)c;
  }
  if (c == EOF) i->setstate(std::ios_base::eofbit);
  if (!__rt_parse_double(b, n, v)) i->setstate(std::ios_base::failbit);
  return *i;
}
DEF(std::istream&, ext_f, (std::istream* i, float* v), "_ZNSi10_M_extractIfEERSiRT_") { double d = *v; ext_d(i, &d); *v = (float)d; return *i; }
// std::put_time
DEF(const void*, uf_tp, (const std::locale*), "_ZSt9use_facetISt8time_putIcSt19ostreambuf_iteratorIcSt11char_traitsIcEEEERKT_RKSt6locale") { return &std::rt_ctype(); }
DEF(bool, hf_tp, (const std::locale*), "_ZSt9has_facetISt8time_putIcSt19ostreambuf_iteratorIcSt11char_traitsIcEEEEbRKSt6locale") { return true; }
DEF(std::ostreambuf_iterator<char>, tp_put, (const void*, std::ostreambuf_iterator<char> o, std::ios_base&, char, const tm* t, const char* b, const char* e), "_ZNKSt8time_putIcSt19ostreambuf_iteratorIcSt11char_traitsIcEEE3putES3_RSt8ios_basecPK2tmPKcSB_") {
  char f[64], r[128]; size_t n = e - b;
  memcpy(f, b, n); f[n] = 0;
  n = strftime(r, sizeof r, f, t);
  for (size_t i = 0; i < n; i++) *o++ = r[i];
  return o;
}
DEF(const void*, uf_ct, (const std::locale*), "_ZSt9use_facetISt5ctypeIcEERKT_RKSt6locale") { return &std::rt_ctype(); }
DEF(bool, hf_ct, (const std::locale*), "_ZSt9has_facetISt5ctypeIcEEbRKSt6locale") { return true; }
DEF(void, cache_loc, (std::ios* s, const std::locale&), "_ZNSt9basic_iosIcSt11char_traitsIcEE15_M_cache_localeERKSt6locale") { s->_M_ctype = &std::rt_ctype(); s->_M_num_put = 0; s->_M_num_get = 0; }
}
// boost::posix_time printing through a time facet (the HTTP Date header): a fixed instant
extern "C" {
DEF(std::ostream&, put_ptime, (std::ostream& o, const void*), "_ZN5boost10posix_timelsIcSt11char_traitsIcEEERSt13basic_ostreamIT_T0_ES8_RKNS0_5ptimeE") { const char* s = "Sun, 09 Sep 2001 01:46:40 GMT"; return o.write(s, strlen(s)); }
}
