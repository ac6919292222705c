// V02: dateTime.iso8601 acceptance, fields and text round trip.
#include "h.h"
#include <libiqxmlrpc/value_type.h>
#include <libiqxmlrpc/value.h>
using namespace iqxmlrpc;
#if SYM_NATIVE
extern "C" time_t time(time_t* t) { time_t v = 1000000000; if (t) *t = v; return v; }
#endif
static int dig(const char* b, int i) { return b[i] & 15; }
static int num2(const char* b, int i) { return dig(b, i) * 10 + dig(b, i + 1); }
static int same(const struct tm& a, const struct tm& b) {
  int r = a.tm_year == b.tm_year;
  r = sym_and(r, a.tm_mon == b.tm_mon); r = sym_and(r, a.tm_mday == b.tm_mday); r = sym_and(r, a.tm_hour == b.tm_hour);
  r = sym_and(r, a.tm_min == b.tm_min);
  return sym_and(r, a.tm_sec == b.tm_sec);
}
static void text() {
  long n = sym_param("len", 17);
  char b[40];
  sym_make(b, n, "text");
  std::string s(b, n);
  bool ok = false; struct tm t = tm();
  std::string back;
  try { Date_time d(s); ok = true; t = d.get_tm(); back = d.to_string(); } catch (const Date_time::Malformed_iso8601&) {}
  int valid = n == 17;
  if (n == 17) {
    for (int i = 0; i < 17; i++) {
      if (i == 8) valid = sym_and(valid, b[i] == 'T');
      else if (i == 11 || i == 14) valid = sym_and(valid, b[i] == ':');
      else valid = sym_and(valid, in_range(b[i], '0', '9'));
    }
    int y = num2(b, 0) * 100 + num2(b, 2);
    valid = sym_and(valid, y >= 1900);
    valid = sym_and(valid, in_range(num2(b, 4), 1, 12));
    valid = sym_and(valid, in_range(num2(b, 6), 1, 31));
    valid = sym_and(valid, num2(b, 9) <= 23);
    valid = sym_and(valid, num2(b, 12) <= 59);
    valid = sym_and(valid, num2(b, 15) <= 61);
  }
  sym_log("ok", ok);
  if (ok) {
    sym_cover("accepted");
    sym_check(valid, "only a well-formed in-range stamp is accepted");
    struct tm e = tm();
    e.tm_year = num2(b, 0) * 100 + num2(b, 2) - 1900; e.tm_mon = num2(b, 4) - 1; e.tm_mday = num2(b, 6);
    e.tm_hour = num2(b, 9); e.tm_min = num2(b, 12); e.tm_sec = num2(b, 15);
    sym_check(same(t, e), "the accepted stamp yields its calendar fields");
    sym_check(str_eq(back, s), "to_string gives the accepted text back");
    sym_check(sym_is_init(&t, 36), "every calendar field of the result is initialised");
  } else {
    sym_cover("rejected");
    sym_check(!valid, "a well-formed in-range stamp is accepted");
  }
}
static void fields() {
  struct tm t = tm();
  unsigned char f[6];
  sym_make(f, 6, "fields");
  int y = sym_int("year");
  sym_assume(in_range(y, 0, 8099)); sym_assume(f[0] <= 11); sym_assume(in_range(f[1], 1, 31));
  sym_assume(f[2] <= 23); sym_assume(f[3] <= 59); sym_assume(f[4] <= 61);
  t.tm_year = y; t.tm_mon = f[0]; t.tm_mday = f[1]; t.tm_hour = f[2]; t.tm_min = f[3]; t.tm_sec = f[4];
  Date_time d(&t);
  sym_check(same(d.get_tm(), t), "a date-time built from calendar fields keeps them");
  Value v(&t);
  sym_check(same((struct tm)v, t), "a value built from calendar fields keeps them");
  std::string s = d.to_string();
  Date_time copy(d);
  sym_check(str_eq(copy.to_string(), s), "a copy has the same text");
  try { Date_time e(s); sym_check(same(e.get_tm(), t), "text of a date-time parses back to the same fields"); sym_cover("fields"); }
  catch (const Date_time::Malformed_iso8601&) { sym_fail("text of an in-range date-time is accepted"); }
}
static void now() {
  Date_time u(false), l(true);   // the clock stands at 2001-09-09 01:46:40 UTC
  sym_check(str_eq(u.to_string(), "20010909T01:46:40"), "current UTC time has the clock's fields");
  Date_time r(l.to_string());
  sym_check(same(r.get_tm(), l.get_tm()), "current local time survives its text form");
  sym_cover("now");
}
extern "C" void sym_main() {
  switch (sym_param("mode", 0)) { case 0: text(); break; case 1: fields(); break; default: now(); }
}
