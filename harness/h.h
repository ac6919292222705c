// Helpers shared by the harnesses.
#pragma once
#include "sym.h"
#include <string>
#include <string.h>
#define NOINL __attribute__((noinline))
inline std::string sym_str(size_t n, const char* name) { char b[512]; sym_make(b, n, name); return std::string(b, n); }
inline int str_eq(const std::string& a, const std::string& b) { return a.size() == b.size() && sym_memeq(a.data(), b.data(), a.size()); }
inline int sym_int(const char* name) { int v; sym_make(&v, sizeof v, name); return v; }
inline int64_t sym_i64(const char* name) { int64_t v; sym_make(&v, sizeof v, name); return v; }
inline unsigned char sym_byte(const char* name) { unsigned char v; sym_make(&v, 1, name); return v; }
inline int in_range(int c, int lo, int hi) { return sym_and(c >= lo, c <= hi); }
// any error code but those that mean "later" or a misuse of the descriptor
inline int any_error(const char* name) {
  unsigned char e = sym_byte(name);
  static const unsigned char no[] = { 4 /*EINTR*/, 9 /*EBADF*/, 11 /*EAGAIN*/, 14 /*EFAULT*/, 88 /*ENOTSOCK*/, 106 /*EISCONN*/, 114 /*EALREADY*/, 115 /*EINPROGRESS*/ };
  int ok = in_range(e, 1, 133);
  for (unsigned char n : no) ok = sym_and(ok, e != n);
  sym_assume(ok);
  return e;
}
inline int pick(int n, const char* name) { return (int)sym_concretize(sym_choice(n, name)); }
