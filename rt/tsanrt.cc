// Only in the build that confirms data races: code of libstdc++ and libc that the thread
// sanitizer would not see into, compiled here so that its accesses are observed.
#include <sstream>
#include <string>
#include <list>
#include <map>
#include <time.h>
#include <string.h>
namespace std {
#include "nodes.h"
template class basic_string<char>;
template class basic_streambuf<char>;
template class basic_stringbuf<char>;
template class basic_ostringstream<char>;
template class basic_istringstream<char>;
template class basic_stringstream<char>;
}
extern "C" size_t __real_strftime(char*, size_t, const char*, const struct tm*);
extern "C" size_t __wrap_strftime(char* s, size_t max, const char* f, const struct tm* t) {
  char b[512]; struct tm c; memcpy(&c, t, sizeof c);
  size_t n = __real_strftime(b, max < sizeof b ? max : sizeof b, f, &c);
  memcpy(s, b, n ? n + 1 : 0);
  return n;
}
