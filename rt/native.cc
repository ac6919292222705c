// Native implementation of the harness interface: replays one assignment of the
// symbolic inputs against the natively compiled code.
//   usage: prog ASSIGN-FILE [param=value]...
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>
#include <new>
#include <unistd.h>
#include <signal.h>

typedef std::map<std::string, std::vector<unsigned char> > AssignMap;
static AssignMap* g_assign;
static std::map<std::string, unsigned>* g_used;
static std::map<std::string, long>* g_params;
static volatile long g_live;
static __thread int g_internal;      // allocations of this runtime are not counted
struct Internal { Internal() { g_internal++; } ~Internal() { g_internal--; } };
extern "C" void sym_main();

static std::vector<unsigned char>& slot(const char* name) {
  Internal in;
  unsigned k = (*g_used)[name]++;
  std::string n = name;
  if (k) n += "#" + std::to_string(k);
  return (*g_assign)[n];
}
// The live blocks; with the thread sanitizer only their number is kept.
typedef std::map<char*, size_t> Blocks;
static Blocks* g_blocks; static volatile char g_blocks_lock;
extern "C" { extern char __data_start[], _end[];
extern char __start_verif_bss[] __attribute__((weak)), __stop_verif_bss[] __attribute__((weak)), __start_verif_data[] __attribute__((weak)), __stop_verif_data[] __attribute__((weak)); }
struct BlocksGuard { BlocksGuard() { g_internal++; while (__atomic_test_and_set(&g_blocks_lock, __ATOMIC_ACQUIRE)) ; } ~BlocksGuard() { __atomic_clear(&g_blocks_lock, __ATOMIC_RELEASE); g_internal--; } };
__attribute__((no_sanitize("address"))) static char* word(char* p) { char* volatile v = *(char**)p; return v; }
// operator-new blocks reachable from the library's static data: kept on purpose, not leaked
static long held_by_statics() {
  if (!g_blocks) return 0;
  BlocksGuard g;
  Blocks seen; std::vector<std::pair<char*, size_t> > work;
  work.push_back(std::make_pair(__data_start, size_t(_end - __data_start)));
  bool root = true;
  while (!work.empty()) {
    char* b = work.back().first; size_t n = work.back().second; work.pop_back();
    for (size_t i = 0; i + 8 <= n; i += 8) {
      char* a = b + i;
      if (root && ((a >= __start_verif_bss && a < __stop_verif_bss) || (a >= __start_verif_data && a < __stop_verif_data))) continue;
      char* p = word(a);
      Blocks::iterator k = g_blocks->upper_bound(p);
      if (k == g_blocks->begin()) continue;
      --k;
      if (p >= k->first + (k->second ? k->second : 1) || !seen.insert(*k).second) continue;
      work.push_back(*k);
    }
    root = false;
  }
  return seen.size();
}
static void finish(int code) { fflush(stdout); _exit(code); }

extern "C" {
void native_sched_init(const char* trace) __attribute__((weak));
void native_sched_point(void) __attribute__((weak));
void native_sched_wait(const volatile int*) __attribute__((weak));
// present when built with the thread sanitizer
void AnnotateIgnoreReadsBegin(const char*, int) __attribute__((weak));
void AnnotateIgnoreReadsEnd(const char*, int) __attribute__((weak));
void AnnotateIgnoreWritesBegin(const char*, int) __attribute__((weak));
void AnnotateIgnoreWritesEnd(const char*, int) __attribute__((weak));
void AnnotateHappensBefore(const char*, int, unsigned long) __attribute__((weak));
void AnnotateHappensAfter(const char*, int, unsigned long) __attribute__((weak));
void __tsan_read_range(void*, unsigned long) __attribute__((weak));
void __tsan_write_range(void*, unsigned long) __attribute__((weak));
void sym_make(void* p, size_t n, const char* name) {
  std::vector<unsigned char>& v = slot(name);
  for (size_t i = 0; i < n; i++) ((unsigned char*)p)[i] = i < v.size() ? v[i] : 0;
}
int sym_choice(int n, const char* name) { std::vector<unsigned char>& v = slot(name); return n <= 1 || v.empty() ? 0 : v[0]; }
int native_byte(const char* name, unsigned k) { Internal in; std::vector<unsigned char>& v = (*g_assign)[name]; return k < v.size() ? v[k] : 0; }
void sym_assume(int c) { if (!c) { printf("ASSUME-FAILED\n"); finish(3); } }
void sym_check(int c, const char* m) { if (!c) { printf("NATIVE-VIOLATION %s\n", m); finish(1); } }
void sym_fail(const char* m) { printf("NATIVE-VIOLATION %s\n", m); finish(1); abort(); }
void sym_stop(void) { printf("DONE\n"); finish(0); abort(); }
void sym_cover(const char* n) { printf("COVER %s\n", n); }
long sym_concretize(long v) { return v; }
int sym_fork(int c) { return c != 0; }
long sym_param(const char* n, long d) { Internal in; std::map<std::string, long>::iterator i = g_params->find(n); return i == g_params->end() ? d : i->second; }
int sym_native(void) { return 1; }
long sym_live_new(void) { return g_live - held_by_statics(); }
void sym_log(const char* n, uint64_t v) { printf("LOG %s %llu\n", n, (unsigned long long)v); }
void sym_logb(const char* n, const void* p, size_t k) { printf("LOG %s ", n); for (size_t i = 0; i < k; i++) printf("%02x", ((const unsigned char*)p)[i]); printf("\n"); }
void sym_dbg(const char* n, uint64_t v) { fprintf(stderr, "DBG %s %llu\n", n, (unsigned long long)v); }
int sym_and(int a, int b) { return a && b; }
int sym_or(int a, int b) { return a || b; }
uint64_t sym_ite(int c, uint64_t a, uint64_t b) { return c ? a : b; }
int sym_memeq(const void* a, const void* b, size_t n) { return memcmp(a, b, n) == 0; }
int sym_is_init(const void*, size_t) { return 1; }
void sym_yield(void) { if (native_sched_point) native_sched_point(); }
void sym_wait(const volatile int* f) { if (native_sched_wait) native_sched_wait(f); else if (!*f) sym_fail("the only thread waits"); }
void sym_world(int d) {
  if (!AnnotateIgnoreReadsBegin) return;
  if (d > 0) { AnnotateIgnoreReadsBegin("", 0); AnnotateIgnoreWritesBegin("", 0); } else { AnnotateIgnoreReadsEnd("", 0); AnnotateIgnoreWritesEnd("", 0); }
}
void sym_hb(const void* k, int release) { if (!AnnotateHappensBefore) return; if (release) AnnotateHappensBefore("", 0, (unsigned long)k); else AnnotateHappensAfter("", 0, (unsigned long)k); }
void sym_touch(const void* p, size_t n, int w) { if (!__tsan_read_range) return; if (w) __tsan_write_range((void*)p, n); else __tsan_read_range((void*)p, n); }
}

// operator new/delete: counted; fresh memory is filled with a pattern
static unsigned char g_fill = 0xa5;
static void blocks_init() {
  static bool done;
  if (done || g_internal) return;
  done = true;
  if (AnnotateHappensBefore) return;
  Internal in; g_blocks = new Blocks;
}
static void* cnt_new(size_t n) { blocks_init(); void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); memset(p, g_fill, n); if (!g_internal) { __atomic_fetch_add(&g_live, 1, __ATOMIC_RELAXED); if (g_blocks) { BlocksGuard g; (*g_blocks)[(char*)p] = n; } } return p; }
static void cnt_del(void* p) { if (p) { if (!g_internal) { __atomic_fetch_sub(&g_live, 1, __ATOMIC_RELAXED); if (g_blocks) { BlocksGuard g; g_blocks->erase((char*)p); } } free(p); } }
void* operator new(size_t n) { return cnt_new(n); }
void* operator new[](size_t n) { return cnt_new(n); }
void operator delete(void* p) noexcept { cnt_del(p); }
void operator delete[](void* p) noexcept { cnt_del(p); }
void operator delete(void* p, size_t) noexcept { cnt_del(p); }
void operator delete[](void* p, size_t) noexcept { cnt_del(p); }

static void on_alarm(int) { static const char m[] = "NATIVE-VIOLATION no progress (hang)\n"; ssize_t r = write(1, m, sizeof m - 1); (void)r; _exit(1); }
int main(int argc, char** argv) {
  g_assign = new AssignMap; g_used = new std::map<std::string, unsigned>; g_params = new std::map<std::string, long>;
  if (getenv("NATIVE_FILL")) g_fill = (unsigned char)atoi(getenv("NATIVE_FILL"));
  FILE* f = argc > 1 ? fopen(argv[1], "r") : 0;
  if (!f) { fprintf(stderr, "no assignment file\n"); return 2; }
  static char line[1 << 20];
  std::string sched;
  while (fgets(line, sizeof line, f)) {
    char* sp = strrchr(line, '\t');
    if (!sp) continue;
    *sp++ = 0;
    if (!strncmp(line, "%sched", 6)) { sched = sp; continue; }
    std::vector<unsigned char>& v = (*g_assign)[line];
    unsigned b;
    while (sscanf(sp, "%2x", &b) == 1) { v.push_back((unsigned char)b); sp += 2; }
  }
  fclose(f);
  for (int i = 2; i < argc; i++) { char* e = strchr(argv[i], '='); if (e) (*g_params)[std::string(argv[i], e - argv[i])] = atol(e + 1); }
  signal(SIGALRM, on_alarm);
  alarm(20);
  if (native_sched_init) native_sched_init(sched.c_str());
  sym_main();
  printf("DONE\n");
  finish(0);
}
