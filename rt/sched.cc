// Cooperative scheduler of native replay (linked with --wrap for the pthread calls).
// One thread runs at a time; at every scheduling decision of the symbolic executor the
// next entry of the recorded schedule says who continues.  Mirrors engine/natives.cc.
// Compiled without sanitizers, so handing over adds no ordering visible to them.
#include "sym.h"
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/syscall.h>
#include <unistd.h>

extern "C" int native_byte(const char* name, unsigned k);

namespace {
enum Stat { RUN, MUTEX, COND, JOIN, FLAG, FIN };
struct Thr { Stat stat; const volatile void* wait; pthread_mutex_t* wmutex; bool pend, granted, reacquire, timed, timed_out; pthread_t h; void* (*fn)(void*); void* arg; };
enum { MAXT = 40, MAXM = 512 };
Thr th[MAXT];
int nth = 1, cur;                       // cur: who may run
struct Mx { pthread_mutex_t* m; int owner, depth; } mx[MAXM];
int nmx;
unsigned char* trace; size_t ntrace, pos;
__thread int me;

long raw_futex(int* a, int op, int v) {
  long r; register long r10 __asm__("r10") = 0;
  __asm__ volatile("syscall" : "=a"(r) : "0"((long)SYS_futex), "D"(a), "S"((long)op), "d"((long)v), "r"(r10) : "rcx", "r11", "memory");
  return r;
}
Mx& mutex(pthread_mutex_t* m) {
  for (int i = 0; i < nmx; i++) if (mx[i].m == m) return mx[i];
  if (nmx == MAXM) { printf("NATIVE-VIOLATION model: too many mutexes\n"); fflush(stdout); _exit(2); }
  mx[nmx].m = m; mx[nmx].owner = -1; mx[nmx].depth = 0;
  return mx[nmx++];
}
void dead(const char* what) { printf("NATIVE-VIOLATION %s\n", what); fflush(stdout); _exit(1); }
bool enabled(int i) {
  Thr& t = th[i];
  switch (t.stat) {
    case FIN: case COND: return false;
    case MUTEX: return mutex((pthread_mutex_t*)t.wait).owner < 0;
    case JOIN: return th[(long)t.wait].stat == FIN;
    case FLAG: return *(const volatile int*)t.wait != 0;
    default: return true;
  }
}
void hand_over(int to) {
  __atomic_store_n(&cur, to, __ATOMIC_SEQ_CST);
  raw_futex(&cur, FUTEX_WAKE, 1000);
}
void await() { for (;;) { int c = __atomic_load_n(&cur, __ATOMIC_SEQ_CST); if (c == me) return; raw_futex(&cur, FUTEX_WAIT, c); } }
bool any_enabled() { for (int i = 0; i < nth; i++) if (enabled(i)) return true; return false; }
void pick_next() {
  int to = -1;
  if (!any_enabled())          // timed waits end when nothing else can happen
    for (int i = 0; i < nth; i++) if (th[i].stat == COND && th[i].timed) { th[i].stat = MUTEX; th[i].wait = th[i].wmutex; th[i].reacquire = true; th[i].pend = true; th[i].timed_out = true; }
  if (pos < ntrace) to = trace[pos++];
  if (to >= nth || (to >= 0 && !enabled(to))) { printf("SCHEDULE-MISMATCH at decision %zu\n", pos - 1); fflush(stdout); _exit(5); }
  if (to < 0) { if (enabled(me)) to = me; else for (int i = 0; i < nth && to < 0; i++) if (enabled(i)) to = i; }
  if (to < 0) dead("deadlock: every thread is blocked");
  th[to].granted = th[to].pend; th[to].pend = false;
  if (to != me) hand_over(to);
}
bool point() {
  if (nth == 1) return true;
  if (th[me].granted) { th[me].granted = false; return true; }
  th[me].pend = true;
  pick_next();
  await();
  return false;
}
void block(Stat s, const volatile void* w) { th[me].stat = s; th[me].wait = w; th[me].pend = true; pick_next(); await(); }
void* entry(void* p) {
  me = (int)(long)p;
  await();
  th[me].fn(th[me].arg);
  th[me].stat = FIN;
  pick_next();
  return 0;
}
}
extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __real_pthread_mutex_destroy(pthread_mutex_t*);
int __real_pthread_mutex_init(pthread_mutex_t*, const pthread_mutexattr_t*);
int __real_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
int __real_pthread_join(pthread_t, void**);

void native_sched_init(const char* s) {
  size_t n = 0;
  for (const char* p = s; *p; p++) n += *p == 'T';
  trace = (unsigned char*)malloc(n + 1);
  for (const char* p = s; *p; p++) if (*p == 'T') trace[ntrace++] = (unsigned char)atoi(p + 1);
}
void native_sched_point(void) { while (!point()); }
void native_sched_wait(const volatile int* f) {
  for (;;) {
    if (!point()) continue;
    if (*f) { th[me].stat = RUN; return; }
    if (nth == 1) dead("deadlock: the only thread waits");
    block(FLAG, f);
  }
}
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
  for (;;) {
    if (!point()) continue;
    Mx& x = mutex(m);
    if (x.owner == me && m->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP) { x.depth++; return __real_pthread_mutex_lock(m); }
    if (x.owner == me && m->__data.__kind == PTHREAD_MUTEX_ERRORCHECK_NP) return EDEADLK;
    if (x.owner >= 0) { if (nth == 1) dead("deadlock: recursive locking of a mutex"); block(MUTEX, m); continue; }
    th[me].stat = RUN; x.owner = me;
    return __real_pthread_mutex_lock(m);
  }
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) {
  while (!point());
  Mx& x = mutex(m);
  if (x.owner == me && m->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP) { x.depth++; return __real_pthread_mutex_lock(m); }
  if (x.owner >= 0) return EBUSY;
  x.owner = me;
  return __real_pthread_mutex_lock(m);
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
  Mx& x = mutex(m);
  if (x.owner != me) dead("unlock of a mutex not held by the calling thread");
  if (x.depth) { x.depth--; return __real_pthread_mutex_unlock(m); }
  x.owner = -1;
  return __real_pthread_mutex_unlock(m);
}
int __wrap_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) { mutex(m).owner = -1; return __real_pthread_mutex_init(m, a); }
int __wrap_pthread_mutex_destroy(pthread_mutex_t* m) {
  Mx& x = mutex(m);
  if (x.owner >= 0) dead("destruction of a locked mutex");
  for (int i = 0; i < nth; i++) if (th[i].stat == MUTEX && th[i].wait == m) dead("destruction of a mutex another thread waits for");
  x = mx[--nmx];
  return __real_pthread_mutex_destroy(m);
}
int __wrap_pthread_cond_init(pthread_cond_t*, const pthread_condattr_t*) { return 0; }
int __wrap_pthread_cond_destroy(pthread_cond_t* c) {
  for (int i = 0; i < nth; i++) if (th[i].stat == COND && th[i].wait == c) dead("destruction of a condition variable another thread waits on");
  return 0;
}
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, bool timed) {
  while (!point());
  Mx& x = mutex(m);
  if (x.owner != me) dead("wait without holding the mutex");
  x.owner = -1;
  __real_pthread_mutex_unlock(m);
  th[me].wmutex = m; th[me].timed = timed; th[me].timed_out = false;
  block(COND, c);
  for (;;) {
    if (!point()) continue;
    Mx& y = mutex(m);
    if (y.owner >= 0) { block(MUTEX, m); continue; }
    th[me].stat = RUN; th[me].reacquire = false; y.owner = me;
    __real_pthread_mutex_lock(m);
    return th[me].timed_out ? ETIMEDOUT : 0;
  }
}
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cond_wait(c, m, false); }
int rt_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m) { return cond_wait(c, m, true); }
int sched_yield(void) noexcept { while (!point()); return 0; }
static void wake(int i) { th[i].stat = MUTEX; th[i].wait = th[i].wmutex; th[i].reacquire = true; th[i].pend = true; }
int __wrap_pthread_cond_broadcast(pthread_cond_t* c) {
  while (!point());
  for (int i = 0; i < nth; i++) if (th[i].stat == COND && th[i].wait == c) wake(i);
  return 0;
}
int __wrap_pthread_cond_signal(pthread_cond_t* c) {
  while (!point());
  int w[MAXT], n = 0;
  for (int i = 0; i < nth; i++) if (th[i].stat == COND && th[i].wait == c) w[n++] = i;
  static unsigned k;           // the engine keeps all these choices in one variable
  if (n) wake(w[n > 1 ? native_byte("wake", k++) % n : 0]);
  return 0;
}
int __wrap_pthread_create(pthread_t* h, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
  if (nth == MAXT) dead("model: too many threads");
  th[nth].stat = RUN; th[nth].fn = fn; th[nth].arg = arg;
  int k = nth++;
  int r = __real_pthread_create(&th[k].h, a, entry, (void*)(long)k);
  *h = th[k].h;
  return r;
}
int __wrap_pthread_join(pthread_t h, void** r) {
  int k = -1;
  for (int i = 1; i < nth; i++) if (pthread_equal(th[i].h, h)) k = i;
  if (k < 0) dead("join of an invalid thread");
  for (;;) {
    if (!point()) continue;
    if (th[k].stat == FIN) { th[me].stat = RUN; break; }
    block(JOIN, (void*)(long)k);
  }
  return __real_pthread_join(h, r);
}
// referenced by bitcode prepared for the address sanitizer
__attribute__((weak)) void __asan_poison_cxx_array_cookie(unsigned long) {}
__attribute__((weak)) unsigned long __asan_load_cxx_array_cookie(unsigned long* p) { return *p; }
int __wrap_pthread_detach(pthread_t) { return 0; }
}
