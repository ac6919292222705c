// Threads: the parts of Boost.Thread and libstdc++ that live in their shared
// libraries, reduced to the pthread calls the executor and the replay scheduler
// know.  Interruption and thread exit callbacks are not modelled.
#include "sym.h"
#include <pthread.h>
#include <boost/thread/thread.hpp>
#include <boost/thread/condition_variable.hpp>
#include <condition_variable>
#include <thread>
#include <errno.h>
#include <sys/time.h>
#include <time.h>

// Time passes only when nothing else can happen.
extern "C" {
#if SYM_NATIVE
#define W(f) __wrap_##f
long long rt_clock_ns;                                                // time passed since the start
timespec rt_now() { timespec t = { 1000000000 + rt_clock_ns / 1000000000, rt_clock_ns % 1000000000 }; return t; }
int __wrap_clock_gettime(clockid_t, timespec* t) { *t = rt_now(); return 0; }
int __wrap_gettimeofday(timeval* t, void*) { t->tv_sec = rt_now().tv_sec; t->tv_usec = rt_now().tv_nsec / 1000; return 0; }
long __wrap__ZNSt6chrono3_V212steady_clock3nowEv() { return 1000000000000000000 + rt_clock_ns; }
long __wrap__ZNSt6chrono3_V212system_clock3nowEv() { return 1000000000000000000 + rt_clock_ns; }
#else
#define W(f) f
extern long long rt_clock_ns;
#endif
int rt_cond_timedwait(pthread_cond_t*, pthread_mutex_t*);
static void pass_until(long long t) { World w; if (t > rt_clock_ns) rt_clock_ns = t; }
static int timed_wait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) {
  int r = rt_cond_timedwait(c, m);
  if (r == ETIMEDOUT) pass_until((t->tv_sec - 1000000000ll) * 1000000000ll + t->tv_nsec);
  return r;
}
int W(pthread_cond_timedwait)(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) { return timed_wait(c, m, t); }
int W(pthread_cond_clockwait)(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const timespec* t) { return timed_wait(c, m, t); }
static int slumber(long long ns) { sym_yield(); pass_until(rt_clock_ns + ns); return 0; }
int W(nanosleep)(const timespec* t, timespec*) { return slumber(t->tv_sec * 1000000000ll + t->tv_nsec); }
int W(clock_nanosleep)(clockid_t, int, const timespec* t, timespec*) { return slumber(t->tv_sec * 1000000000ll + t->tv_nsec); }
int W(usleep)(unsigned u) { return slumber(u * 1000ll); }
// readers and writers exclude each other
static_assert(sizeof(pthread_rwlock_t) >= sizeof(pthread_mutex_t), "layout");
static pthread_mutex_t* rw(pthread_rwlock_t* l) { return (pthread_mutex_t*)l; }
int W(pthread_rwlock_init)(pthread_rwlock_t* l, const pthread_rwlockattr_t*) noexcept { return pthread_mutex_init(rw(l), 0); }
int W(pthread_rwlock_destroy)(pthread_rwlock_t* l) noexcept { return pthread_mutex_destroy(rw(l)); }
int W(pthread_rwlock_rdlock)(pthread_rwlock_t* l) noexcept { return pthread_mutex_lock(rw(l)); }
int W(pthread_rwlock_wrlock)(pthread_rwlock_t* l) noexcept { return pthread_mutex_lock(rw(l)); }
int W(pthread_rwlock_tryrdlock)(pthread_rwlock_t* l) noexcept { return pthread_mutex_trylock(rw(l)); }
int W(pthread_rwlock_trywrlock)(pthread_rwlock_t* l) noexcept { return pthread_mutex_trylock(rw(l)); }
int W(pthread_rwlock_unlock)(pthread_rwlock_t* l) noexcept { return pthread_mutex_unlock(rw(l)); }
}

namespace boost {
namespace detail {
thread_data_base::~thread_data_base() {}
thread_data_base* get_current_thread_data() { return 0; }
}
static void* thr_entry(void* p) {
  detail::thread_data_ptr ti = static_cast<detail::thread_data_base*>(p)->self;
  ti->self.reset();
  ti->run();
  return 0;
}
bool thread::start_thread_noexcept() {
  thread_info->self = thread_info;
  if (pthread_create(&thread_info->thread_handle, 0, &thr_entry, thread_info.get())) { thread_info->self.reset(); return false; }
  return true;
}
bool thread::join_noexcept() {
  if (!thread_info) return false;
  detail::thread_data_ptr ti = thread_info;
  thread_info.reset();
  pthread_join(ti->thread_handle, 0);
  return true;
}
bool thread::joinable() const noexcept { return thread_info.get() != 0; }
detail::thread_data_ptr thread::get_thread_info() const { return thread_info; }
void thread::detach() { if (thread_info) { pthread_detach(thread_info->thread_handle); thread_info.reset(); } }
thread::native_handle_type thread::native_handle() { return thread_info ? thread_info->thread_handle : pthread_t(); }
unsigned thread::hardware_concurrency() noexcept { return 2; }
namespace this_thread {
void interruption_point() {}
disable_interruption::disable_interruption() noexcept : interruption_was_enabled(false) {}
disable_interruption::~disable_interruption() noexcept {}
}
}

namespace std {
thread::_State::~_State() {}
static void* std_entry(void* p) { thread::_State_ptr s(static_cast<thread::_State*>(p)); s->_M_run(); return 0; }
void thread::_M_start_thread(_State_ptr s, void (*)()) {
  pthread_t h;
  pthread_create(&h, 0, &std_entry, s.release());
  _M_id = id(h);
}
void thread::join() { pthread_join(_M_id._M_thread, 0); _M_id = id(); }
void thread::detach() { pthread_detach(_M_id._M_thread); _M_id = id(); }
unsigned thread::hardware_concurrency() noexcept { return 2; }
condition_variable::condition_variable() noexcept {}
condition_variable::~condition_variable() {}
void condition_variable::wait(unique_lock<mutex>& l) { pthread_cond_wait((pthread_cond_t*)&_M_cond, l.mutex()->native_handle()); }
void condition_variable::notify_one() noexcept { pthread_cond_signal((pthread_cond_t*)&_M_cond); }
void condition_variable::notify_all() noexcept { pthread_cond_broadcast((pthread_cond_t*)&_M_cond); }
}
