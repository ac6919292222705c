// Interface between harnesses and the symbolic executor (or the native replay runtime).
#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
void sym_make(void* p, size_t n, const char* name);        // n fresh symbolic bytes
int sym_choice(int n, const char* name);                   // symbolic value in [0,n)
void sym_assume(int cond);
void sym_check(int cond, const char* msg);                 // property assertion
void sym_fail(const char* msg) __attribute__((noreturn));
void sym_stop(void) __attribute__((noreturn));             // end of path, no verdict
void sym_cover(const char* name);                          // reachability witness
long sym_concretize(long v);                               // fork over all feasible values
int sym_fork(int cond);                                    // fork on cond now, returns 0/1
long sym_param(const char* name, long dflt);
int sym_native(void);                                      // 1 in native replay
long sym_live_new(void);                                   // live operator-new blocks
void sym_log(const char* name, uint64_t v);                // compared with native replay
void sym_logb(const char* name, const void* p, size_t n);
void sym_dbg(const char* name, uint64_t v);
int sym_and(int a, int b);                                 // non-forking connectives
int sym_or(int a, int b);
uint64_t sym_ite(int c, uint64_t a, uint64_t b);
int sym_memeq(const void* a, const void* b, size_t n);     // non-forking comparison
int sym_is_init(const void* p, size_t n);                  // all bytes initialised?
void sym_yield(void);                                      // scheduling point
void sym_wait(const volatile int* flag);                   // block until *flag != 0 (environment, orders nothing)
void sym_world(int d);                                     // +1/-1: enter/leave the environment model (no race checks)
void sym_hb(const void* key, int release);                 // happens-before edge through the environment
void sym_touch(const void* p, size_t n, int write);        // the environment accesses memory of the program
#ifdef __cplusplus
}
struct World { World() { sym_world(1); } ~World() { sym_world(-1); } };   // scope executing the environment model
#endif
