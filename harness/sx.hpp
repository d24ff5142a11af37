// Harness API. In the symbolic build these functions are modelled by the engine,
// in the native (replay) build they are implemented by native/rt.cpp.
#pragma once
extern "C" {
double sx_real(const char* name);                     // arbitrary finite real / arbitrary double (ieee)
float sx_realf(const char* name);
int sx_int(const char* name, int lo, int hi);         // arbitrary int in [lo,hi], kept symbolic
long sx_long(const char* name, long lo, long hi);
int sx_choice(const char* name, int n);               // arbitrary 0..n-1, explored by forking
int sx_conc(int v);                                   // fork over all feasible values of v
void sx_assume(int c);
void sx_check(int c, const char* label);              // proof obligation
void sx_eq(double a, double b, const char* label);    // a == b (exact reals / tolerance natively)
void sx_same(double a, double b, const char* label);  // identical doubles (or both NaN)
void sx_reach(const char* label);
void sx_thread(int t);                                // switch thread
long sx_live(void);                                   // live heap allocations
void sx_alloc_fail(int k);                            // make the k-th next chunk allocation fail
int sx_isnative(void);
int sx_ieee(void);
void sx_stop(void);
#ifndef SX_SYMBOLIC
void sx_run_on(int t, void (*fn)(void*), void* arg);
void sx_par(void (*f1)(void*), void* a1, void (*f2)(void*), void* a2);
#endif
void sx_race(int on);
}
#ifdef SX_SYMBOLIC
// run fn on thread t (0..2): thread-local storage of that thread is in effect
inline void sx_run_on(int t, void (*fn)(void*), void* arg) { void (*volatile g)(void*) = fn; sx_thread(t); g(arg); sx_thread(0); }   // volatile: addresses of thread-local objects must not be shared
// run f1 and f2 concurrently, on threads 1 and 2: no byte may be accessed by both and written by one
inline void sx_par(void (*f1)(void*), void* a1, void (*f2)(void*), void* a2) { void (*volatile g1)(void*) = f1; void (*volatile g2)(void*) = f2; sx_race(1); sx_thread(1); g1(a1); sx_thread(2); g2(a2); sx_race(0); sx_thread(0); }
#endif
