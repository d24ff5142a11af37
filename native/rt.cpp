// Native runtime: replays a vector of concrete inputs against the real code.
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <string>
#include <thread>
#include <mutex>
#include <condition_variable>
#include <functional>
#include <dlfcn.h>
#include "../harness/sx.hpp"

static std::vector<std::string> vals; static size_t pos = 0; static int failed = 0, nchecks = 0; static int fail_alloc = 0;
static long live = 0;
extern "C" int __attribute__((weak)) __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
static void on_malloc(const volatile void*, size_t) { __atomic_add_fetch(&live, 1, __ATOMIC_RELAXED); }
static void on_free(const volatile void* p) { if (p) __atomic_sub_fetch(&live, 1, __ATOMIC_RELAXED); }
static void finish() { fflush(stdout); if (failed) { printf("REPLAY violated\n"); fflush(stdout); _Exit(1);} printf("REPLAY ok checks=%d\n", nchecks); fflush(stdout); _Exit(0); }
static const char* nextv() { if (pos >= vals.size()) { if (failed) finish(); printf("REPLAY out of inputs\n"); fflush(stdout); _Exit(78);} return vals[pos++].c_str(); }
extern "C" {
static double scale = 1;   // of the inputs
double sx_real(const char*) { double v = strtod(nextv(), nullptr); if (v - v == 0) scale = std::fmax(scale, std::fabs(v)); return v; }
float sx_realf(const char*) { return (float)strtod(nextv(), nullptr); }
int sx_int(const char*, int lo, int hi) { int v = (int)strtol(nextv(), nullptr, 10); if (v < lo || v > hi) { if (failed) finish(); printf("REPLAY assume\n"); fflush(stdout); _Exit(77);} return v; }
long sx_long(const char*, long lo, long hi) { long v = strtol(nextv(), nullptr, 10); if (v < lo || v > hi) { if (failed) finish(); printf("REPLAY assume\n"); fflush(stdout); _Exit(77);} return v; }
int sx_choice(const char*, int) { return (int)strtol(nextv(), nullptr, 10); }
int sx_conc(int v) { return v; }
void sx_assume(int c) { if (!c) { if (failed) finish(); printf("REPLAY assume\n"); fflush(stdout); _Exit(77);} }
static void fail(const char* l) { failed++; printf("REPLAY FAIL %s\n", l); }
void sx_check(int c, const char* l) { nchecks++; if (!c) fail(l); }
double sx_tol = 1e-6;
void sx_eq(double a, double b, const char* l) {
    nchecks++;
    if (a == b || (a != a && b != b)) return;
    double tol = sx_tol * std::fmax(std::fabs(a), std::fabs(b)) + sx_tol * 1e-3 * (sx_tol > 1e-5 ? 50 * scale : 1);
    if (std::fabs(a - b) <= tol) return;
    printf("  %s: %.17g vs %.17g\n", l, a, b); fail(l);
}
void sx_same(double a, double b, const char* l) {
    nchecks++;
    if ((a != a && b != b) || (a == b && std::signbit(a) == std::signbit(b))) return;
    printf("  %s: %.17g vs %.17g\n", l, a, b); fail(l);
}
void sx_reach(const char*) {}
long sx_live(void) { return live; }
void sx_alloc_fail(int k) { fail_alloc = k; }
int sx_isnative(void) { return 1; }
int sx_ieee(void) { return 0; }
void sx_stop(void) { finish(); }
void* __real_aligned_alloc(size_t, size_t);
void* __wrap_aligned_alloc(size_t a, size_t n) { if (fail_alloc && --fail_alloc == 0) return nullptr; return __real_aligned_alloc(a, n); }
}
// threads: harness code runs on one of three real threads; sx_thread hands control over by
// running the continuation of the harness as a coroutine is not possible natively, so harnesses
// that use sx_thread structure each step as a closure executed through sx_on_thread (see harness).
struct Worker { std::thread t; std::mutex m; std::condition_variable cv; std::function<void()> job; bool has = false, stop = false; };
static Worker* workers[3];
static void loop(Worker* w) { for (;;) { std::unique_lock<std::mutex> l(w->m); w->cv.wait(l, [&] { return w->has || w->stop; }); if (w->stop) return; w->job(); w->has = false; w->cv.notify_all(); } }
extern "C" void sx_run_on(int t, void (*fn)(void*), void* arg) {
    if (t == 0) { fn(arg); return; }
    if (!workers[t]) { workers[t] = new Worker; workers[t]->t = std::thread(loop, workers[t]); workers[t]->t.detach(); }
    Worker* w = workers[t];
    std::unique_lock<std::mutex> l(w->m); w->job = [=] { fn(arg); }; w->has = true; w->cv.notify_all(); w->cv.wait(l, [&] { return !w->has; });
}
extern "C" void sx_par(void (*f1)(void*), void* a1, void (*f2)(void*), void* a2) {
    std::thread x(f1, a1), y(f2, a2); x.join(); y.join();
}
extern "C" void sx_race(int) {}
extern "C" void sx_thread(int) {}
int main(int argc, char** argv) {
    // argv: harness name, inputs file
    FILE* f = fopen(argv[2], "r"); char buf[256];
    while (f && fscanf(f, "%255s", buf) == 1) vals.push_back(buf);
    if (f) fclose(f);
    void (*h)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
    if (!h) { printf("no such harness\n"); return 79; }
    if (__sanitizer_install_malloc_and_free_hooks) __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
    h();
    finish();
}
