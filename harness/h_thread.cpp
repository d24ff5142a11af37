// Thread isolation: every thread has its own active tape; recordings made in different threads do not influence each other.
#include "ad.hpp"
#define RD(n) double n = sx_real(#n)
template <class F> static void on(int t, F f) { sx_run_on(t, [](void* p) { (*(F*)p)(); }, &f); }
struct Job { TP* t; AD *a, *b, *y; double x, z, s; int step; double v, da, db; };
static void act(Job& j)
{
    switch (j.step++) {
      case 0: j.t = new TP; j.a = new AD(j.x); j.b = new AD(j.z); j.t->registerInput(*j.a); j.t->registerInput(*j.b); break;
      case 1: j.t->newRecording(); j.y = new AD(*j.a * *j.b); break;
      case 2: *j.y = *j.y * *j.a + *j.b; j.t->registerOutput(*j.y); derivative(*j.y) = j.s; break;
      default: j.t->computeAdjoints(); j.v = value(*j.y); j.da = derivative(*j.a); j.db = derivative(*j.b); delete j.y; delete j.a; delete j.b; delete j.t; j.t = nullptr;
    }
}
static void result(const Job& j) { sx_eq(j.v, j.x * j.z * j.x + j.z, "value"); sx_eq(j.da, 2 * j.x * j.z * j.s, "first derivative"); sx_eq(j.db, (j.x * j.x + 1) * j.s, "second derivative"); }
template <int N> static void schedule(int first)
{
    Job j[3]; static const char* X[] = {"x0", "x1", "x2"}; static const char* Z[] = {"z0", "z1", "z2"}; static const char* S[] = {"s0", "s1", "s2"};
    for (int k = 0; k < N; ++k) { j[k].x = sx_real(X[k]); j[k].z = sx_real(Z[k]); j[k].s = sx_real(S[k]); j[k].step = 0; j[k].t = nullptr; }
    for (int n = 0; n < 4 * N; ++n) {
        int t = sx_choice("thread", N); SXA(j[t].step < 4);
        on(t + first, [&] { act(j[t]); });
        for (int k = 0; k < N; ++k) { TP* e = j[k].t; on(k + first, [&] { sx_check(TP::getActive() == e, "active tape of each thread"); if (e) sx_check(e->isActive(), "isActive in its thread"); }); }
    }
    for (int k = 0; k < N; ++k) result(j[k]);
}
extern "C" void h_thr_schedule2() { schedule<2>(1); }
extern "C" void h_thr_schedule_main() { schedule<2>(0); }
extern "C" void h_thr_schedule3_T() { schedule<3>(0); }
// activation state machine: one current tape per thread
template <int N> static void machine()
{
    TP a(false), b(false); TP* T[2] = {&a, &b}; TP* cur[3] = {nullptr, nullptr, nullptr};
    for (int n = 0; n < N; ++n) {
        int t = sx_choice("thread", 3), o = sx_choice("op", 7), i = o & 1; bool thrown = false, want = false;
        on(t, [&] {
            try { switch (o >> 1) { case 0: want = cur[t] != nullptr; if (i) TP::setActive(T[i]); else T[i]->activate(); break; case 1: T[i]->deactivate(); break; case 2: { TP x(false); TP y(std::move(x)); sx_check(!y.isActive(), "moved inactive tape"); break; } default: TP::deactivateAll(); } } catch (const xad::TapeAlreadyActive&) { thrown = true; }
        });
        sx_check(thrown == want, "TapeAlreadyActive exactly if the thread has an active tape");
        if (o >> 1 == 0 && !want) cur[t] = T[i];
        if (o >> 1 == 1 && cur[t] == T[i]) cur[t] = nullptr;
        if (o >> 1 == 3) cur[t] = nullptr;
        for (int k = 0; k < 3; ++k) on(k, [&] { sx_check(TP::getActive() == cur[k], "active tape of each thread"); sx_check(a.isActive() == (cur[k] == &a) && b.isActive() == (cur[k] == &b), "isActive in each thread"); });
    }
    for (int k = 0; k < 3; ++k) on(k, [&] { TP::deactivateAll(); });
}
extern "C" void h_thr_machine() { machine<3>(); }
extern "C" void h_thr_machine_T() { machine<4>(); }
// a tape handed from thread to thread goes on recording
extern "C" void h_thr_handover()
{
    RD(x); RD(z); RD(s); TP t(false); AD a, b, y, w; int p = sx_choice("order", 6); static const int O[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}; const int* o = O[p]; int moved = sx_choice("move", 2); TP t2(false); TP* q = &t;
    on(o[0], [&] { q->activate(); a = x; b = z; q->registerInput(a); q->registerInput(b); q->newRecording(); y = a * b; q->deactivate(); sx_check(!q->isActive(), "inactive"); });
    if (moved) { t2 = std::move(t); q = &t2; }
    on(o[1], [&] { q->activate(); AD c = y * a; w = c - b * 3.0; q->deactivate(); });
    double da, db, v;
    on(o[2], [&] { q->activate(); w += y; q->registerOutput(w); derivative(w) = s; q->computeAdjoints(); v = value(w); da = derivative(a); db = derivative(b); a = 0.0; });
    sx_eq(v, x * z * x - z * 3 + x * z, "value"); sx_eq(da, s * (2 * x * z + z), "derivative"); sx_eq(db, s * (x * x - 3 + x), "derivative");
    on(o[2], [&] { q->deactivate(); });
    for (int k = 0; k < 3; ++k) on(k, [&] { sx_check(TP::getActive() == nullptr, "no active tape left"); });
}
// tapes of different types are independent, in one thread and across threads
extern "C" void h_thr_types()
{
    RD(x); RD(s); int k = sx_choice("thread", 3); TP t; FTP u; TPf f; sx_check(TP::getActive() == &t && FTP::getActive() == &u && TPf::getActive() == &f, "active tapes of three types");
    on(1, [&] { sx_check(!TP::getActive() && !FTP::getActive() && !TPf::getActive(), "other thread unaffected"); });
    on(k, [&] { if (k == 0) { t.deactivate(); u.deactivate(); }
      TP t2; AD a = x; t2.registerInput(a); t2.newRecording(); AD y = a * a; { FTP u2; FAD b = x; derivative(value(b)) = s; u2.registerInput(b); u2.newRecording(); FAD z = b * b * b; u2.registerOutput(z); derivative(z) = 1.0; u2.computeAdjoints(); sx_eq(derivative(derivative(b)), 6 * x * s, "second derivative"); }
      t2.registerOutput(y); derivative(y) = s; t2.computeAdjoints(); sx_eq(derivative(a), 2 * x * s, "derivative"); });
    sx_check(TPf::getActive() == &f && (k == 0 ? TP::getActive() == nullptr && FTP::getActive() == nullptr : TP::getActive() == &t && FTP::getActive() == &u), "state afterwards");
}
// errors in one thread leave the others alone
extern "C" void h_thr_error()
{
    RD(x); RD(s); TP t; AD a = x; t.registerInput(a); t.newRecording(); AD y = a * a * 3.0;
    on(1, [&] { TP u; bool th = false; try { TP w; } catch (const xad::TapeAlreadyActive&) { th = true; } sx_check(th, "second tape in a thread throws"); AD b = 2.0; u.registerInput(b); u.newRecording(); AD z = b; th = false; try { u.computeAdjoints(); } catch (const xad::DerivativesNotInitialized&) { th = true; } sx_check(th, "no derivatives"); u.clearAll(); });
    on(2, [&] { TP::deactivateAll(); TP w; sx_check(w.isActive(), "third thread"); });
    sx_check(t.isActive(), "first thread"); t.registerOutput(y); derivative(y) = s; t.computeAdjoints(); sx_eq(derivative(a), 6 * x * s, "derivative");
}
