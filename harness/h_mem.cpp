// Resources: nothing leaks, nothing is used outside its lifetime, callbacks are destroyed exactly once, failures leave usable objects.
// (Every memory access of the library is checked by the engine in all harnesses; here the histories are about ownership and failure.)
#include "ad.hpp"
#include <memory>
#include <new>
#define RD(n) double n = sx_real(#n)
static int alive = 0, destroyed = 0, calls = 0;
struct Boom {};
struct Cb : xad::CheckpointCallback<TP> {
    TP::slot_type in, out; double f; int what;   // adjoint of y = f * x
    Cb(TP::slot_type i, TP::slot_type o, double f_, int w = 0) : in(i), out(o), f(f_), what(w) { ++alive; }
    ~Cb() { --alive; ++destroyed; }
    void computeAdjoint(TP* t) override
    {
        ++calls;
        if (what == 1) throw Boom();
        double s = t->getAndResetOutputAdjoint(out);
        if (what == 2) { AD a = f; t->registerInput(a); xad::ScopedNestedRecording<TP> n(t); std::vector<AD> v(2, a); AD y = v[0] * v[1]; throw Boom(); }
        if (what == 3) { AD a = 1.0; t->registerInput(a); xad::ScopedNestedRecording<TP> n(t); AD y = a * f; t->registerOutput(y); derivative(y) = s; n.computeAdjoints(); s = derivative(a); n.incrementAdjoint(in, s); return; }
        t->incrementAdjoint(in, s * f);
    }
};
// insert a callback for y = f * x at the current position
static Cb* ext(TP& t, const AD& x, AD& y, double f, int what, bool push) { y = value(x) * f; t.registerOutput(y); Cb* c = new Cb(x.getSlot(), y.getSlot(), f, what); if (push) t.pushCallback(c); t.insertCallback(c); return c; }
static void plain(double x, double s) { TP t; AD a = x; t.registerInput(a); t.newRecording(); AD y = a * a * 3.0; t.registerOutput(y); derivative(y) = s; t.computeAdjoints(); sx_eq(derivative(a), 6 * x * s, "computation on a fresh tape"); }
static void warm() { TP t; AD a = 1.0; t.registerInput(a); const AD k = 1.0; (void)derivative(k); }
#define LEAK(...) warm(); long before = sx_live(); { __VA_ARGS__ } sx_check(sx_live() == before, "all memory is released"); sx_check(TP::getActive() == nullptr, "no tape left active");
// ---- histories of ownership: pushed callbacks are destroyed exactly once, by whoever owns them
template <int N> static void own()
{
    alive = destroyed = 0; warm(); long before = sx_live(); int n = 0;
    {
        std::unique_ptr<TP> a(new TP(false)), b(new TP(false)); int na = 0, nb = 0, free = 0; std::vector<Cb*> st; std::vector<std::unique_ptr<Cb>> popped;
        for (int k = 0; k < N; ++k)
            switch (sx_choice("step", 8)) {
              case 0: a->pushCallback(new Cb(0, 0, 1)); ++na; ++n; break;
              case 1: b->pushCallback(new Cb(0, 0, 1)); ++nb; ++n; break;
              case 2: *b = std::move(*a); free += nb; nb = na; na = 0; sx_check(destroyed == free, "callbacks of the overwritten tape are destroyed"); a.reset(new TP(false)); break;
              case 3: { std::unique_ptr<TP> c(new TP(std::move(*a))); sx_check(c->getNumCallbacks() == (TP::size_type)na, "moved callbacks"); a = std::move(c); break; }
              case 4: b.reset(new TP(false)); free += nb; nb = 0; sx_check(destroyed == free, "a destroyed tape destroys its callbacks"); break;
              case 5: { bool th = false; xad::CheckpointCallback<TP>* l = nullptr; try { l = a->getLastCallback(); a->popCallback(); } catch (const xad::OutOfRange&) { th = true; } sx_check(th == (na == 0), "OutOfRange exactly if there is no callback"); if (!th) { --na; popped.emplace_back(static_cast<Cb*>(l)); } break; }
              case 6: a->clearAll(); break;
              default: { bool th = false; try { a->popCallback(); } catch (const xad::Exception&) { th = true; } sx_check(th == (na == 0), "popping without callbacks throws"); if (!th) { sx_stop(); } break; }
            }
        sx_check(a->getNumCallbacks() == (TP::size_type)na && a->haveCallbacks() == (na > 0) && b->getNumCallbacks() == (TP::size_type)nb, "number of callbacks");
        sx_check(alive == n - free, "callbacks alive");
    }
    sx_check(alive == 0 && destroyed == n, "every callback destroyed exactly once"); sx_check(sx_live() == before, "all memory is released");
}
extern "C" void h_mem_own() { own<3>(); }
extern "C" void h_mem_own_T() { own<4>(); }
// ---- the tape does not own callbacks which are only inserted
extern "C" void h_mem_notowned() { RD(x); RD(s); alive = destroyed = calls = 0; LEAK({ std::unique_ptr<Cb> c; { TP t; AD a = x, y; t.registerInput(a); t.newRecording(); c.reset(ext(t, a, y, 2.5, 0, false)); int k = sx_choice("end", 3); if (k == 0) { derivative(y) = s; t.computeAdjoints(); sx_eq(derivative(a), 2.5 * s, "derivative"); } else if (k == 1) t.clearAll(); else t.newRecording(); } sx_check(alive == 1 && destroyed == 0, "inserted callback left alone"); }) }
// ---- an exception thrown by a callback: nothing leaks, the tape can be re-initialised and used again
extern "C" void h_mem_throw()
{
    RD(x); RD(s); SXA(s != 0); alive = calls = 0; int what = 1 + sx_choice("what", 2), depth = sx_choice("after", 3), again = sx_choice("again", 3);
    LEAK({ TP t; bool th = false;
        { AD a = x; t.registerInput(a); t.newRecording(); AD w = a * 2.0, y, z; ext(t, w, y, 3.0, depth > 0 ? 3 : 0, true); ext(t, y, z, 1.5, what, true); if (depth > 1) ext(t, z, w, 2.0, 3, true); else w = z; derivative(w) = s;
          try { t.computeAdjoints(); } catch (const Boom&) { th = true; } sx_check(th, "the exception reaches the caller"); sx_check(t.isActive(), "still active"); if (again == 1) t.clearAll(); }
        if (again == 0) t.clearAll();
        if (again < 2) { AD a = x; t.registerInput(a); t.newRecording(); AD y = a * a, z; ext(t, y, z, 4.0, 3, true); t.registerOutput(z); derivative(z) = s; t.computeAdjoints(); sx_eq(derivative(a), 8 * x * s, "derivative after re-initialisation"); sx_check(t.getNumVariables() == 3, "number of variables"); }
    })
    sx_check(alive == 0, "callbacks destroyed"); plain(x, s);
}
// ---- documented errors: strong guarantee, the computation goes on with right results
extern "C" void h_mem_errors()
{
    RD(x); RD(s); alive = calls = 0; int what = sx_choice("error", 6), when = sx_choice("when", 2);
    LEAK({ TP t; AD a = x; t.registerInput(a); t.newRecording(); AD y = a * a, z; ext(t, y, z, 2.0, 0, true); AD w = z + a; auto p = t.getPosition(); auto v = t.getNumVariables(); auto o = t.getNumOperations(), st = t.getNumStatements();
        if (when) { t.registerOutput(w); derivative(w) = s; p = t.getPosition(); }
        bool th = false;
        try { switch (what) { case 0: { TP u; break; } case 1: t.activate(); break; case 2: if (when) throw xad::DerivativesNotInitialized(); else t.computeAdjoints(); break; case 3: t.popCallback(); t.popCallback(); break; case 4: { TP u(false); u.computeAdjoints(); break; } default: { TP u(false); u.getLastCallback(); } } }
        catch (const xad::Exception& e) { th = true; sx_check(e.what() != nullptr, "message"); }
        if (what != 3) sx_check(th, "documented exception"); else { sx_check(th, "second pop throws"); sx_stop(); }
        sx_check(t.isActive() && t.getPosition() == p && t.getNumVariables() == v && t.getNumOperations() == o && t.getNumStatements() == st && t.getNumCallbacks() == 1, "state unchanged");
        t.registerOutput(w); derivative(w) = s; t.computeAdjoints(); sx_eq(derivative(a), (4 * x + 1) * s, "derivative after the error"); })
    sx_check(alive == 0, "callback destroyed");
}
// ---- variables, containers and tapes in every order of destruction
extern "C" void h_mem_order()
{
    RD(x); RD(s); int k = sx_choice("order", 6);
    warm(); long before = sx_live();
    {
        auto t = std::unique_ptr<TP>(new TP); std::unique_ptr<AD> a(new AD(x)), b, c; std::unique_ptr<std::vector<AD>> v;
        t->registerInput(*a); t->newRecording(); b.reset(new AD(*a * 2.0)); v.reset(new std::vector<AD>(3, *b)); c.reset(new AD((*v)[0] * (*v)[2])); t->registerOutput(*c); derivative(*c) = s; t->computeAdjoints(); sx_eq(derivative(*a), 8 * x * s, "derivative");
        switch (k) { case 0: t.reset(); break; case 1: a.reset(); t.reset(); break; case 2: t->clearAll(); a.reset(); c.reset(); break; case 3: t->deactivate(); a.reset(); v.reset(); t->activate(); b.reset(); break; case 4: t->newRecording(); v.reset(); a.reset(); c.reset(); b.reset(); break; default: v.reset(); b.reset(); { TP u(std::move(*t)); a.reset(); t.reset(); c.reset(); } }
    }
    sx_check(sx_live() == before, "all memory is released"); plain(x, s);
}
// ---- running out of memory while the recording grows: reported, nothing leaks, usable after clearing
static double work(TP& t, double x, double s) { AD a = x; t.registerInput(a); t.newRecording(); AD y = a; for (int n = 0; n < 3; ++n) { AD w = y * a; y = w + a; } t.registerOutput(y); derivative(y) = s; t.computeAdjoints(); return derivative(a); }
extern "C" void h_mem_alloc()
{
    RD(x); RD(s); int k = sx_choice("failing allocation", 14), after = sx_choice("after", 3); double d = 4 * x * x * x + 3 * x * x + 2 * x + 1; d *= s;
    warm(); long before = sx_live();
    {
        bool th = false;
        try {
            sx_alloc_fail(k + 1); TP t;
            try { sx_eq(work(t, x, s), d, "derivative"); } catch (const std::bad_alloc&) { th = true; }
            sx_alloc_fail(0);
            if (th && after) { if (after == 1) t.clearAll(); else { TP u(std::move(t)); t = std::move(u); t.clearAll(); } sx_eq(work(t, x, s), d, "derivative after clearing"); }
        } catch (const std::bad_alloc&) { sx_alloc_fail(0); }
    }
    sx_check(TP::getActive() == nullptr, "no tape left active"); sx_check(sx_live() == before, "all memory is released"); plain(x, s);
}
// ---- counters: one statement per recorded assignment, one operation per recorded operand
extern "C" void h_mem_counters()
{
    RD(x); RD(y); TP t; AD a = x, b = y, c = 2.0; sx_check(t.getNumVariables() == 0 && t.getNumOperations() == 0, "empty tape"); t.registerInput(a); t.registerInput(b); t.registerInput(a); t.newRecording(); auto m0 = t.getMemory(); auto s0 = t.getNumStatements(); auto o0 = t.getNumOperations(); TP::size_type s = 0, o = 0, v = 2; std::vector<AD> keep; keep.reserve(16);
    for (int n = 0; n < 3; ++n) { switch (sx_choice("step", 6)) { case 0: keep.push_back(a * b); ++s; o += 2; ++v; break; case 1: keep.push_back(c + 1.0); break; case 2: keep.push_back(sin(a) * 2.0 + a); ++s; o += 2; ++v; break; case 3: keep.push_back(a + c * b - 3.0 * b); ++s; o += 3; ++v; break; case 4: if (!keep.empty()) { if (keep.back().shouldRecord()) --v; keep.pop_back(); } break; default: a = b; ++s; ++o; }
        sx_check(t.getNumStatements() == s0 + s && t.getNumOperations() == o0 + o && t.getNumVariables() == v, "counters"); }
    sx_check(t.getMemory() >= m0 + s * 2 * sizeof(unsigned) + o * (sizeof(RL) + sizeof(unsigned)), "memory"); auto m1 = t.getMemory(); (void)m1; t.clearAll(); sx_check(t.getNumOperations() == 0 && t.getNumVariables() == 0 && t.getMemory() <= m1, "after clearAll");
}
