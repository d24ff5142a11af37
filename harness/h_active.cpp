// Activation of tapes, error reporting and moving tapes.
#include "ad.hpp"
#include <memory>
template <class E, class F> static bool throws(F f) { try { f(); } catch (const E&) { return true; } return false; }
// every sequence of activation operations on two tapes agrees with the obvious state machine
template <int K> static void machine(int first)
{
    std::unique_ptr<TP> t[2]; t[0].reset(new TP(false)); t[1].reset(new TP(false)); int act = -1;
    for (int k = 0; k < K; ++k) {
        int op = k == 0 && first >= 0 ? first : sx_choice("op", 9), i = op & 1;
        if (op < 2) { if (!t[i]) continue; bool th = throws<xad::TapeAlreadyActive>([&] { t[i]->activate(); }); sx_check(th == (act != -1), "activate throws iff a tape is active"); if (!th) act = i; }
        else if (op < 4) { if (!t[i]) continue; t[i]->deactivate(); if (act == i) act = -1; }
        else if (op < 6) { if (!t[i]) continue; bool th = throws<xad::TapeAlreadyActive>([&] { TP::setActive(t[i].get()); }); sx_check(th == (act != -1), "setActive throws iff a tape is active"); if (!th) act = i; }
        else if (op == 6) { TP::deactivateAll(); act = -1; }
        else if (op == 7) { t[0].reset(); if (act == 0) act = -1; }
        else { bool th = false; try { TP u; sx_check(TP::getActive() == &u && u.isActive(), "new tape active"); } catch (const xad::TapeAlreadyActive&) { th = true; } sx_check(th == (act != -1), "constructing an active tape throws iff one is active"); }
        TP* e = act < 0 ? nullptr : t[act].get();
        sx_check(TP::getActive() == e, "active tape"); for (int j = 0; j < 2; ++j) if (t[j]) sx_check(t[j]->isActive() == (act == j), "isActive");
        bool th = false; try { AD x = 1.0; derivative(x) = 2.0; } catch (const xad::NoTapeException&) { th = true; } sx_check(th == (act < 0), "derivative access throws iff no tape is active");
    }
}
extern "C" void h_machine3() { machine<3>(-1); }
extern "C" void h_machine4_0() { machine<4>(0); } extern "C" void h_machine4_8() { machine<4>(8); } extern "C" void h_machine5_T() { machine<5>(0); }
extern "C" void h_other_types()
{   // tapes of different value types are independent
    TP a; TPf b; FTP c; ATP d; sx_check(a.isActive() && b.isActive() && c.isActive() && d.isActive(), "all active");
    a.deactivate(); sx_check(!a.isActive() && b.isActive() && c.isActive() && d.isActive(), "only one"); TPf::deactivateAll(); sx_check(!b.isActive() && c.isActive(), "only one"); a.activate(); sx_check(a.isActive() && !b.isActive(), "re-activated");
}
extern "C" void h_two_tapes()
{   // recording goes to the active tape, switching back and forth keeps both recordings intact
    double x0 = sx_real("x"), c = sx_real("c"), s = sx_real("s");
    TP a; AD x = x0; a.registerInput(x); a.newRecording(); AD y = x * c; a.deactivate();
    double dq; { TP b; AD p = x0; b.registerInput(p); b.newRecording(); AD q = p * p * c; unsigned n = a.getNumStatements(); sx_check(n == 1 && b.getNumStatements() == 1, "recorded on the active tape only"); derivative(q) = s; b.computeAdjoints(); dq = derivative(p); }
    sx_check(TP::getActive() == nullptr, "destroyed tape is not active");
    a.activate(); AD z = y * x; derivative(z) = s; a.computeAdjoints(); sx_eq(derivative(x), 2 * c * x0 * s, "first tape"); sx_eq(dq, 2 * c * x0 * s, "second tape");
}
extern "C" void h_not_active()
{   // without an active tape nothing is recorded and values are right
    double x0 = sx_real("x"), y0 = sx_real("y"); TP t(false); AD x = x0, y = y0; AD z = x * y + x; z += y * 2.0; z = z * z; AD w(z), v; v = w; v = std::move(w);
    double r = (x0 * y0 + x0 + 2 * y0); sx_eq(value(v), r * r, "value"); sx_check(t.getNumVariables() == 0 && t.getNumStatements() == 0 && t.getNumOperations() == 0, "nothing recorded"); sx_check(!x.shouldRecord() && !z.shouldRecord() && !v.shouldRecord(), "not recorded");
    sx_check(throws<xad::NoTapeException>([&] { (void)derivative(x); }), "no tape"); const AD cx = x0; sx_check(throws<xad::NoTapeException>([&] { (void)derivative(cx); }), "no tape"); sx_check(throws<xad::NoTapeException>([&] { (void)x.getDerivative(); }), "no tape"); sx_check(throws<xad::NoTapeException>([&] { x.setDerivative(1.0); }), "no tape"); sx_check(throws<xad::NoTapeException>([&] { x.setAdjoint(1.0); }), "no tape"); sx_check(throws<xad::NoTapeException>([&] { (void)x.getAdjoint(); }), "no tape");
    sx_eq(value(x), x0, "unchanged"); sx_check(!x.shouldRecord(), "unchanged");
}
extern "C" void h_unregistered()
{   // variables that are not inputs are constants: nothing recorded, derivative zero
    double x0 = sx_real("x"), y0 = sx_real("y"); TP t; t.newRecording(); const AD x = x0, y = y0; const AD z = x * y + sin(x); AD w = z; w = z * x; sx_check(t.getNumVariables() == 0 && t.getNumStatements() == 0 && t.getNumOperations() == 0, "nothing recorded");
    sx_eq(derivative(z), 0, "zero"); sx_eq(x.getDerivative(), 0, "zero"); sx_eq(z.getAdjoint(), 0, "zero"); sx_check(t.getNumVariables() == 0, "reading does not register");
}
extern "C" void h_not_initialised()
{   // computing adjoints without a seed is an error that leaves the recording usable
    double x0 = sx_real("x"), c = sx_real("c"), s = sx_real("s"); TP t; AD x = x0; t.registerInput(x); t.newRecording(); AD y = x * c; int cl = sx_choice("state", 4);
    if (cl == 1) { derivative(y) = 1.0; t.clearDerivatives(); } if (cl == 2) { derivative(y) = 1.0; t.newRecording(); y = x * c; } if (cl == 3) { derivative(y) = s; t.computeAdjoints(); t.clearDerivatives(); }
    unsigned st = t.getNumStatements(), op = t.getNumOperations(), nv = t.getNumVariables();
    sx_check(throws<xad::DerivativesNotInitialized>([&] { t.computeAdjoints(); }), "throws"); sx_check(st == t.getNumStatements() && op == t.getNumOperations() && nv == t.getNumVariables(), "unchanged");
    derivative(y) = s; t.computeAdjoints(); sx_eq(derivative(x), c * s, "usable afterwards");
}
extern "C" void h_out_of_range()
{
    double x0 = sx_real("x"), s = sx_real("s"), d = sx_real("d"); TP t; AD x = x0; t.registerInput(x); t.newRecording(); AD y = x * 2.0; int init = sx_choice("init", 2); if (init) derivative(y) = s;
    long slot = sx_long("slot", 3, 4294967295L); unsigned u = (unsigned)slot; 
    sx_check(throws<xad::OutOfRange>([&] { (void)t.derivative(u); }), "derivative"); sx_check(throws<xad::OutOfRange>([&] { t.setDerivative(u, d); }), "setDerivative"); 
    if (!init) derivative(y) = s; t.computeAdjoints(); sx_eq(derivative(x), 2 * s, "usable afterwards");
}
extern "C" void h_access_agrees()
{   // every accessor of adjoints rejects exactly the slots which do not exist
    double x0 = sx_real("x"), s = sx_real("s"), d = sx_real("d"); TP t; AD x = x0; t.registerInput(x); int early = sx_choice("early", 2); if (early) t.newRecording(); std::vector<AD> v; int n = sx_choice("n", 3); for (int i = 0; i < n; ++i) v.push_back(x * 2.0); if (!early) t.newRecording();
    AD y = x * 3.0; derivative(y) = s; long slot = sx_long("slot", 0, 4294967295L); unsigned u = (unsigned)slot; int how = sx_choice("how", 3);
    bool a = throws<xad::OutOfRange>([&] { if (how == 0) t.incrementAdjoint(u, d); else if (how == 1) (void)t.getAndResetOutputAdjoint(u); else t.setDerivative(u, d); }), b = throws<xad::OutOfRange>([&] { (void)t.derivative(u); });
    sx_check(a == b, "accessors agree"); if (slot == (long)y.getSlot() || slot == (long)x.getSlot()) sx_check(!a, "existing slot"); if (slot >= n + 3) sx_check(a, "slot which does not exist");
}
#ifndef NDEBUG
extern "C" void h_const_access()
{
    double x0 = sx_real("x"), s = sx_real("s"); TP t; AD x = x0; t.registerInput(x); t.newRecording(); AD y = x * 2.0; const TP& ct = t; const AD& cy = y;
    sx_check(throws<xad::DerivativesNotInitialized>([&] { (void)ct.getDerivative(0); }), "not initialised"); 
    derivative(y) = s; sx_eq(ct.getDerivative(y.getSlot()), s, "const access"); sx_eq(ct.derivative(y.getSlot()), s, "const access"); long slot = sx_long("slot", 3, 4294967295L); sx_check(throws<xad::OutOfRange>([&] { (void)ct.derivative((unsigned)slot); }), "out of range"); sx_check(throws<xad::OutOfRange>([&] { (void)ct.getDerivative((unsigned)slot); }), "out of range");
}
#endif
extern "C" void h_exception_types()
{
    int which = sx_choice("which", 4); bool base = false, rt = false; TP t; AD x = 1.0; t.registerInput(x);
    auto f = [&] { if (which == 0) { TP u; } else if (which == 1) { (void)t.derivative(77u); } else if (which == 2) t.computeAdjoints(); else { t.deactivate(); (void)derivative(x); } };
    try { f(); } catch (const xad::Exception& e) { base = true; sx_check(e.what()[0] != 0, "message"); } if (which == 3) t.activate(); try { f(); } catch (const std::runtime_error&) { rt = true; } sx_check(base && rt, "exception hierarchy"); if (which == 3) t.activate();
}
// ---- moving tapes: the recording moves along and goes on
static void check_go_on(TP& b, AD& x, AD& y, double x0, double c, double s)
{
    AD z = y * x; { AD q = z * 2.0; z = q + y; } derivative(z) = s; b.computeAdjoints(); sx_eq(derivative(x), s * (4 * c * x0 + c), "recording continues"); 
    b.clearDerivatives(); derivative(y) = s; b.computeAdjoints(); sx_eq(derivative(x), s * c, "again");
}
extern "C" void h_move_inactive()
{
    double x0 = sx_real("x"), c = sx_real("c"), s = sx_real("s"); TP a; AD x = x0; a.registerInput(x); a.newRecording(); AD y = x * c; unsigned n = a.getNumVariables(), st = a.getNumStatements(), op = a.getNumOperations(); a.deactivate();
    TP b(std::move(a)); sx_check(!b.isActive() && TP::getActive() == nullptr, "stays inactive"); sx_check(b.getNumVariables() == n && b.getNumStatements() == st && b.getNumOperations() == op, "contents"); b.activate(); check_go_on(b, x, y, x0, c, s);
}
extern "C" void h_move_active()
{
    double x0 = sx_real("x"), c = sx_real("c"), s = sx_real("s"); TP a; AD x = x0; a.registerInput(x); a.newRecording(); AD y = x * c;
    TP b(std::move(a)); sx_check(b.isActive() && !a.isActive() && TP::getActive() == &b, "the new tape is the active one"); check_go_on(b, x, y, x0, c, s);
}
extern "C" void h_moveassign_inactive()
{
    double x0 = sx_real("x"), c = sx_real("c"), s = sx_real("s"); TP b(false); int used = sx_choice("used", 2); if (used) { b.activate(); AD p = 1.0; b.registerInput(p); AD q = p * 2.0; b.deactivate(); }
    TP a; AD x = x0; a.registerInput(x); a.newRecording(); AD y = x * c; unsigned n = a.getNumVariables(); a.deactivate();
    b = std::move(a); sx_check(!b.isActive(), "stays inactive"); sx_check(b.getNumVariables() == n, "contents"); b.activate(); check_go_on(b, x, y, x0, c, s);
}
extern "C" void h_moveassign_active()
{
    double x0 = sx_real("x"), c = sx_real("c"), s = sx_real("s"); TP b(false); TP a; AD x = x0; a.registerInput(x); a.newRecording(); AD y = x * c; int k = sx_choice("seeded", 2); if (k) derivative(y) = 3.0;
    b = std::move(a); sx_check(b.isActive() && !a.isActive() && TP::getActive() == &b, "the assigned tape is the active one"); b.clearDerivatives(); check_go_on(b, x, y, x0, c, s);
}
extern "C" void h_moveassign_onto_active()
{   // assigning an inactive tape to the active one
    double x0 = sx_real("x"), c = sx_real("c"), s = sx_real("s"); TP a; AD x = x0; a.registerInput(x); a.newRecording(); AD y = x * c; a.deactivate();
    TP b; b = std::move(a); sx_check(!b.isActive() && TP::getActive() == nullptr, "takes over the activation state"); b.activate(); check_go_on(b, x, y, x0, c, s);
}
extern "C" void h_move_freed()
{   // with destroyed variables at the time of the move, and more destroyed afterwards
    double x0 = sx_real("x"), c = sx_real("c"), s = sx_real("s"); TP a; AD x = x0; a.registerInput(x); a.newRecording(); AD y = x * c; std::unique_ptr<AD> v[4]; for (auto& q : v) q.reset(new AD(y * 2.0));
    int f = sx_choice("f", 5), g = sx_choice("g", 5); if (f < 4) v[f].reset(); int how = sx_choice("how", 2); TP d(false); a.deactivate(); std::unique_ptr<TP> m; TP* b; if (how) { m.reset(new TP(std::move(a))); b = m.get(); } else { d = std::move(a); b = &d; } b->activate();
    if (g < 4) v[g].reset(); AD p = y * 3.0, q = y * 5.0; for (int i = 0; i < 4; ++i) if (v[i]) sx_check(v[i]->getSlot() != p.getSlot() && v[i]->getSlot() != q.getSlot(), "distinct"); sx_check(p.getSlot() != q.getSlot() && p.getSlot() != y.getSlot() && q.getSlot() != y.getSlot(), "distinct");
    for (auto& r : v) r.reset(); derivative(p) = s; derivative(q) = 1.0; b->computeAdjoints(); sx_eq(derivative(x), c * (3 * s + 5), "adjoint"); b->deactivate();
}
extern "C" void h_move_higher()
{   // tapes of active type
    double x0 = sx_real("x"); TP ti; AD in = x0; ti.registerInput(in); ti.newRecording(); ATP a; AAD x; value(x) = in; a.registerInput(x); a.newRecording(); AAD y = x * x * x; a.deactivate(); ATP b(std::move(a)); b.activate(); derivative(y) = 1.0; b.computeAdjoints(); AD dx = derivative(x); derivative(dx) = 1.0; ti.computeAdjoints(); sx_eq(derivative(in), 6 * x0, "second derivative");
}
extern "C" void h_move_empty()
{
    TP a(false); TP b(std::move(a)); sx_check(b.getNumVariables() == 0 && b.getNumStatements() == 0 && !b.isActive(), "empty"); b.activate(); double x0 = sx_real("x"); AD x = x0; b.registerInput(x); b.newRecording(); AD y = x * x; derivative(y) = 1.0; b.computeAdjoints(); sx_eq(derivative(x), 2 * x0, "usable");
}
extern "C" void h_move_nested_callbacks()
{   // owned callbacks move along and are destroyed exactly once; those of the target are not lost
    struct Cb : xad::CheckpointCallback<TP> { int* n; Cb(int* p) : n(p) { ++*n; } ~Cb() { --*n; } void computeAdjoint(TP*) override {} }; int n = 0; int k = sx_choice("k", 3), m = sx_choice("m", 3), how = sx_choice("how", 2);
    { TP a(false); for (int i = 0; i < k; ++i) a.pushCallback(new Cb(&n)); if (how) { TP b(std::move(a)); sx_check((int)b.getNumCallbacks() == k, "moved"); } else { TP b(false); for (int i = 0; i < m; ++i) b.pushCallback(new Cb(&n)); b = std::move(a); sx_check((int)b.getNumCallbacks() == k, "moved"); } }
    sx_check(n == 0, "all callbacks destroyed exactly once");
}
