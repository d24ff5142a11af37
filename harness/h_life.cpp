// Life of a tape: repeated recordings, repeated sweeps, clearing, counters.
#include "ad.hpp"
#include <memory>
#define RD(n) double n = sx_real(#n)
// a history of K steps on one tape; the reference keeps the coefficient of every variable w.r.t. the two inputs
template <int K> static void history(int first)
{
    TP t; double xv[2] = {sx_real("x0"), sx_real("x1")}; AD x[2] = {xv[0], xv[1]}; t.registerInput(x[0]); t.registerInput(x[1]); t.newRecording();
    std::vector<AD> v; std::vector<double> g0, g1; v.reserve(16); double acc[2] = {0, 0}; bool seeded = false; int nst = 0, nop = 0;
    std::vector<double> pend;   // pending adjoint per variable
    auto rec = [&](int k) { double c = sx_real("c"); if (k == 0 || v.empty()) { v.push_back(x[0] * c + x[1]); g0.push_back(c); g1.push_back(1); nop += 2; } else { AD& l = v.back(); double a = g0.back(), b = g1.back(); v.push_back(l * c + x[1] * 2.0); g0.push_back(a * c); g1.push_back(b * c + 2); nop += 2; } ++nst; pend.push_back(0); };
    auto sweep = [&]() { for (size_t i = 0; i < v.size(); ++i) { acc[0] += pend[i] * g0[i]; acc[1] += pend[i] * g1[i]; pend[i] = 0; } t.computeAdjoints(); };
    auto check = [&]() { sx_eq(derivative(x[0]), acc[0], "d/dx0"); sx_eq(derivative(x[1]), acc[1], "d/dx1"); for (size_t i = 0; i < v.size(); ++i) sx_eq(derivative(v[i]), pend[i], "pending"); seeded = true; };
    rec(0);
    for (int k = 0; k < K; ++k) {
        int op = k == 0 && first >= 0 ? first : sx_choice("op", 6);
        switch (op) {
          case 0: rec(0); break;
          case 1: rec(1); break;
          case 2: { size_t w = v.size() - 1; double s = sx_real("s"); derivative(v[w]) += s; pend[w] += s; seeded = true; } break;
          case 3: { bool thrown = false; if (!seeded) { try { t.computeAdjoints(); } catch (const xad::DerivativesNotInitialized&) { thrown = true; } sx_check(thrown, "nothing seeded: refuses"); } else { sweep(); check(); } } break;
          case 4: t.clearDerivatives(); acc[0] = acc[1] = 0; for (auto& p : pend) p = 0; seeded = false; break;
          case 5: v.clear(); g0.clear(); g1.clear(); pend.clear(); t.newRecording(); acc[0] = acc[1] = 0; seeded = false; nst = nop = 0; rec(0); break; }
        sx_check((int)t.getNumStatements() == nst, "number of statements"); sx_check((int)t.getNumOperations() == nop, "number of operations"); sx_check(t.getNumVariables() == 2 + v.size(), "number of variables");
    }
    size_t w = v.size() - 1; double s = sx_real("s"); derivative(v[w]) += s; pend[w] += s; sweep(); check(); sx_eq(value(x[0]), xv[0], "inputs keep their value"); sx_eq(value(x[1]), xv[1], "inputs keep their value");
}
extern "C" void h_hist_0() { history<3>(0); } extern "C" void h_hist_1() { history<3>(1); } extern "C" void h_hist_2() { history<3>(2); } extern "C" void h_hist_3() { history<3>(3); } extern "C" void h_hist_4() { history<3>(4); } extern "C" void h_hist_5() { history<3>(5); }
extern "C" void h_hist4_0_T() { history<4>(0); } extern "C" void h_hist4_2_T() { history<4>(2); } extern "C" void h_hist4_3_T() { history<4>(3); } extern "C" void h_hist4_5_T() { history<4>(5); }
// several outputs from one recording
extern "C" void h_multi_output()
{
    RD(a); RD(b); RD(c); TP t; AD x = a, y = b; t.registerInput(x); t.registerInput(y); t.newRecording(); AD o[3] = {x * y, x * c + y, y * y}; double ja[3] = {b, c, 0}, jb[3] = {a, 1, 2 * b}; for (auto& q : o) t.registerOutput(q);
    for (int i = 0; i < 3; ++i) { t.clearDerivatives(); derivative(o[i]) = 1.0; t.computeAdjoints(); sx_eq(derivative(x), ja[i], "row"); sx_eq(derivative(y), jb[i], "row"); }
    for (int i = 2; i >= 0; --i) { derivative(x) = 0.0; derivative(y) = 0.0; derivative(o[i]) = 1.0; t.computeAdjoints(); sx_eq(derivative(x), ja[i], "row again"); sx_eq(derivative(y), jb[i], "row again"); }
}
// a sequence of recordings with different inputs on one tape
extern "C" void h_rerecord()
{
    RD(s); TP t; AD x = 1.0; t.registerInput(x); for (int i = 0; i < 3; ++i) { double v = sx_real("x"), c = sx_real("c"); x = v; t.newRecording(); sx_check(t.getNumStatements() == 0 && t.getNumOperations() == 0, "empty"); AD y = x * c; int n = sx_choice("extra", 3); std::vector<AD> e; for (int k = 0; k < n; ++k) e.push_back(y * 2.0); AD z = y * x; t.registerOutput(z); derivative(z) = s; t.computeAdjoints(); sx_eq(derivative(x), 2 * c * v * s, "adjoint of this recording only"); sx_eq(value(z), c * v * v, "value"); }
}
extern "C" void h_rerecord_new_inputs()
{   // inputs created anew per round, as in a loop over paths
    RD(s); TP t; for (int i = 0; i < 3; ++i) { double v = sx_real("x"), c = sx_real("c"); AD x = v; t.registerInput(x); t.newRecording(); AD z = x * x * c; t.registerOutput(z); derivative(z) = s; t.computeAdjoints(); sx_eq(derivative(x), 2 * c * v * s, "adjoint"); sx_check(t.getNumVariables() == 2, "variables"); }
    sx_check(t.getNumVariables() == 0, "all gone");
}
extern "C" void h_clear_all()
{   // clearAll brings the tape to its initial state
    RD(s); TP t; for (int i = 0; i < 3; ++i) { { double v = sx_real("x"), c = sx_real("c"); AD x = v; t.registerInput(x); t.newRecording(); std::vector<AD> w; int n = sx_choice("n", 3); for (int k = 0; k < n; ++k) w.push_back(x * c); if (n) w.erase(w.begin()); AD z = x * x * c; t.registerOutput(z); derivative(z) = s; t.computeAdjoints(); sx_eq(derivative(x), 2 * c * v * s, "adjoint"); if (sx_choice("seedleft", 2)) derivative(z) = 5.0; }
      t.clearAll(); sx_check(t.getNumVariables() == 0 && t.getNumStatements() == 0 && t.getNumOperations() == 0 && t.isActive(), "initial state"); bool th = false; try { t.computeAdjoints(); } catch (const xad::DerivativesNotInitialized&) { th = true; } sx_check(th, "no derivatives"); th = false; try { t.derivative(0); } catch (const xad::OutOfRange&) { th = true; } sx_check(th, "no slots"); sx_check(t.registerVariable() == 0, "first slot again"); t.unregisterVariable(0); }
}
extern "C" void h_clear_all_during()
{   // variables destroyed after clearing
    RD(s); RD(a); TP t; { std::unique_ptr<AD> x(new AD(a)), y(new AD(a)); t.registerInput(*x); t.registerInput(*y); t.newRecording(); AD z = *x * *y; t.clearAll(); int k = sx_choice("k", 2); if (k) { x.reset(); y.reset(); } else { y.reset(); x.reset(); } } sx_check(t.getNumVariables() == 0, "none"); AD x = a; t.registerInput(x); AD w = a; t.registerInput(w); sx_check(x.getSlot() != w.getSlot(), "distinct"); t.newRecording(); AD z = x * w * 3.0; derivative(z) = s; t.computeAdjoints(); sx_eq(derivative(x), 3 * a * s, "adjoint"); sx_eq(derivative(w), 3 * a * s, "adjoint");
}
extern "C" void h_no_new_recording()
{   // recording starts with the tape; newRecording only marks a fresh start
    RD(a); RD(b); RD(s); TP t; AD x = a, y = b; t.registerInput(x); t.registerInput(y); AD z = x * y; derivative(z) = s; t.computeAdjoints(); sx_check(t.getNumStatements() == 3, "statements: two inputs and one product");
    AD w = z * x; t.newRecording(); AD u = w * 2.0; derivative(u) = s; t.computeAdjoints(); sx_eq(derivative(w), 2 * s, "earlier results are inputs of the new recording"); sx_eq(derivative(x), 0, "earlier statements are gone");
}
extern "C" void h_input_overwritten()
{   // overwriting an input during the recording: adjoint of the slot refers to the initial value
    RD(a); RD(c); RD(s); TP t; AD x = a; t.registerInput(x); t.newRecording(); AD y = x * c; x = y * x; x = x + 1.0; derivative(x) = s; t.computeAdjoints(); sx_eq(derivative(x), s * 2 * a * c, "adjoint of the initial value"); sx_eq(value(x), a * a * c + 1, "value");
}
extern "C" void h_counters()
{   // what is recorded: one statement per assignment of a dependent variable, one operation per recorded operand occurrence
    RD(a); RD(b); TP t; AD x = a, p = b; t.registerInput(x); t.newRecording(); auto n = [&]() { return t.getNumStatements(); }; auto o = [&]() { return t.getNumOperations(); };
    AD y = x * x; sx_check(n() == 1 && o() == 2, "x*x"); AD z = y * p; sx_check(n() == 2 && o() == 3, "passive operand not recorded"); z += 1.0; sx_check(n() == 2 && o() == 3, "adding a number records nothing"); z *= 2.0; sx_check(n() == 3 && o() == 4, "scaling"); AD w = p * 3.0; sx_check(n() == 3 && o() == 4, "passive"); w = x; sx_check(n() == 4 && o() == 5, "copy"); z = 1.0; sx_check(n() == 5 && o() == 5, "constant"); AD q = sin(x) * cos(y) + x; sx_check(n() == 6 && o() == 8, "expression"); AD m = std::move(q); sx_check(n() == 6 && o() == 8, "move");
    sx_check(t.getNumVariables() == 5, "variables"); if (t.getMemory() == 0) sx_check(0, "memory");
}
extern "C" void h_memory()
{   // reported memory grows with the recording and falls back
    RD(a); TP t; AD x = a; t.registerInput(x); t.newRecording(); auto m0 = t.getMemory(); AD y = x * x; auto m1 = t.getMemory(); sx_check(m1 >= m0 + 2 * (sizeof(RL) + sizeof(TP::slot_type)) + 2 * sizeof(TP::slot_type), "grows"); AD z = y * x; auto m2 = t.getMemory(); sx_check(m2 > m1, "grows"); t.newRecording(); sx_check(t.getMemory() <= m0, "falls back");
}
extern "C" void h_two_tapes()
{   // two tapes used alternately do not disturb each other
    RD(a); RD(b); RD(s); RD(r); TP t; AD x = a; t.registerInput(x); t.newRecording(); AD y = x * 2.0; t.deactivate(); TP u; AD p = b; u.registerInput(p); u.newRecording(); AD q = p * p; u.deactivate(); t.activate(); AD z = y * y; t.deactivate(); u.activate(); AD w = q * p; derivative(w) = s; u.computeAdjoints(); sx_eq(derivative(p), 3 * b * b * s, "second"); u.deactivate(); t.activate(); derivative(z) = r; t.computeAdjoints(); sx_eq(derivative(x), 8 * a * r, "first"); t.deactivate();
}
extern "C" void h_types()
{   // tapes of different types are independent and may be active at the same time
    RD(a); RD(s); TP t; TPf f; AD x = a; ADf g = 2.0f; t.registerInput(x); f.registerInput(g); t.newRecording(); f.newRecording(); AD y = x * x; ADf h = g * g; sx_check(t.isActive() && f.isActive(), "both active"); derivative(h) = 1.0f; f.computeAdjoints(); sx_check(derivative(g) == 4.0f, "float"); derivative(y) = s; t.computeAdjoints(); sx_eq(derivative(x), 2 * a * s, "double"); sx_check(t.getNumStatements() == 1 && f.getNumStatements() == 1, "separate");
}
