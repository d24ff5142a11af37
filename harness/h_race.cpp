// Two threads computing independently never touch common memory unless both only read (found symbolically, confirmed with the thread sanitizer).
#include "ad.hpp"
#include <list>
#define RD(n) double n = sx_real(#n)
struct In { double x, y, s, r[6]; int k; };
template <void (*P)(In&)> static void race(int kinds)
{
    RD(x0); RD(y0); RD(x1); RD(y1); RD(s); SXA(x0 > 0 && x1 > 0 && y0 > 0 && y1 > 0); int k = sx_choice("kind", kinds);
    In a{x0, y0, s, {}, k}, b{x1, y1, s, {}, k}, c{x1, y1, s, {}, k};
    sx_par([](void* p) { P(*(In*)p); }, &a, [](void* p) { P(*(In*)p); }, &b);
    P(c);
    for (int n = 0; n < 6; ++n) sx_eq(b.r[n], c.r[n], "concurrent result");
}
static void reverse(In& i) { TP t; AD a = i.x, b = i.y; t.registerInput(a); t.registerInput(b); t.newRecording(); std::vector<AD> v(3, a); for (auto& e : v) e = e * b + a; AD z = v[0] * v[1] - v[2]; if (i.k == 1) { AD q = z; z = q / b; } auto p = t.getPosition(); if (i.k == 2) { z *= a; t.registerOutput(z); derivative(z) = 1.0; t.computeAdjointsTo(p); t.resetTo(p); z = v[1]; t.clearDerivatives(); } t.registerOutput(z); derivative(z) = i.s; t.computeAdjoints(); i.r[0] = value(z); i.r[1] = derivative(a); i.r[2] = derivative(b); t.newRecording(); i.r[3] = t.getNumVariables(); t.clearAll(); }
static void math(In& i) { FD a(i.x, 1.0), b(i.y, i.s); FD z; switch (i.k) { case 0: z = sin(a) * exp(b) + log(a) / sqrt(b); break; case 1: z = pow(a, b) + atan2(a, b) + hypot(a, b); break; case 2: z = max(a, b) + erf(a) + cbrt(b) + tan(a); break; case 3: { int e; z = frexp(a, &e) + ldexp(b, 2); i.r[2] = e; break; } default: z = xad::smooth_abs(a) + xad::smooth_max(a, b) + floor(a) + tanh(b); } i.r[0] = value(z); i.r[1] = derivative(z); }
struct Cb : xad::CheckpointCallback<TP> { TP::slot_type in, out; double x; int k; void computeAdjoint(TP* t) override { double s = t->getAndResetOutputAdjoint(out); if (k == 0) { t->incrementAdjoint(in, s * 2 * x); return; } AD a = x; t->registerInput(a); xad::ScopedNestedRecording<TP> n(t); AD y = a * a; t->registerOutput(y); derivative(y) = s; t->computeAdjoints(); n.incrementAdjoint(in, derivative(a)); } };
static void chk(In& i) { TP t; AD a = i.x; t.registerInput(a); t.newRecording(); AD w = a * i.y; Cb* c = new Cb; c->in = w.getSlot(); c->x = value(w); c->k = i.k; AD z = c->x * c->x; t.registerOutput(z); c->out = z.getSlot(); t.pushCallback(c); t.insertCallback(c); AD y = z + w; t.registerOutput(y); derivative(y) = i.s; t.computeAdjoints(); i.r[0] = derivative(a); i.r[1] = value(y); }
static void drivers(In& i)
{
    std::vector<AD> x{i.x, i.y}; std::vector<FD> f{i.x, i.y}; std::vector<FAD> h{i.x, i.y};
    if (i.k == 0) { auto J = xad::computeJacobian(x, std::function<std::vector<AD>(std::vector<AD>&)>([](std::vector<AD>& v) -> std::vector<AD> { return {v[0] * v[1], v[0] - v[1]}; })); i.r[0] = J[0][0]; i.r[1] = J[1][1]; }
    else if (i.k == 1) { auto J = xad::computeJacobian(f, std::function<std::vector<FD>(std::vector<FD>&)>([](std::vector<FD>& v) -> std::vector<FD> { return {v[0] * v[1], v[0] - v[1]}; })); i.r[0] = J[0][1]; i.r[1] = J[1][0]; }
    else { auto H = xad::computeHessian(h, std::function<FAD(std::vector<FAD>&)>([](std::vector<FAD>& v) -> FAD { return v[0] * v[1] * v[1]; })); i.r[0] = H[0][1]; i.r[1] = H[1][1]; }
}
static void cplx(In& i) { TP t; std::complex<AD> a(2.0, 1.5), b(-0.5, 1.0); t.registerInput(a); t.registerInput(b); t.newRecording(); std::complex<AD> z = a * b + a; if (i.k == 1) z /= b; AD r = norm(z); t.registerOutput(r); derivative(r) = i.s; t.computeAdjoints(); i.r[0] = value(r); i.r[1] = derivative(a).real(); i.r[2] = derivative(b).imag(); }
extern "C" void h_race_reverse() { race<reverse>(3); }
extern "C" void h_race_math() { race<math>(5); }
extern "C" void h_race_chkpt() { race<chk>(2); }
extern "C" void h_race_drivers() { race<drivers>(3); }
extern "C" void h_race_complex() { race<cplx>(2); }
