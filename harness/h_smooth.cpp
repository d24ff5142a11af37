// Smoothed functions: values as documented, exact first and second derivatives, joins, bounds, every operand kind.
#include "ad.hpp"
using xad::smooth_abs; using xad::smooth_max; using xad::smooth_min;
#define RD(n) double n = sx_real(#n)
struct S { double v, x, c, xx, xc, cc; };    // value and derivatives with respect to the argument and the cut-off
static S ref(double x, double c)
{
    if (x > c || x < -c) return {x < 0 ? -x : x, x < 0 ? -1.0 : 1.0, 0, 0, 0, 0};
    if (x >= 0) return {x * x * (2 / c - x / (c * c)), 4 * x / c - 3 * x * x / (c * c), x * x * (-2 / (c * c) + 2 * x / (c * c * c)), 4 / c - 6 * x / (c * c), -4 * x / (c * c) + 6 * x * x / (c * c * c), x * x * (4 / (c * c * c) - 6 * x / (c * c * c * c))};
    return {x * x * (2 / c + x / (c * c)), 4 * x / c + 3 * x * x / (c * c), x * x * (-2 / (c * c) - 2 * x / (c * c * c)), 4 / c + 6 * x / (c * c), -4 * x / (c * c) - 6 * x * x / (c * c * c), x * x * (4 / (c * c * c) + 6 * x / (c * c * c * c))};
}
// passive functions
extern "C" void h_passive() { RD(x); RD(c); SXA(c > 0); S e = ref(x, c); sx_eq(smooth_abs(x, c), e.v, "smooth_abs"); S d = ref(x, 0.001); sx_eq(smooth_abs(x), d.v, "default cut-off"); }
extern "C" void h_passive_maxmin() { RD(x); RD(y); RD(c); SXA(c > 0); S e = ref(x - y, c), d = ref(x - y, 0.001); sx_eq(smooth_max(x, y, c), 0.5 * (x + y + e.v), "smooth_max"); sx_eq(smooth_min(x, y, c), 0.5 * (x + y - e.v), "smooth_min"); sx_eq(smooth_max(x, y), 0.5 * (x + y + d.v), "smooth_max default"); sx_eq(smooth_min(x, y), 0.5 * (x + y - d.v), "smooth_min default"); }
extern "C" void h_bounds() { RD(x); RD(c); SXA(c > 0); AD a = x; double v = value(smooth_abs(a, c)); double m = x < 0 ? -x : x; sx_check(v >= 0, "not negative"); sx_check(v <= m, "not above the absolute value"); sx_check(27 * (m - v) <= 4 * c, "within 4/27 of the cut-off"); FD f = -a.getValue(); sx_eq(value(smooth_abs(f, c)), v, "even"); }
extern "C" void h_join() { RD(c); SXA(c > 0); int k = sx_choice("where", 3), m = sx_choice("mode", 2); double x = k == 0 ? c : k == 1 ? -c : 0.0; double e = k == 0 ? 1 : k == 1 ? -1 : 0, v = k == 2 ? 0 : c; if (m) { FD a(x, 1.0), y = smooth_abs(a, c); sx_eq(value(y), v, "value at the join"); sx_eq(derivative(y), e, "derivative at the join"); } else { TP t; AD a = x, cc = c; t.registerInput(a); t.registerInput(cc); t.newRecording(); AD y = smooth_abs(a, cc); t.registerOutput(y); derivative(y) = 1; t.computeAdjoints(); sx_eq(value(y), v, "value at the join"); sx_eq(derivative(a), e, "derivative at the join"); sx_eq(derivative(cc), 0, "derivative of the cut-off at the join"); } }
// every operand kind; 0..: which function, passive operands p/q of the same value
enum { AA, AE, EA, EE, AP, PA, EP, PE, A1, E1, NK };
template <class T> static T sabs(int k, const T& x, const T& c, double px, double pc)
{
    switch (k) { case AA: return smooth_abs(x, c); case AE: return smooth_abs(x, c * 2.0); case EA: return smooth_abs(x * 2.0, c); case EE: return smooth_abs(x * 2.0, c * 2.0); case AP: return smooth_abs(x, pc); case PA: return smooth_abs(px, c); case EP: return smooth_abs(x * 2.0, pc); case PE: return smooth_abs(px, c * 2.0); case A1: return smooth_abs(x); default: return smooth_abs(x * 2.0); }
}
static S rabs(int k, double x, double c, double& fx, double& fc)   // factors of the chain rule
{
    fx = k == EA || k == EE || k == EP || k == E1 ? 2 : k == PA || k == PE ? 0 : 1; fc = k == AE || k == EE || k == PE ? 2 : k == AP || k == EP || k == A1 || k == E1 ? 0 : 1;
    return ref(fx == 2 ? 2 * x : x, k == A1 || k == E1 ? RL(0.001) : fc == 2 ? 2 * c : c);
}
extern "C" void h_abs_rev() { int k = sx_choice("kind", NK); RD(x); RD(c); double s = sx_real("seed"); SXA(c > 0); double fx, fc; S e = rabs(k, x, c, fx, fc); TP t; AD a = x, b = c; t.registerInput(a); t.registerInput(b); t.newRecording(); AD y = sabs<AD>(k, a, b, x, c); sx_eq(value(y), e.v, "value"); t.registerOutput(y); derivative(y) = s; t.computeAdjoints(); sx_eq(derivative(a), s * fx * e.x, "adjoint of the argument"); sx_eq(derivative(b), s * fc * e.c, "adjoint of the cut-off"); }
extern "C" void h_abs_fwd() { int k = sx_choice("kind", NK); RD(x); RD(c); RD(dx); RD(dc); SXA(c > 0); double fx, fc; S e = rabs(k, x, c, fx, fc); FD a(x, dx), b(c, dc); FD y = sabs<FD>(k, a, b, x, c); sx_eq(value(y), e.v, "value"); sx_eq(derivative(y), dx * fx * e.x + dc * fc * e.c, "derivative"); }
// smooth_max / smooth_min
template <class T> static T mm(bool mx, int k, const T& x, const T& y, const T& c, double px, double py, double pc)
{
#define MM(...) return mx ? T(smooth_max(__VA_ARGS__)) : T(smooth_min(__VA_ARGS__))
    switch (k) { case 0: MM(x, y, c); case 1: MM(x, y, pc); case 2: MM(x, y); case 3: MM(x, py, pc); case 4: MM(px, y, pc); case 5: MM(x * 2.0, y, pc); case 6: MM(x, y * 2.0); case 7: MM(x, py); case 8: MM(px, y); default: MM(x, py, c); }
}
static void mmref(bool mx, int k, double x, double y, double c, double* g, double& v)
{
    double fx = k == 5 ? 2 : k == 4 || k == 8 ? 0 : 1, fy = k == 6 ? 2 : k == 3 || k == 7 || k == 9 ? 0 : 1, fc = k == 0 || k == 9 ? 1 : 0; double X = k == 5 ? 2 * x : x, Y = k == 6 ? 2 * y : y; S e = ref(X - Y, k == 2 || k == 6 || k == 7 || k == 8 ? RL(0.001) : c); double s = mx ? 1 : -1;
    v = 0.5 * (X + Y + s * e.v); g[0] = 0.5 * fx * (1 + s * e.x); g[1] = 0.5 * fy * (1 - s * e.x); g[2] = 0.5 * fc * s * e.c;
}
extern "C" void h_maxmin_rev() { bool mx = sx_choice("max", 2); int k = sx_choice("kind", 10); RD(x); RD(y); RD(c); double s = sx_real("seed"); SXA(c > 0); double g[3], v; mmref(mx, k, x, y, c, g, v); TP t; AD a = x, b = y, d = c; t.registerInput(a); t.registerInput(b); t.registerInput(d); t.newRecording(); AD r = mm<AD>(mx, k, a, b, d, x, y, c); sx_eq(value(r), v, "value"); t.registerOutput(r); derivative(r) = s; t.computeAdjoints(); sx_eq(derivative(a), s * g[0], "adjoint"); sx_eq(derivative(b), s * g[1], "adjoint"); sx_eq(derivative(d), s * g[2], "adjoint of the cut-off"); }
extern "C" void h_maxmin_fwd() { bool mx = sx_choice("max", 2); int k = sx_choice("kind", 10), j = sx_choice("dir", 3); RD(x); RD(y); RD(c); double s = sx_real("s"); SXA(c > 0); double g[3], v; mmref(mx, k, x, y, c, g, v); FD a(x, j == 0 ? s : 0.0), b(y, j == 1 ? s : 0.0), d(c, j == 2 ? s : 0.0); FD r = mm<FD>(mx, k, a, b, d, x, y, c); sx_eq(value(r), v, "value"); sx_eq(derivative(r), s * g[j], "derivative"); }
extern "C" void h_sum() { RD(x); RD(y); RD(c); SXA(c > 0); AD a = x, b = y; sx_eq(value(smooth_max(a, b, c)) + value(smooth_min(a, b, c)), x + y, "maximum plus minimum"); sx_eq(value(smooth_max(a, b, c)), value(smooth_max(b, a, c)), "symmetric"); sx_check(value(smooth_max(a, b, c)) <= (x > y ? x : y) && value(smooth_min(a, b, c)) >= (x < y ? x : y), "between the operands' mean and the exact function"); }
// second order (off the joins, where it does not exist)
extern "C" void h_second_ff() { int k = sx_choice("kind", 3), i = sx_choice("i", 2), j = sx_choice("j", 2); RD(x); RD(c); SXA(c > 0); SXA(x != c && x != -c); S e = ref(x, c); FFD a = x, b = c; if (i == 0) value(derivative(a)) = 1; else value(derivative(b)) = 1; if (j == 0) derivative(value(a)) = 1; else derivative(value(b)) = 1;
    FFD y; if (k == 0) y = smooth_abs(a, b); else if (k == 1) y = smooth_abs(a, c); else y = smooth_abs(x, b); double h = i == 0 && j == 0 ? e.xx : i == 1 && j == 1 ? e.cc : e.xc; if (k == 1 && (i || j)) h = 0; if (k == 2 && (!i || !j)) h = 0; sx_eq(value(value(y)), e.v, "value"); sx_eq(derivative(derivative(y)), h, "second derivative"); }
extern "C" void h_second_fa() { int k = sx_choice("kind", 3), j = sx_choice("j", 2); RD(x); RD(c); SXA(c > 0); SXA(x != c && x != -c); S e = ref(x, c); FTP t; FAD a = x, b = c; if (j == 0) derivative(value(a)) = 1; else derivative(value(b)) = 1; t.registerInput(a); t.registerInput(b); t.newRecording(); FAD y; if (k == 0) y = smooth_abs(a, b); else if (k == 1) y = smooth_abs(a, c); else y = smooth_abs(x, b); t.registerOutput(y); value(derivative(y)) = 1; t.computeAdjoints();
    double hx = j ? e.xc : e.xx, hc = j ? e.cc : e.xc; if (k == 1 && j) hx = 0; if (k == 2) { hx = 0; if (!j) hc = 0; } if (k == 1) hc = 0; sx_eq(derivative(derivative(a)), hx, "second derivative"); sx_eq(derivative(derivative(b)), hc, "second derivative"); sx_eq(value(derivative(a)), k == 2 ? 0 : e.x, "first derivative"); sx_eq(value(derivative(b)), k == 1 ? 0 : e.c, "first derivative"); }
#ifndef SX_FLOAT
extern "C" void h_passive_ieee() { RD(x); int k = sx_choice("c", 3); double c = k == 0 ? 0.001 : k == 1 ? 0.5 : 4.0; AD a = x; FD f = x; sx_same(value(smooth_abs(a, c)), smooth_abs(x, c), "active and passive value"); sx_same(value(smooth_abs(f, c)), smooth_abs(x, c), "active and passive value"); }
extern "C" void h_float() { float x = sx_realf("x"), c = sx_realf("c"); SXA(c > 0); S e = ref(x, c); sx_eq(smooth_abs(x, c), e.v, "float smooth_abs"); ADf a = x; sx_eq(value(smooth_abs(a, c)), e.v, "active float smooth_abs"); sx_eq(smooth_max(x, c, 1.0f), 0.5 * (x + c + ref(x - c, 1.0).v), "float smooth_max"); sx_eq(smooth_min(x, c, 1.0f), 0.5 * (x + c - ref(x - c, 1.0).v), "float smooth_min"); }
#endif
