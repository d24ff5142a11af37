// Binary functions of two active arguments: value and both partial derivatives, adjoint and forward mode,
// operands being variables or expressions, or the same variable twice.
#include "ad.hpp"
static double absd(double x) { return x < 0 ? -x : x; }
static double rne_quot(double a, double b) { return std::rint(a / b); }
static double sabs(double x, double c) { return absd(x) > c ? absd(x) : x * x * (2 / c - absd(x) / (c * c)); }
static double sabs_x(double x, double c) { double s = x < 0 ? -1 : 1, t = absd(x); return t > c ? s : s * (4 * t / c - 3 * t * t / (c * c)); }
static double sabs_c(double x, double c) { double t = absd(x); return t > c ? 0 : 2 * x * x * (t - c) / (c * c * c); }
// V, DA, DB in terms of u, v
#define B(NAME, CALL, DOM, V, DA, DB) \
  extern "C" void h_##NAME##_rev() { double u = sx_real("a"), v = sx_real("b"), s = sx_real("seed"); SXA(DOM); \
    R2 r = rev2([](auto& z, auto& a, auto& b) { using namespace xad; z = CALL(a, b); }, u, v, s); sx_eq(r.v, (V), "value"); sx_eq(r.da, s * (DA), "d/da"); sx_eq(r.db, s * (DB), "d/db"); } \
  extern "C" void h_##NAME##_fwd() { double u = sx_real("a"), v = sx_real("b"), s = sx_real("seeda"), q = sx_real("seedb"); SXA(DOM); \
    R1 r = fwd2([](auto& z, auto& a, auto& b) { using namespace xad; z = CALL(a, b); }, u, v, s, q); sx_eq(r.v, (V), "value"); sx_eq(r.d, s * (DA) + q * (DB), "tangent"); } \
  extern "C" void h_##NAME##_rev_expr() { double x = sx_real("a"), y = sx_real("b"), s = sx_real("seed"); double u = 2 * x, v = y - 1; SXA(DOM); \
    R2 r = rev2([](auto& z, auto& a, auto& b) { using namespace xad; z = 3.0 * CALL(a * 2.0, b - 1.0); }, x, y, s); sx_eq(r.v, 3 * (V), "value"); sx_eq(r.da, 6 * s * (DA), "d/da"); sx_eq(r.db, 3 * s * (DB), "d/db"); } \
  extern "C" void h_##NAME##_fwd_expr() { double x = sx_real("a"), y = sx_real("b"), s = sx_real("seeda"), q = sx_real("seedb"); double u = 2 * x, v = y - 1; SXA(DOM); \
    R1 r = fwd2([](auto& z, auto& a, auto& b) { using namespace xad; z = 3.0 * CALL(a * 2.0, b - 1.0); }, x, y, s, q); sx_eq(r.v, 3 * (V), "value"); sx_eq(r.d, 6 * s * (DA) + 3 * q * (DB), "tangent"); } \
  extern "C" void h_##NAME##_rev_ve() { double u = sx_real("a"), y = sx_real("b"), s = sx_real("seed"); double v = 2 * y; SXA(DOM); \
    R2 r = rev2([](auto& z, auto& a, auto& b) { using namespace xad; z = CALL(a, b * 2.0); }, u, y, s); sx_eq(r.v, (V), "value"); sx_eq(r.da, s * (DA), "d/da"); sx_eq(r.db, 2 * s * (DB), "d/db"); } \
  extern "C" void h_##NAME##_rev_ev() { double x = sx_real("a"), v = sx_real("b"), s = sx_real("seed"); double u = 2 * x; SXA(DOM); \
    R2 r = rev2([](auto& z, auto& a, auto& b) { using namespace xad; z = CALL(a * 2.0, b); }, x, v, s); sx_eq(r.v, (V), "value"); sx_eq(r.da, 2 * s * (DA), "d/da"); sx_eq(r.db, s * (DB), "d/db"); } \
  extern "C" void h_##NAME##_rev_same() { double x = sx_real("a"), s = sx_real("seed"); double u = x, v = x; SXA(DOM); \
    R1 r = rev([](auto& z, auto& a) { using namespace xad; z = CALL(a, a); }, x, s); sx_eq(r.v, (V), "value"); sx_eq(r.d, s * ((DA) + (DB)), "d/da+d/db"); }
#define ADD(a, b) ((a) + (b))
#define SUB(a, b) ((a) - (b))
#define MUL(a, b) ((a) * (b))
#define DIV(a, b) ((a) / (b))
#define ALL 1
#define TIE_A(X) ((u X v) ? 1.0 : (v X u) ? 0.0 : 0.5)
#define TIE_B(X) ((v X u) ? 1.0 : (u X v) ? 0.0 : 0.5)
B(add, ADD, ALL, u + v, 1, 1)
B(sub, SUB, ALL, u - v, 1, -1)
B(mul, MUL, ALL, u * v, v, u)
B(div, DIV, v != 0, u / v, 1 / v, -u / (v * v))
B(pow, pow, u > 0, std::pow(u, v), v * std::pow(u, v - 1), std::log(u) * std::pow(u, v))
B(max, max, ALL, (u < v ? v : u), TIE_A(>), TIE_B(>))
B(min, min, ALL, (u < v ? u : v), TIE_A(<), TIE_B(<))
B(fmax, fmax, ALL, (u < v ? v : u), TIE_A(>), TIE_B(>))
B(fmin, fmin, ALL, (u < v ? u : v), TIE_A(<), TIE_B(<))
B(fmod, fmod, v != 0, std::fmod(u, v), 1, -std::trunc(u / v))
B(atan2, atan2, u != 0 || v != 0, std::atan2(u, v), v / (u * u + v * v), -u / (u * u + v * v))
B(hypot, hypot, u != 0 || v != 0, std::hypot(u, v), u / std::hypot(u, v), v / std::hypot(u, v))
B(smooth_abs, smooth_abs, v > 0, sabs(u, v), sabs_x(u, v), sabs_c(u, v))
B(nextafter, nextafter, ALL, std::nextafter(u, v), 1, 0)
// remainder / remquo: u = v * (n + f) with |f| < 1/2, so that n is the rounded quotient
#define QUOT double v = sx_real("b"), f = sx_real("f"); int n = sx_conc(sx_int("n", -20, 20)); SXA(v != 0 && f > -0.5 && f < 0.5); double u = v * (n + f)
extern "C" void h_remainder_rev() { QUOT; double s = sx_real("seed");
  R2 r = rev2([](auto& z, auto& a, auto& b) { using namespace xad; z = remainder(a, b); }, u, v, s); sx_eq(r.v, u - n * v, "value"); sx_eq(r.da, s, "d/da"); sx_eq(r.db, -s * n, "d/db"); }
extern "C" void h_remainder_fwd() { QUOT; double s = sx_real("seeda"), t = sx_real("seedb");
  R1 r = fwd2([](auto& z, auto& a, auto& b) { using namespace xad; z = remainder(a, b); }, u, v, s, t); sx_eq(r.v, u - n * v, "value"); sx_eq(r.d, s - t * n, "tangent"); }
extern "C" void h_remainder_rev_expr() { QUOT; double s = sx_real("seed"), x = u / 2, y = v + 1;
  R2 r = rev2([](auto& z, auto& a, auto& b) { using namespace xad; z = 3.0 * remainder(a * 2.0, b - 1.0); }, x, y, s); sx_eq(r.v, 3 * (u - n * v), "value"); sx_eq(r.da, 6 * s, "d/da"); sx_eq(r.db, -3 * s * n, "d/db"); }
extern "C" void h_remainder_fwd_expr() { QUOT; double s = sx_real("seeda"), t = sx_real("seedb"), x = u / 2, y = v + 1;
  R1 r = fwd2([](auto& z, auto& a, auto& b) { using namespace xad; z = 3.0 * remainder(a * 2.0, b - 1.0); }, x, y, s, t); sx_eq(r.v, 3 * (u - n * v), "value"); sx_eq(r.d, 6 * s - 3 * t * n, "tangent"); }
extern "C" void h_remainder_rev_same() { double x = sx_real("a"), s = sx_real("seed"); SXA(x != 0);
  R1 r = rev([](auto& z, auto& a) { using namespace xad; z = remainder(a, a); }, x, s); sx_eq(r.v, 0, "value"); sx_eq(r.d, 0, "derivative"); }
extern "C" void h_remquo_rev() { QUOT; double s = sx_real("seed"); int q = 0;
  R2 r = rev2([&q](auto& z, auto& a, auto& b) { using namespace xad; z = remquo(a, b, &q); }, u, v, s); sx_eq(r.v, u - n * v, "value"); sx_check((q - n) % 8 == 0, "quotient"); sx_eq(r.da, s, "d/da"); sx_eq(r.db, -s * n, "d/db"); }
extern "C" void h_remquo_fwd() { QUOT; double s = sx_real("seeda"), t = sx_real("seedb"); int q = 0;
  R1 r = fwd2([&q](auto& z, auto& a, auto& b) { using namespace xad; z = remquo(a, b, &q); }, u, v, s, t); sx_eq(r.v, u - n * v, "value"); sx_check((q - n) % 8 == 0, "quotient"); sx_eq(r.d, s - t * n, "tangent"); }
extern "C" void h_remquo_rev_expr() { QUOT; double s = sx_real("seed"), x = u / 2, y = v + 1; int q = 0;
  R2 r = rev2([&q](auto& z, auto& a, auto& b) { using namespace xad; z = 3.0 * remquo(a * 2.0, b - 1.0, &q); }, x, y, s); sx_eq(r.v, 3 * (u - n * v), "value"); sx_check((q - n) % 8 == 0, "quotient"); sx_eq(r.da, 6 * s, "d/da"); sx_eq(r.db, -3 * s * n, "d/db"); }
// smooth_max / smooth_min, default and explicit smoothing width
extern "C" void h_smooth_max_rev() { double u = sx_real("a"), v = sx_real("b"), s = sx_real("seed"), c = sx_real("c"); SXA(c > 0);
  R2 r = rev2([c](auto& z, auto& a, auto& b) { using namespace xad; z = smooth_max(a, b, c); }, u, v, s); sx_eq(r.v, 0.5 * (u + v + sabs(u - v, c)), "value");
  sx_eq(r.da, s * 0.5 * (1 + sabs_x(u - v, c)), "d/da"); sx_eq(r.db, s * 0.5 * (1 - sabs_x(u - v, c)), "d/db"); }
extern "C" void h_smooth_min_rev() { double u = sx_real("a"), v = sx_real("b"), s = sx_real("seed"), c = sx_real("c"); SXA(c > 0);
  R2 r = rev2([c](auto& z, auto& a, auto& b) { using namespace xad; z = smooth_min(a, b, c); }, u, v, s); sx_eq(r.v, 0.5 * (u + v - sabs(u - v, c)), "value");
  sx_eq(r.da, s * 0.5 * (1 - sabs_x(u - v, c)), "d/da"); sx_eq(r.db, s * 0.5 * (1 + sabs_x(u - v, c)), "d/db"); }
extern "C" void h_smooth_max_rev_dflt() { double u = sx_real("a"), v = sx_real("b"), s = sx_real("seed"), c = RL(0.001); SXA(s > -100 && s < 100);
  R2 r = rev2([](auto& z, auto& a, auto& b) { using namespace xad; z = smooth_max(a, b); }, u, v, s); sx_eq(r.v, 0.5 * (u + v + sabs(u - v, c)), "value");
  sx_eq(r.da, s * 0.5 * (1 + sabs_x(u - v, c)), "d/da"); sx_eq(r.db, s * 0.5 * (1 - sabs_x(u - v, c)), "d/db"); }
extern "C" void h_smooth_min_fwd_dflt() { double u = sx_real("a"), v = sx_real("b"), s = sx_real("seeda"), t = sx_real("seedb"), c = RL(0.001); SXA(s > -100 && s < 100 && t > -100 && t < 100);
  R1 r = fwd2([](auto& z, auto& a, auto& b) { using namespace xad; z = smooth_min(a, b); }, u, v, s, t); sx_eq(r.v, 0.5 * (u + v - sabs(u - v, c)), "value");
  sx_eq(r.d, s * 0.5 * (1 - sabs_x(u - v, c)) + t * 0.5 * (1 + sabs_x(u - v, c)), "tangent"); }
extern "C" void h_smooth_max_fwd() { double u = sx_real("a"), v = sx_real("b"), s = sx_real("seeda"), t = sx_real("seedb"), c = sx_real("c"); SXA(c > 0);
  R1 r = fwd2([c](auto& z, auto& a, auto& b) { using namespace xad; z = smooth_max(a, b, c); }, u, v, s, t); sx_eq(r.v, 0.5 * (u + v + sabs(u - v, c)), "value");
  sx_eq(r.d, s * 0.5 * (1 + sabs_x(u - v, c)) + t * 0.5 * (1 - sabs_x(u - v, c)), "tangent"); }
extern "C" void h_smooth_abs_rev_dflt() { double u = sx_real("a"), s = sx_real("seed"); SXA(s > -100 && s < 100);
  R1 r = rev([](auto& z, auto& a) { using namespace xad; z = smooth_abs(a); }, u, s); sx_eq(r.v, sabs(u, RL(0.001)), "value"); sx_eq(r.d, s * sabs_x(u, RL(0.001)), "adjoint"); }
extern "C" void h_smooth_abs_fwd_dflt() { double u = sx_real("a"), s = sx_real("seed"); SXA(s > -100 && s < 100);
  R1 r = fwd([](auto& z, auto& a) { using namespace xad; z = smooth_abs(a); }, u, s); sx_eq(r.v, sabs(u, RL(0.001)), "value"); sx_eq(r.d, s * sabs_x(u, RL(0.001)), "tangent"); }
