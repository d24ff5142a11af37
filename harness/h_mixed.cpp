// Functions mixing one active and one passive argument (double or int, on either side).
#include "ad.hpp"
static double absd(double x) { return x < 0 ? -x : x; }
static double sabs(double x, double c) { return absd(x) > c ? absd(x) : x * x * (2 / c - absd(x) / (c * c)); }
static double sabs_x(double x, double c) { double s = x < 0 ? -1 : 1, t = absd(x); return t > c ? s : s * (4 * t / c - 3 * t * t / (c * c)); }
static double sabs_c(double x, double c) { double t = absd(x); return t > c ? 0 : 2 * x * x * (t - c) / (c * c * c); }
#define M2(NAME, CALL, DOM, V, DA, DB) MA(NAME, CALL, DOM, V, DA) MB(NAME, CALL, DOM, V, DB)
// active first
#define MA(NAME, CALL, DOM, V, DA) \
  extern "C" void h_##NAME##_as_rev() { double u = sx_real("a"), v = sx_real("b"), s = sx_real("seed"); SXA(DOM); \
    R1 r = rev([v](auto& z, auto& a) { using namespace xad; z = CALL(a, v); }, u, s); sx_eq(r.v, (V), "value"); sx_eq(r.d, s * (DA), "d/da"); } \
  extern "C" void h_##NAME##_as_fwd() { double u = sx_real("a"), v = sx_real("b"), s = sx_real("seed"); SXA(DOM); \
    R1 r = fwd([v](auto& z, auto& a) { using namespace xad; z = CALL(a, v); }, u, s); sx_eq(r.v, (V), "value"); sx_eq(r.d, s * (DA), "d/da"); } \
  extern "C" void h_##NAME##_as_rev_expr() { double x = sx_real("a"), v = sx_real("b"), s = sx_real("seed"); double u = 2 * x; SXA(DOM); \
    R1 r = rev([v](auto& z, auto& a) { using namespace xad; z = 3.0 * CALL(a * 2.0, v); }, x, s); sx_eq(r.v, 3 * (V), "value"); sx_eq(r.d, 6 * s * (DA), "d/da"); } \
  extern "C" void h_##NAME##_as_fwd_expr() { double x = sx_real("a"), v = sx_real("b"), s = sx_real("seed"); double u = 2 * x; SXA(DOM); \
    R1 r = fwd([v](auto& z, auto& a) { using namespace xad; z = 3.0 * CALL(a * 2.0, v); }, x, s); sx_eq(r.v, 3 * (V), "value"); sx_eq(r.d, 6 * s * (DA), "d/da"); }
#define MB(NAME, CALL, DOM, V, DB) \
  extern "C" void h_##NAME##_sa_rev() { double u = sx_real("a"), v = sx_real("b"), s = sx_real("seed"); SXA(DOM); \
    R1 r = rev([u](auto& z, auto& b) { using namespace xad; z = CALL(u, b); }, v, s); sx_eq(r.v, (V), "value"); sx_eq(r.d, s * (DB), "d/db"); } \
  extern "C" void h_##NAME##_sa_fwd() { double u = sx_real("a"), v = sx_real("b"), s = sx_real("seed"); SXA(DOM); \
    R1 r = fwd([u](auto& z, auto& b) { using namespace xad; z = CALL(u, b); }, v, s); sx_eq(r.v, (V), "value"); sx_eq(r.d, s * (DB), "d/db"); } \
  extern "C" void h_##NAME##_sa_rev_expr() { double u = sx_real("a"), y = sx_real("b"), s = sx_real("seed"); double v = 2 * y; SXA(DOM); \
    R1 r = rev([u](auto& z, auto& b) { using namespace xad; z = 3.0 * CALL(u, b * 2.0); }, y, s); sx_eq(r.v, 3 * (V), "value"); sx_eq(r.d, 6 * s * (DB), "d/db"); } \
  extern "C" void h_##NAME##_sa_fwd_expr() { double u = sx_real("a"), y = sx_real("b"), s = sx_real("seed"); double v = 2 * y; SXA(DOM); \
    R1 r = fwd([u](auto& z, auto& b) { using namespace xad; z = 3.0 * CALL(u, b * 2.0); }, y, s); sx_eq(r.v, 3 * (V), "value"); sx_eq(r.d, 6 * s * (DB), "d/db"); }
#define ADD(a, b) ((a) + (b))
#define SUB(a, b) ((a) - (b))
#define MUL(a, b) ((a) * (b))
#define DIV(a, b) ((a) / (b))
#define ALL 1
#define TIE_A(X) ((u X v) ? 1.0 : (v X u) ? 0.0 : 0.5)
#define TIE_B(X) ((v X u) ? 1.0 : (u X v) ? 0.0 : 0.5)
M2(add, ADD, ALL, u + v, 1, 1)
M2(sub, SUB, ALL, u - v, 1, -1)
M2(mul, MUL, ALL, u * v, v, u)
M2(div, DIV, v != 0, u / v, 1 / v, -u / (v * v))
M2(pow, pow, u > 0, std::pow(u, v), v * std::pow(u, v - 1), std::log(u) * std::pow(u, v))
M2(max, max, ALL, (u < v ? v : u), TIE_A(>), TIE_B(>))
M2(min, min, ALL, (u < v ? u : v), TIE_A(<), TIE_B(<))
M2(fmax, fmax, ALL, (u < v ? v : u), TIE_A(>), TIE_B(>))
M2(fmin, fmin, ALL, (u < v ? u : v), TIE_A(<), TIE_B(<))
M2(fmod, fmod, v != 0, std::fmod(u, v), 1, -std::trunc(u / v))
M2(atan2, atan2, u != 0 || v != 0, std::atan2(u, v), v / (u * u + v * v), -u / (u * u + v * v))
M2(hypot, hypot, u != 0 || v != 0, std::hypot(u, v), u / std::hypot(u, v), v / std::hypot(u, v))
M2(smooth_abs, smooth_abs, v > 0, sabs(u, v), sabs_x(u, v), sabs_c(u, v))
M2(nextafter, nextafter, ALL, std::nextafter(u, v), 1, 0)
// remainder / remquo: u = v * (n + f) with |f| < 1/2, so that n is the rounded quotient
#define QUOT double v = sx_real("b"), f = sx_real("f"); int n = sx_conc(sx_int("n", -20, 20)); SXA(v != 0 && f > -0.5 && f < 0.5); double u = v * (n + f), s = sx_real("seed")
extern "C" void h_remainder_as_rev() { QUOT;
  R1 r = rev([v](auto& z, auto& a) { using namespace xad; z = 3.0 * remainder(a * 2.0, v) + remainder(a, v / 2); }, u / 2, s); sx_eq(r.v, 3 * (u - n * v) + (u - n * v) / 2, "value"); sx_eq(r.d, 7 * s, "d/da"); }
extern "C" void h_remainder_as_fwd() { QUOT;
  R1 r = fwd([v](auto& z, auto& a) { using namespace xad; z = 3.0 * remainder(a * 2.0, v) + remainder(a, v / 2); }, u / 2, s); sx_eq(r.v, 3 * (u - n * v) + (u - n * v) / 2, "value"); sx_eq(r.d, 7 * s, "d/da"); }
extern "C" void h_remainder_sa_rev() { QUOT;
  R1 r = rev([u](auto& z, auto& b) { using namespace xad; z = remainder(u, b); }, v, s); sx_eq(r.v, u - n * v, "value"); sx_eq(r.d, -n * s, "d/db"); }
extern "C" void h_remainder_sa_fwd() { QUOT;
  R1 r = fwd([u](auto& z, auto& b) { using namespace xad; z = 3.0 * remainder(u, b * 2.0); }, v / 2, s); sx_eq(r.v, 3 * (u - n * v), "value"); sx_eq(r.d, -6 * n * s, "d/db"); }
extern "C" void h_remquo_as_rev() { QUOT; int q = 0;
  R1 r = rev([v, &q](auto& z, auto& a) { using namespace xad; z = remquo(a, v, &q); }, u, s); sx_eq(r.v, u - n * v, "value"); sx_check((q - n) % 8 == 0, "quotient"); sx_eq(r.d, s, "d/da"); }
extern "C" void h_remquo_sa_rev() { QUOT; int q = 0;
  R1 r = rev([u, &q](auto& z, auto& b) { using namespace xad; z = remquo(u, b, &q); }, v, s); sx_eq(r.v, u - n * v, "value"); sx_check((q - n) % 8 == 0, "quotient"); sx_eq(r.d, -n * s, "d/db"); }
extern "C" void h_remquo_sa_fwd() { QUOT; int q = 0;
  R1 r = fwd([u, &q](auto& z, auto& b) { using namespace xad; z = 3.0 * remquo(u, b * 2.0, &q); }, v / 2, s); sx_eq(r.v, 3 * (u - n * v), "value"); sx_check((q - n) % 8 == 0, "quotient"); sx_eq(r.d, -6 * n * s, "d/db"); }
// integer second/first operand
#define MIA(NAME, CALL, LO, HI, DOM, V, DA) \
  extern "C" void h_##NAME##_ai_rev() { double u = sx_real("a"), s = sx_real("seed"); int n = sx_conc(sx_int("n", LO, HI)); double v = n; SXA(DOM); \
    R1 r = rev([n](auto& z, auto& a) { using namespace xad; z = CALL(a, n); }, u, s); sx_eq(r.v, (V), "value"); sx_eq(r.d, s * (DA), "d/da"); } \
  extern "C" void h_##NAME##_ai_fwd() { double u = sx_real("a"), s = sx_real("seed"); int n = sx_conc(sx_int("n", LO, HI)); double v = n; SXA(DOM); \
    R1 r = fwd([n](auto& z, auto& a) { using namespace xad; z = CALL(a, n); }, u, s); sx_eq(r.v, (V), "value"); sx_eq(r.d, s * (DA), "d/da"); }
#define MIB(NAME, CALL, LO, HI, DOM, V, DB) \
  extern "C" void h_##NAME##_ia_rev() { double v = sx_real("b"), s = sx_real("seed"); int n = sx_conc(sx_int("n", LO, HI)); double u = n; SXA(DOM); \
    R1 r = rev([n](auto& z, auto& b) { using namespace xad; z = CALL(n, b); }, v, s); sx_eq(r.v, (V), "value"); sx_eq(r.d, s * (DB), "d/db"); } \
  extern "C" void h_##NAME##_ia_fwd() { double v = sx_real("b"), s = sx_real("seed"); int n = sx_conc(sx_int("n", LO, HI)); double u = n; SXA(DOM); \
    R1 r = fwd([n](auto& z, auto& b) { using namespace xad; z = CALL(n, b); }, v, s); sx_eq(r.v, (V), "value"); sx_eq(r.d, s * (DB), "d/db"); }
#define MI2(NAME, CALL, LO, HI, DOM, V, DA, DB) MIA(NAME, CALL, LO, HI, DOM, V, DA) MIB(NAME, CALL, LO, HI, DOM, V, DB)
MI2(addi, ADD, -6, 6, ALL, u + v, 1, 1)
MI2(subi, SUB, -6, 6, ALL, u - v, 1, -1)
MI2(muli, MUL, -6, 6, ALL, u * v, v, u)
MI2(divi, DIV, -6, 6, v != 0, u / v, 1 / v, -u / (v * v))
MIA(powi, pow, -6, 6, u != 0, std::pow(u, v), v * std::pow(u, v - 1))
MIB(powi, pow, 1, 6, ALL, std::pow(u, v), std::log(u) * std::pow(u, v))
MIA(pown, pown, -6, 6, u != 0, std::pow(u, v), v * std::pow(u, v - 1))
MI2(atan2i, atan2, -6, 6, u != 0 || v != 0, std::atan2(u, v), v / (u * u + v * v), -u / (u * u + v * v))
