// Expressions kept in auto variables and evaluated later, once the statement that built them is over.
#include "ad.hpp"
static double absd(double x) { return x < 0 ? -x : x; }
static double sabs(double x, double c) { return absd(x) > c ? absd(x) : x * x * (2 / c - absd(x) / (c * c)); }
static double sabs_x(double x, double c) { double s = x < 0 ? -1 : 1, t = absd(x); return t > c ? s : s * (4 * t / c - 3 * t * t / (c * c)); }
static double sabs_c(double x, double c) { double t = absd(x); return t > c ? 0 : 2 * x * x * (t - c) / (c * c * c); }
static void __attribute__((noinline)) clobber() { volatile double v[16]; for (int i = 0; i < 16; ++i) v[i] = 77; }
// z is built from the expression kept, which is used twice
#define U1(NAME, DOM, E, V, D) \
  extern "C" void h_auto_##NAME##_rev() { double x = sx_real("x"), s = sx_real("seed"), c = sx_real("c"); (void)c; SXA(DOM); \
    R1 r = rev([c](auto& z, auto& a) { using namespace xad; (void)c; auto e = E; clobber(); z = e; z = z + 2.0 * e; }, x, s); sx_eq(r.v, 3 * (V), "value"); sx_eq(r.d, 3 * s * (D), "derivative"); } \
  extern "C" void h_auto_##NAME##_fwd() { double x = sx_real("x"), s = sx_real("seed"), c = sx_real("c"); (void)c; SXA(DOM); \
    R1 r = fwd([c](auto& z, auto& a) { using namespace xad; (void)c; auto e = E; clobber(); z = e; z = z + 2.0 * e; }, x, s); sx_eq(r.v, 3 * (V), "value"); sx_eq(r.d, 3 * s * (D), "derivative"); }
U1(neg, 1, -a, -x, -1)
U1(sin, 1, sin(a), std::sin(x), std::cos(x))
U1(exp_expr, 1, exp(a * c), std::exp(x * c), c * std::exp(x * c))
U1(sqrt_sum, x > 0, sqrt(a + a * a), std::sqrt(x + x * x), (1 + 2 * x) / (2 * std::sqrt(x + x * x)))
U1(add_s, 1, a + c, x + c, 1)
U1(s_sub, 1, c - a, c - x, -1)
U1(mul_s, 1, a * c, x * c, c)
U1(s_div, x != 0, c / a, c / x, -c / (x * x))
U1(div_i, 1, (a * a) / 3, x * x / 3, 2 * x / 3)
U1(pow_s, x > 0, pow(a, c), std::pow(x, c), c * std::pow(x, c - 1))
U1(s_pow, c > 0, pow(c, a), std::pow(c, x), std::log(c) * std::pow(c, x))
U1(pow_i, x > 0, pow(a, 3), x * x * x, 3 * x * x)
U1(pown, x > 0, pown(a * 2.0, 2), 4 * x * x, 8 * x)
U1(hypot_s, x != 0 || c != 0, hypot(a, c), std::hypot(x, c), x / std::hypot(x, c))
U1(s_hypot, x != 0 || c != 0, hypot(c, a), std::hypot(c, x), x / std::hypot(c, x))
U1(hypot_i, 1, hypot(a, 2), std::hypot(x, 2.0), x / std::hypot(x, 2.0))
U1(hypot_es, x != 0 || c != 0, hypot(a * 2.0, c), std::hypot(2 * x, c), 4 * x / std::hypot(2 * x, c))
U1(s_hypot_e, x != 0 || c != 0, hypot(c, a * 2.0), std::hypot(c, 2 * x), 4 * x / std::hypot(c, 2 * x))
U1(atan2_s, x != 0 || c != 0, atan2(a, c), std::atan2(x, c), c / (x * x + c * c))
U1(s_atan2, x != 0 || c != 0, atan2(c, a), std::atan2(c, x), -c / (x * x + c * c))
U1(atan2_i, 1, atan2(a, 3), std::atan2(x, 3.0), 3 / (x * x + 9))
U1(fmod_s, c != 0, fmod(a, c), std::fmod(x, c), 1)
U1(s_fmod, x != 0, fmod(c, a), std::fmod(c, x), -std::trunc(c / x))
U1(max_s, x != c, max(a, c), (x < c ? c : x), (x < c ? 0 : 1))
U1(s_min, x != c, min(c, a * 1.0), (x < c ? x : c), (x < c ? 1 : 0))
U1(fmax_s, x != c, fmax(a, c), (x < c ? c : x), (x < c ? 0 : 1))
U1(fmin_i, x != 2, fmin(a, 2), (x < 2 ? x : 2), (x < 2 ? 1 : 0))
U1(smooth_abs, x > 1, smooth_abs(a), x, 1)
U1(smooth_abs_s, c > 0, smooth_abs(a, c), sabs(x, c), sabs_x(x, c))
U1(s_smooth_abs, x > 0, smooth_abs(c, a), sabs(c, x), sabs_c(c, x))
U1(smooth_max_s, x > c + 1, smooth_max(a, c), x, 1)
U1(smooth_max_ss, x > c + 2, smooth_max(a, c, 1.0), x, 1)
U1(s_smooth_min, x > c + 1, smooth_min(c, a), c, 0)
U1(nextafter_s, 1, nextafter(a, c), std::nextafter(x, c), 1)
U1(ldexp, 1, ldexp(a, 3), 8 * x, 8)
U1(degrees, 1, degrees(a), x * 57.2957795130823208767981548141051703324, 57.2957795130823208767981548141051703324)
U1(nested, 1, (a * c + (a - c) * (a + 2.0)) * a, (x * c + (x - c) * (x + 2)) * x, (x * c + (x - c) * (x + 2)) + x * (c + (x + 2) + (x - c)))
// sub-expressions kept separately, with two variables and an active constant
extern "C" void h_auto_parts_rev() { double x = sx_real("x"), y = sx_real("y"), s = sx_real("seed"); SXA(y != 0);
  R2 r = rev2([](auto& z, auto& a, auto& b) { using namespace xad; auto p = a * b; auto q = a / b; auto m = p + q; clobber(); z = m * q - p; }, x, y, s);
  double p = x * y, q = x / y, m = p + q; sx_eq(r.v, m * q - p, "value");
  sx_eq(r.da, s * ((y + 1 / y) * q + m / y - y), "d/da"); sx_eq(r.db, s * ((x - x / (y * y)) * q - m * x / (y * y) - x), "d/db"); }
extern "C" void h_auto_parts_fwd() { double x = sx_real("x"), y = sx_real("y"), s = sx_real("seed"), t = sx_real("seed2"); SXA(y != 0);
  R1 r = fwd2([](auto& z, auto& a, auto& b) { using namespace xad; auto p = a * b; auto q = a / b; auto m = p + q; clobber(); z = m * q - p; }, x, y, s, t);
  double p = x * y, q = x / y, m = p + q; sx_eq(r.v, m * q - p, "value");
  sx_eq(r.d, s * ((y + 1 / y) * q + m / y - y) + t * ((x - x / (y * y)) * q - m * x / (y * y) - x), "derivative"); }
extern "C" void h_auto_const_rev() { double x = sx_real("x"), c = sx_real("c"), s = sx_real("seed");
  R1 r = rev([c](auto& z, auto& a) { AD k = c; auto e = k * a + k; auto f = e * e; clobber(); z = f; }, x, s);
  double e = c * x + c; sx_eq(r.v, e * e, "value"); sx_eq(r.d, s * 2 * e * c, "derivative"); }
// an expression built before and evaluated after one of its operands was assigned: the operand is the variable, in its later state
