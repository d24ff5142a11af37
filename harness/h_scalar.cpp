// Passive operands of every arithmetic type: integers of all widths and signedness over boundary values, float and long double constants.
#include "ad.hpp"
#include <climits>
static double absd(double x) { return x < 0 ? -x : x; }
static double sabs(double x, double c) { return absd(x) > c ? absd(x) : x * x * (2 / c - absd(x) / (c * c)); }
static double sabs_x(double x, double c) { double s = x < 0 ? -1 : 1, t = absd(x); return t > c ? s : s * (4 * t / c - 3 * t * t / (c * c)); }
static double sabs_c(double x, double c) { double t = absd(x); return t > c ? 0 : 2 * x * x * (t - c) / (c * c * c); }
#define ADD(a, b) ((a) + (b))
#define SUB(a, b) ((a) - (b))
#define MUL(a, b) ((a) * (b))
#define DIV(a, b) ((a) / (b))
// values of each type, the index being explored by forking
static const signed char v_sc[] = {0, 1, -1, 7, SCHAR_MAX, SCHAR_MIN};
static const unsigned char v_uc[] = {0, 1, 2, 16, 200, UCHAR_MAX};
static const short v_s[] = {0, 1, -3, 182, SHRT_MAX, SHRT_MIN};
static const unsigned short v_us[] = {0, 1, 2, 300, 46341, USHRT_MAX};
static const int v_i[] = {0, 1, -3, 46341, 100000, INT_MIN, INT_MAX};
static const unsigned v_u[] = {0u, 1u, 2u, 65536u, 3000000000u, UINT_MAX};
static const long v_l[] = {0, 1, -3, 4294967296L, -3037000500L, LONG_MAX / 1024 * 1024, LONG_MIN};
static const unsigned long v_ul[] = {0, 1, 2, 4294967296UL, 1UL << 63};
static const bool v_b[] = {false, true};
#define PICK(S) auto n = v_##S[sx_choice("value", int(sizeof v_##S / sizeof v_##S[0]))]
#define TA(NAME, S, CALL, DOM, V, DA) \
  extern "C" void h_##NAME##_a_##S() { double u = sx_real("a"), s = sx_real("seed"); PICK(S); double v = double(n); (void)v; SXA(DOM); \
    R1 r = rev([n](auto& z, auto& a) { using namespace xad; z = CALL(a, n); }, u, s); sx_eq(r.v, (V), "value"); sx_eq(r.d, s * (DA), "d/da"); \
    R1 f = fwd([n](auto& z, auto& a) { using namespace xad; z = CALL(a, n); }, u, s); sx_eq(f.v, (V), "value (forward)"); sx_eq(f.d, s * (DA), "d/da (forward)"); }
#define TB(NAME, S, CALL, DOM, V, DB) \
  extern "C" void h_##NAME##_b_##S() { double v = sx_real("b"), s = sx_real("seed"); PICK(S); double u = double(n); (void)u; SXA(DOM); \
    R1 r = rev([n](auto& z, auto& b) { using namespace xad; z = CALL(n, b); }, v, s); sx_eq(r.v, (V), "value"); sx_eq(r.d, s * (DB), "d/db"); \
    R1 f = fwd([n](auto& z, auto& b) { using namespace xad; z = CALL(n, b); }, v, s); sx_eq(f.v, (V), "value (forward)"); sx_eq(f.d, s * (DB), "d/db (forward)"); }
#define T2(NAME, S, CALL, DOM, V, DA, DB) TA(NAME, S, CALL, DOM, V, DA) TB(NAME, S, CALL, DOM, V, DB)
#define TYPES(S) \
  T2(add, S, ADD, 1, u + v, 1, 1) \
  T2(sub, S, SUB, 1, u - v, 1, -1) \
  T2(mul, S, MUL, 1, u * v, v, u) \
  T2(div, S, DIV, v != 0, u / v, 1 / v, -u / (v * v)) \
  TA(pow, S, pow, u > 0, std::pow(u, v), v == 0 ? 0 : v * std::pow(u, v - 1)) \
  TB(pow, S, pow, u > 0, std::pow(u, v), std::log(u) * std::pow(u, v)) \
  T2(fmod, S, fmod, v != 0, std::fmod(u, v), 1, -std::trunc(u / v)) \
  T2(atan2, S, atan2, u != 0 || v != 0, std::atan2(u, v), v / (u * u + v * v), -u / (u * u + v * v)) \
  T2(hypot, S, hypot, u != 0 || v != 0, std::hypot(u, v), u / std::hypot(u, v), v / std::hypot(u, v)) \
  T2(nextafter, S, nextafter, 1, std::nextafter(u, v), 1, 0) \
  TA(remainder, S, remainder, v != 0, std::remainder(u, v), 1) \
  T2(smooth_abs, S, smooth_abs, v > 0, sabs(u, v), sabs_x(u, v), sabs_c(u, v))
TYPES(sc)
TYPES(uc)
TYPES(s)
TYPES(us)
TYPES(i)
TYPES(u)
TYPES(l)
TYPES(ul)
TYPES(b)
// compound assignment with integers
#define COMP(S) extern "C" void h_compound_##S() { double x = sx_real("x"), s = sx_real("seed"); PICK(S); double k = double(n); int op = sx_choice("op", 4); SXA(op != 3 || n != 0); \
    R1 r = rev([n, op](auto& z, auto& a) { z = a; if (op == 0) z += n; else if (op == 1) z -= n; else if (op == 2) z *= n; else z /= n; }, x, s); \
    R1 f = fwd([n, op](auto& z, auto& a) { z = a; if (op == 0) z += n; else if (op == 1) z -= n; else if (op == 2) z *= n; else z /= n; }, x, s); \
    double v = op == 0 ? x + k : op == 1 ? x - k : op == 2 ? x * k : x / k, d = op < 2 ? 1 : op == 2 ? k : 1 / k; \
    sx_eq(r.v, v, "value"); sx_eq(r.d, s * d, "derivative"); sx_eq(f.v, v, "value (forward)"); sx_eq(f.d, s * d, "derivative (forward)"); }
COMP(i) COMP(u) COMP(l) COMP(ul) COMP(s) COMP(uc)
