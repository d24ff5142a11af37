// Unary functions: value and first derivative, for every argument in the function's domain, in adjoint
// and forward mode, as a direct operand and as an operand inside a larger expression.
#include "ad.hpp"
// U: NAME, call on argument A, domain of u, value, derivative
#define U(NAME, CALL, DOM, VAL, DER) \
  extern "C" void h_##NAME##_rev() { double u = sx_real("x"), s = sx_real("seed"); SXA(DOM); \
    R1 r = rev([](auto& y, auto& a) { using namespace xad; y = CALL(a); }, u, s); sx_eq(r.v, (VAL), "value"); sx_eq(r.d, s * (DER), "adjoint"); } \
  extern "C" void h_##NAME##_fwd() { double u = sx_real("x"), s = sx_real("seed"); SXA(DOM); \
    R1 r = fwd([](auto& y, auto& a) { using namespace xad; y = CALL(a); }, u, s); sx_eq(r.v, (VAL), "value"); sx_eq(r.d, s * (DER), "tangent"); } \
  extern "C" void h_##NAME##_rev_expr() { double x = sx_real("x"), c = sx_real("c"), s = sx_real("seed"); double u = c * x; SXA(DOM); \
    R1 r = rev([c](auto& y, auto& a) { using namespace xad; y = 3.0 * CALL(a * c); }, x, s); sx_eq(r.v, 3 * (VAL), "value"); sx_eq(r.d, 3 * s * c * (DER), "adjoint"); } \
  extern "C" void h_##NAME##_fwd_expr() { double x = sx_real("x"), c = sx_real("c"), s = sx_real("seed"); double u = c * x; SXA(DOM); \
    R1 r = fwd([c](auto& y, auto& a) { using namespace xad; y = 3.0 * CALL(a * c); }, x, s); sx_eq(r.v, 3 * (VAL), "value"); sx_eq(r.d, 3 * s * c * (DER), "tangent"); }
#define PI 3.14159265358979323846
#define ALL 1
#define C_degrees(A) degrees(A)
U(degrees, degrees, ALL, u * 180 / PI, 180 / PI)
U(radians, radians, ALL, u * PI / 180, PI / 180)
U(sin, sin, ALL, std::sin(u), std::cos(u))
U(cos, cos, ALL, std::cos(u), -std::sin(u))
U(tan, tan, std::cos(u) != 0, std::tan(u), 1 / (std::cos(u) * std::cos(u)))
U(asin, asin, u > -1 && u < 1, std::asin(u), 1 / std::sqrt(1 - u * u))
U(acos, acos, u > -1 && u < 1, std::acos(u), -1 / std::sqrt(1 - u * u))
U(atan, atan, ALL, std::atan(u), 1 / (1 + u * u))
U(sinh, sinh, ALL, std::sinh(u), std::cosh(u))
U(cosh, cosh, ALL, std::cosh(u), std::sinh(u))
U(tanh, tanh, ALL, std::tanh(u), 1 - std::tanh(u) * std::tanh(u))
U(asinh, asinh, ALL, std::asinh(u), 1 / std::sqrt(u * u + 1))
U(acosh, acosh, u > 1, std::acosh(u), 1 / std::sqrt(u * u - 1))
U(atanh, atanh, u > -1 && u < 1, std::atanh(u), 1 / (1 - u * u))
U(exp, exp, ALL, std::exp(u), std::exp(u))
U(exp2, exp2, ALL, std::exp2(u), 0.69314718055994530942 * std::exp2(u))
U(expm1, expm1, ALL, std::expm1(u), std::exp(u))
U(log, log, u > 0, std::log(u), 1 / u)
U(log10, log10, u > 0, std::log10(u), 1 / (u * 2.30258509299404568402))
U(log2, log2, u > 0, std::log2(u), 1 / (u * 0.69314718055994530942))
U(log1p, log1p, u > -1, std::log1p(u), 1 / (1 + u))
U(sqrt, sqrt, u > 0, std::sqrt(u), 0.5 / std::sqrt(u))
U(cbrt, cbrt, u != 0, std::cbrt(u), 1 / (3 * std::cbrt(u) * std::cbrt(u)))
U(erf, erf, ALL, std::erf(u), 1.12837916709551257390 * std::exp(-u * u))
U(erfc, erfc, ALL, std::erfc(u), -1.12837916709551257390 * std::exp(-u * u))
U(abs, abs, ALL, (u < 0 ? -u : u), (u < 0 ? -1.0 : u > 0 ? 1.0 : 0.0))
U(fabs, fabs, ALL, (u < 0 ? -u : u), (u < 0 ? -1.0 : u > 0 ? 1.0 : 0.0))
U(floor, floor, ALL, std::floor(u), 0)
U(ceil, ceil, ALL, std::ceil(u), 0)
U(trunc, trunc, ALL, std::trunc(u), 0)
U(round, round, ALL, std::round(u), 0)
#define NEG(A) -(A)
#define POS(A) +(A)
U(neg, NEG, ALL, -u, -1)
U(pos, POS, ALL, u, 1)
#define LD(N) [&](auto&& q) { return 0; }
// functions with an additional argument
#define LDX(A) ldexp(A, n)
#define FRX(A) frexp(A, &e)
#define MDX(A) modf(A, &ip)
extern "C" void h_ldexp_rev() { double u = sx_real("x"), s = sx_real("seed"); int n = sx_conc(sx_int("n", -36, 36));
  R1 r = rev([n](auto& y, auto& a) { using namespace xad; y = ldexp(a, n); }, u, s); sx_eq(r.v, std::ldexp(u, n), "value"); sx_eq(r.d, s * std::ldexp(1.0, n), "adjoint"); }
extern "C" void h_ldexp_fwd() { double u = sx_real("x"), s = sx_real("seed"); int n = sx_conc(sx_int("n", -36, 36));
  R1 r = fwd([n](auto& y, auto& a) { using namespace xad; y = ldexp(a, n); }, u, s); sx_eq(r.v, std::ldexp(u, n), "value"); sx_eq(r.d, s * std::ldexp(1.0, n), "tangent"); }
extern "C" void h_ldexp_rev_expr() { double x = sx_real("x"), s = sx_real("seed"); int n = sx_conc(sx_int("n", -36, 36));
  R1 r = rev([n](auto& y, auto& a) { using namespace xad; y = 3.0 * ldexp(a * 5.0, n); }, x, s); sx_eq(r.v, 15 * std::ldexp(x, n), "value"); sx_eq(r.d, 15 * s * std::ldexp(1.0, n), "adjoint"); }
extern "C" void h_modf_rev() { double u = sx_real("x"), s = sx_real("seed"); double ip = 0, ip2 = 0;
  R1 r = rev([&](auto& y, auto& a) { using namespace xad; y = modf(a, &ip); }, u, s); sx_eq(r.v, std::modf(u, &ip2), "value"); sx_eq(ip, ip2, "integral part"); sx_eq(r.d, s, "adjoint"); }
extern "C" void h_modf_fwd() { double u = sx_real("x"), s = sx_real("seed"); double ip = 0, ip2 = 0;
  R1 r = fwd([&](auto& y, auto& a) { using namespace xad; y = modf(a, &ip); }, u, s); sx_eq(r.v, std::modf(u, &ip2), "value"); sx_eq(ip, ip2, "integral part"); sx_eq(r.d, s, "tangent"); }
extern "C" void h_modf_rev_expr() { double u = sx_real("x"), s = sx_real("seed"); double ip = 0, ip2 = 0;
  R1 r = rev([&](auto& y, auto& a) { using namespace xad; y = 2.0 * modf(a * 3.0, &ip); }, u, s); sx_eq(r.v, 2 * std::modf(3 * u, &ip2), "value"); sx_eq(ip, ip2, "integral part"); sx_eq(r.d, 6 * s, "adjoint"); }
extern "C" void h_frexp_rev() { double u = sx_real("x"), s = sx_real("seed"); SXA(u > 1e-4 && u < 1e4); int e = 0, e2 = 0;
  R1 r = rev([&](auto& y, auto& a) { using namespace xad; y = frexp(a, &e); }, u, s); sx_eq(r.v, std::frexp(u, &e2), "value"); sx_check(e == e2, "exponent"); sx_eq(r.d, s * std::ldexp(1.0, -e2), "adjoint"); }
extern "C" void h_frexp_fwd() { double u = sx_real("x"), s = sx_real("seed"); SXA(u < -1e-4 && u > -1e4); int e = 0, e2 = 0;
  R1 r = fwd([&](auto& y, auto& a) { using namespace xad; y = frexp(a, &e); }, u, s); sx_eq(r.v, std::frexp(u, &e2), "value"); sx_check(e == e2, "exponent"); sx_eq(r.d, s * std::ldexp(1.0, -e2), "tangent"); }
// several calls in one expression which share the exponent variable
extern "C" void h_frexp_shared_rev() { double u = sx_real("x"), v = sx_real("z"), s = sx_real("seed"); SXA(u > 1e-2 && u < 1e2 && v > 1e-2 && v < 1e2); int e = 0, e1, e2; double f1 = std::frexp(u, &e1), f2 = std::frexp(v, &e2); TP t; AD x = u, z = v; t.registerInput(x); t.registerInput(z); t.newRecording(); AD y = frexp(x, &e) * 3.0 + frexp(z, &e); t.registerOutput(y); sx_eq(value(y), 3 * f1 + f2, "value"); derivative(y) = s; t.computeAdjoints(); sx_eq(derivative(x), 3 * s * std::ldexp(1.0, -e1), "adjoint"); sx_eq(derivative(z), s * std::ldexp(1.0, -e2), "adjoint"); }
extern "C" void h_frexp_shared_fwd() { double u = sx_real("x"), v = sx_real("z"), s = sx_real("s"), r = sx_real("r"); SXA(u > 1e-2 && u < 1e2 && v > 1e-2 && v < 1e2); int e = 0, e1, e2; std::frexp(u, &e1); std::frexp(v, &e2); FD x(u, s), z(v, r); FD y = frexp(x, &e) * 3.0 + frexp(z, &e); sx_eq(derivative(y), 3 * s * std::ldexp(1.0, -e1) + r * std::ldexp(1.0, -e2), "tangent"); }
