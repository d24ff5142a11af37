// Higher-order modes: forward over forward, forward over adjoint, adjoint over forward, adjoint over adjoint.
#include "ad.hpp"
#define RD(n) double n = sx_real(#n)
// nested variables from value, inner tangent, outer tangent
static FFD ff(double u, double s, double r, double w = 0.0) { FFD x = u; derivative(value(x)) = s; value(derivative(x)) = r; derivative(derivative(x)) = w; return x; }
static FAD fa(double u, double s) { FAD x = u; derivative(value(x)) = s; return x; }
// f: (y&, x); F, F1, F2: value, first and second derivative at u
#define H(NAME, CALL, DOM, F, F1, F2) \
  static auto f_##NAME = [](auto& y, auto& x) { using namespace xad; y = CALL(x); }; \
  extern "C" void h_##NAME##_fwd_fwd() { RD(u); RD(s); RD(r); SXA(DOM); FFD x = ff(u, s, r), y; f_##NAME(y, x); sx_eq(value(value(y)), (F), "value"); sx_eq(derivative(value(y)), s * (F1), "inner derivative"); sx_eq(value(derivative(y)), r * (F1), "outer derivative"); sx_eq(derivative(derivative(y)), s * r * (F2), "second derivative"); } \
  extern "C" void h_##NAME##_fwd_adj() { RD(u); RD(s); RD(r); SXA(DOM); FTP t; FAD x = fa(u, s), y; t.registerInput(x); t.newRecording(); f_##NAME(y, x); t.registerOutput(y); value(derivative(y)) = r; t.computeAdjoints(); sx_eq(value(value(y)), (F), "value"); sx_eq(derivative(value(y)), s * (F1), "tangent"); sx_eq(value(derivative(x)), r * (F1), "adjoint"); sx_eq(derivative(derivative(x)), s * r * (F2), "second derivative"); } \
  extern "C" void h_##NAME##_adj_fwd() { RD(u); RD(s); RD(r); SXA(DOM); TP t; AD ui = u; t.registerInput(ui); t.newRecording(); AFD x, y; value(x) = ui; derivative(x) = AD(s); f_##NAME(y, x); sx_eq(value(value(y)), (F), "value"); sx_eq(value(derivative(y)), s * (F1), "tangent"); derivative(derivative(y)) = r; t.computeAdjoints(); sx_eq(derivative(ui), s * r * (F2), "second derivative"); } \
  extern "C" void h_##NAME##_adj_adj() { RD(u); RD(s); RD(r); SXA(DOM); TP ti; ATP to; AAD x = u, y; ti.registerInput(value(x)); to.registerInput(x); ti.newRecording(); to.newRecording(); f_##NAME(y, x); to.registerOutput(y); value(derivative(y)) = s; to.computeAdjoints(); sx_eq(value(value(y)), (F), "value"); sx_eq(value(derivative(x)), s * (F1), "adjoint"); derivative(derivative(x)) = r; ti.computeAdjoints(); sx_eq(derivative(value(x)), s * r * (F2), "second derivative"); }
#define ALL 1
H(sin, sin, ALL, std::sin(u), std::cos(u), -std::sin(u))
H(cos, cos, ALL, std::cos(u), -std::sin(u), -std::cos(u))
H(tan, tan, std::cos(u) != 0, std::tan(u), 1 + std::tan(u) * std::tan(u), 2 * std::tan(u) * (1 + std::tan(u) * std::tan(u)))
H(exp, exp, ALL, std::exp(u), std::exp(u), std::exp(u))
H(exp2, exp2, ALL, std::exp2(u), 0.69314718055994530942 * std::exp2(u), 0.69314718055994530942 * 0.69314718055994530942 * std::exp2(u))
H(expm1, expm1, ALL, std::expm1(u), std::exp(u), std::exp(u))
H(log, log, u > 0, std::log(u), 1 / u, -1 / (u * u))
H(log1p, log1p, u > -1, std::log1p(u), 1 / (1 + u), -1 / ((1 + u) * (1 + u)))
H(log10, log10, u > 0, std::log10(u), 1 / (u * 2.30258509299404568402), -1 / (u * u * 2.30258509299404568402))
H(log2, log2, u > 0, std::log2(u), 1 / (u * 0.69314718055994530942), -1 / (u * u * 0.69314718055994530942))
H(sqrt, sqrt, u > 0, std::sqrt(u), 0.5 / std::sqrt(u), -0.25 / (u * std::sqrt(u)))
H(cbrt, cbrt, u > 0, std::cbrt(u), 1 / (3 * std::cbrt(u) * std::cbrt(u)), -2 / (9 * u * std::cbrt(u) * std::cbrt(u)))
H(sinh, sinh, ALL, std::sinh(u), std::cosh(u), std::sinh(u))
H(cosh, cosh, ALL, std::cosh(u), std::sinh(u), std::cosh(u))
H(tanh, tanh, ALL, std::tanh(u), 1 - std::tanh(u) * std::tanh(u), -2 * std::tanh(u) * (1 - std::tanh(u) * std::tanh(u)))
H(asin, asin, u > -1 && u < 1, std::asin(u), 1 / std::sqrt(1 - u * u), u / ((1 - u * u) * std::sqrt(1 - u * u)))
H(acos, acos, u > -1 && u < 1, std::acos(u), -1 / std::sqrt(1 - u * u), -u / ((1 - u * u) * std::sqrt(1 - u * u)))
H(atan, atan, ALL, std::atan(u), 1 / (1 + u * u), -2 * u / ((1 + u * u) * (1 + u * u)))
H(asinh, asinh, ALL, std::asinh(u), 1 / std::sqrt(1 + u * u), -u / ((1 + u * u) * std::sqrt(1 + u * u)))
H(acosh, acosh, u > 1, std::acosh(u), 1 / std::sqrt(u * u - 1), -u / ((u * u - 1) * std::sqrt(u * u - 1)))
H(atanh, atanh, u > -1 && u < 1, std::atanh(u), 1 / (1 - u * u), 2 * u / ((1 - u * u) * (1 - u * u)))
H(erf, erf, ALL, std::erf(u), 1.12837916709551257390 * std::exp(-u * u), -2 * u * 1.12837916709551257390 * std::exp(-u * u))
H(erfc, erfc, ALL, std::erfc(u), -1.12837916709551257390 * std::exp(-u * u), 2 * u * 1.12837916709551257390 * std::exp(-u * u))
H(abs, abs, u != 0, (u < 0 ? -u : u), (u < 0 ? -1.0 : 1.0), 0)
#define POW3(X) pow(X, 3.0)
#define SQUARE(X) ((X) * (X))
#define CUBE(X) ((X) * (X) * (X))
#define RECIP(X) (2.0 / (X))
#define COMP(X) (exp((X) * 2.0) / (X) - 3.0)
#define NEGATE(X) (1.0 - (X))
#define SIGM(X) (1.0 / (1.0 + exp(-(X))))
#define LDE(X) ldexp((X) * (X), 3)
#define SMA(X) smooth_abs(X, 2.0)
H(pow3, POW3, u > 0, u * u * u, 3 * u * u, 6 * u)
H(square, SQUARE, ALL, u * u, 2 * u, 2)
H(cube, CUBE, ALL, u * u * u, 3 * u * u, 6 * u)
H(recip, RECIP, u != 0, 2 / u, -2 / (u * u), 4 / (u * u * u))
H(comp, COMP, u != 0, std::exp(2 * u) / u - 3, std::exp(2 * u) * (2 * u - 1) / (u * u), std::exp(2 * u) * (4 * u * u - 4 * u + 2) / (u * u * u))
H(negate, NEGATE, ALL, 1 - u, -1, 0)
H(sigm, SIGM, ALL, 1 / (1 + std::exp(-u)), std::exp(-u) / ((1 + std::exp(-u)) * (1 + std::exp(-u))), -std::exp(-u) * (1 - std::exp(-u)) / ((1 + std::exp(-u)) * (1 + std::exp(-u)) * (1 + std::exp(-u))))
H(sma, SMA, (u > 0 && u < 2), u * u * (1 - u / 4), u * (2 - 0.75 * u), 2 - 1.5 * u)
// two arguments: F, FA, FB, FAA, FAB, FBB at (u, v); directions (s, q) inner and (r, p) outer
#define G(NAME, CALL, DOM, F, FA, FB, FAA, FAB, FBB) \
  static auto g_##NAME = [](auto& y, auto& x, auto& z) { using namespace xad; y = CALL(x, z); }; \
  extern "C" void h2_##NAME##_fwd_fwd() { RD(u); RD(v); RD(s); RD(q); RD(r); RD(p); SXA(DOM); FFD x = ff(u, s, r), z = ff(v, q, p), y; g_##NAME(y, x, z); sx_eq(value(value(y)), (F), "value"); sx_eq(derivative(value(y)), s * (FA) + q * (FB), "inner"); sx_eq(value(derivative(y)), r * (FA) + p * (FB), "outer"); sx_eq(derivative(derivative(y)), s * r * (FAA) + (s * p + q * r) * (FAB) + q * p * (FBB), "second"); } \
  extern "C" void h2_##NAME##_fwd_adj() { RD(u); RD(v); RD(s); RD(q); RD(r); SXA(DOM); FTP t; FAD x = fa(u, s), z = fa(v, q), y; t.registerInput(x); t.registerInput(z); t.newRecording(); g_##NAME(y, x, z); t.registerOutput(y); value(derivative(y)) = r; t.computeAdjoints(); sx_eq(value(derivative(x)), r * (FA), "adjoint"); sx_eq(value(derivative(z)), r * (FB), "adjoint"); sx_eq(derivative(derivative(x)), r * (s * (FAA) + q * (FAB)), "second"); sx_eq(derivative(derivative(z)), r * (s * (FAB) + q * (FBB)), "second"); } \
  extern "C" void h2_##NAME##_adj_fwd() { RD(u); RD(v); RD(s); RD(q); RD(r); SXA(DOM); TP t; AFD x, z, y; value(x) = u; value(z) = v; t.registerInput(value(x)); t.registerInput(value(z)); t.newRecording(); derivative(x) = s; derivative(z) = q; g_##NAME(y, x, z); derivative(derivative(y)) = r; t.computeAdjoints(); sx_eq(derivative(value(x)), r * (s * (FAA) + q * (FAB)), "second"); sx_eq(derivative(value(z)), r * (s * (FAB) + q * (FBB)), "second"); } \
  extern "C" void h2_##NAME##_adj_adj() { RD(u); RD(v); RD(s); RD(r); RD(p); SXA(DOM); TP ti; ATP to; AAD x = u, z = v, y; ti.registerInput(value(x)); ti.registerInput(value(z)); to.registerInput(x); to.registerInput(z); ti.newRecording(); to.newRecording(); g_##NAME(y, x, z); to.registerOutput(y); value(derivative(y)) = s; to.computeAdjoints(); sx_eq(value(derivative(x)), s * (FA), "adjoint"); sx_eq(value(derivative(z)), s * (FB), "adjoint"); derivative(derivative(x)) = r; derivative(derivative(z)) = p; ti.computeAdjoints(); sx_eq(derivative(value(x)), s * (r * (FAA) + p * (FAB)), "second"); sx_eq(derivative(value(z)), s * (r * (FAB) + p * (FBB)), "second"); }
#define MUL(X, Z) ((X) * (Z))
#define DIV(X, Z) ((X) / (Z))
#define PROG(X, Z) (sin((X) * (Z)) * (Z) - 2.0 * (X))
G(mul, MUL, ALL, u * v, v, u, 0, 1, 0)
G(div, DIV, v != 0, u / v, 1 / v, -u / (v * v), 0, -1 / (v * v), 2 * u / (v * v * v))
G(prog, PROG, ALL, std::sin(u * v) * v - 2 * u, std::cos(u * v) * v * v - 2, std::cos(u * v) * u * v + std::sin(u * v), -std::sin(u * v) * v * v * v, -std::sin(u * v) * u * v * v + 2 * v * std::cos(u * v), -std::sin(u * v) * u * u * v + 2 * u * std::cos(u * v))
#define HYP std::hypot(u, v)
#define RR (u * u + v * v)
G(hypot, hypot, u != 0 || v != 0, HYP, u / HYP, v / HYP, v * v / (HYP * RR), -u * v / (HYP * RR), u * u / (HYP * RR))
G(atan2, atan2, u != 0 || v != 0, std::atan2(u, v), v / RR, -u / RR, -2 * u * v / (RR * RR), (u * u - v * v) / (RR * RR), 2 * u * v / (RR * RR))
#define MAXQ(X, Z) max((X) * (X), (Z) * (Z) * 2.0)
G(maxq, MAXQ, u * u > 2 * v * v, u * u, 2 * u, 0, 2, 0, 0)
// third order by nesting three levels
extern "C" void h_third()
{
    typedef xad::FReal<FFD> F3; RD(u); F3 x = u; derivative(value(value(x))) = 1.0; value(derivative(value(x))) = 1.0; value(value(derivative(x))) = 1.0; F3 y = sin(x) * x; sx_eq(derivative(derivative(derivative(y))), -std::cos(u) * u - 3 * std::sin(u), "third derivative"); sx_eq(value(value(value(y))), u * std::sin(u), "value");
}
// programs with several statements and compound assignment in every mode
template <class T> static void prog(T& y, T& a, T& b) { using namespace xad; T c = a * b; y = c + a; y *= c; y -= a / b; y = y + 3.0; T d = y; y = d * 2.0; }
#define PF double c = u * v, F = 2 * ((c + u) * c - u / v + 3), FA = 2 * (2 * u * v * v + 2 * u * v - 1 / v), FB = 2 * (2 * u * u * v + u * u + u / (v * v)), FAA = 2 * (2 * v * v + 2 * v), FAB = 2 * (4 * u * v + 2 * u + 1 / (v * v)), FBB = 2 * (2 * u * u - 2 * u / (v * v * v)); (void)F; (void)FA; (void)FB; (void)FAA; (void)FAB; (void)FBB
extern "C" void h_prog_fwd_fwd() { RD(u); RD(v); RD(s); RD(q); RD(r); RD(p); SXA(v != 0); PF; FFD x = ff(u, s, r), z = ff(v, q, p), y; prog(y, x, z); sx_eq(value(value(y)), F, "value"); sx_eq(derivative(derivative(y)), s * r * FAA + (s * p + q * r) * FAB + q * p * FBB, "second"); }
extern "C" void h_prog_fwd_adj() { RD(u); RD(v); RD(s); RD(q); SXA(v != 0); PF; FTP t; FAD x = fa(u, s), z = fa(v, q), y; t.registerInput(x); t.registerInput(z); t.newRecording(); prog(y, x, z); t.registerOutput(y); value(derivative(y)) = 1.0; t.computeAdjoints(); sx_eq(value(derivative(x)), FA, "adjoint"); sx_eq(value(derivative(z)), FB, "adjoint"); sx_eq(derivative(derivative(x)), s * FAA + q * FAB, "second"); sx_eq(derivative(derivative(z)), s * FAB + q * FBB, "second"); }
extern "C" void h_prog_adj_fwd() { RD(u); RD(v); RD(s); RD(q); SXA(v != 0); PF; TP t; AFD x, z, y; value(x) = u; value(z) = v; t.registerInput(value(x)); t.registerInput(value(z)); t.newRecording(); derivative(x) = s; derivative(z) = q; prog(y, x, z); derivative(derivative(y)) = 1.0; t.computeAdjoints(); sx_eq(derivative(value(x)), s * FAA + q * FAB, "second"); sx_eq(derivative(value(z)), s * FAB + q * FBB, "second"); }
extern "C" void h_prog_adj_adj() { RD(u); RD(v); RD(r); RD(p); SXA(v != 0); PF; TP ti; ATP to; AAD x = u, z = v, y; ti.registerInput(value(x)); ti.registerInput(value(z)); to.registerInput(x); to.registerInput(z); ti.newRecording(); to.newRecording(); prog(y, x, z); to.registerOutput(y); value(derivative(y)) = 1.0; to.computeAdjoints(); sx_eq(value(derivative(x)), FA, "adjoint"); derivative(derivative(x)) = r; derivative(derivative(z)) = p; ti.computeAdjoints(); sx_eq(derivative(value(x)), r * FAA + p * FAB, "second"); sx_eq(derivative(value(z)), r * FAB + p * FBB, "second"); }
// comparisons and branches on nested types look at the innermost value
extern "C" void h_nested_compare()
{
    RD(u); RD(v); RD(s); FFD x = ff(u, s, 1.0), y = ff(v, 0.0, 0.0, s); FAD p = fa(u, s), q = fa(v, 1.0); AFD m, n; value(m) = u; value(n) = v; AAD e = u, f = v;
    int lt = u < v; sx_check((x < y) == lt && (p < q) == lt && (m < n) == lt && (e < f) == lt, "<"); sx_check((x > y) == (u > v) && (p > q) == (u > v) && (m > n) == (u > v) && (e > f) == (u > v), ">");
    sx_check((x == y) == (u == v) && (p == q) == (u == v) && (m == n) == (u == v) && (e == f) == (u == v), "=="); sx_check((x <= y) == (u <= v) && (p >= q) == (u >= v) && (m != n) == (u != v) && (e <= f) == (u <= v), "others");
    sx_check((x < 2.0) == (u < 2) && (2.0 <= p) == (2 <= u) && (m == 2.0) == (u == 2) && (e > 2.0) == (u > 2), "scalar");
}
// mode classes name the right types
extern "C" void h_modes()
{
    static_assert(std::is_same<xad::adj<RL>::active_type, AD>::value && std::is_same<xad::adj<RL>::tape_type, TP>::value, ""); static_assert(std::is_same<xad::fwd<RL>::active_type, FD>::value && std::is_same<xad::fwd<RL>::tape_type, void>::value, "");
    RD(u); RD(s); { typedef xad::fwd_adj<RL> M; M::tape_type t; M::active_type x = u; derivative(value(x)) = s; t.registerInput(x); t.newRecording(); M::active_type y = x * x; value(derivative(y)) = 1.0; t.computeAdjoints(); sx_eq(derivative(derivative(x)), 2 * s, "fwd_adj"); sx_check(std::is_same<M::inner_type, FD>::value && std::is_same<M::passive_type, RL>::value, "types"); }
    { typedef xad::fwd_fwd<RL> M; M::active_type x = u; derivative(value(x)) = s; value(derivative(x)) = 1.0; M::active_type y = x * x; sx_eq(derivative(derivative(y)), 2 * s, "fwd_fwd"); sx_check(std::is_same<M::tape_type, void>::value && std::is_same<M::inner_type, FD>::value, "types"); }
    { typedef xad::adj_fwd<RL> M; M::tape_type t; M::active_type x = u; t.registerInput(value(x)); t.newRecording(); derivative(x) = s; M::active_type y = x * x; derivative(derivative(y)) = 1.0; t.computeAdjoints(); sx_eq(derivative(value(x)), 2 * s, "adj_fwd"); sx_check(std::is_same<M::inner_type, AD>::value, "types"); }
    { typedef xad::adj_adj<RL> M; M::inner_tape_type ti; M::outer_tape_type to; M::active_type x = u; ti.registerInput(value(x)); to.registerInput(x); ti.newRecording(); to.newRecording(); M::active_type y = x * x; value(derivative(y)) = 1.0; to.computeAdjoints(); derivative(derivative(x)) = s; ti.computeAdjoints(); sx_eq(derivative(value(x)), 2 * s, "adj_adj"); }
}

// third order on a tape: forward over forward over adjoint, and adjoints of all three levels
extern "C" void h_third_ffa()
{
    typedef xad::AReal<FFD> T3; RD(u); RD(s); xad::Tape<FFD> t; T3 x = u, z; derivative(value(value(x))) = 1.0; value(derivative(value(x))) = 1.0; t.registerInput(x); t.newRecording(); T3 y = x * x; z = (y - 4.0) * (y - 4.0); t.registerOutput(z); value(value(derivative(z))) = s; t.computeAdjoints();
    sx_eq(value(value(derivative(x))), s * 4 * u * (u * u - 4), "first"); sx_eq(derivative(value(derivative(x))), s * (12 * u * u - 16), "second"); sx_eq(value(derivative(derivative(x))), s * (12 * u * u - 16), "second"); sx_eq(derivative(derivative(derivative(x))), s * 24 * u, "third");
}
extern "C" void h_third_aff()
{
    typedef xad::FReal<FAD> T3; RD(u); RD(s); FTP t; T3 x = u; derivative(value(value(x))) = 1.0; t.registerInput(value(x)); t.newRecording(); value(value(derivative(x))) = 1.0; T3 y = x * x; T3 z = (y - 4.0) * (y - 4.0); value(derivative(derivative(z))) = s; t.computeAdjoints();
    sx_eq(value(derivative(value(x))), s * (12 * u * u - 16), "second"); sx_eq(derivative(derivative(value(x))), s * 24 * u, "third");
}
extern "C" void h_third_faa()
{
    typedef xad::AReal<AFD> T3; RD(u); RD(s); RD(r); TP ti; xad::Tape<AFD> to; T3 x = u, z; ti.registerInput(value(value(x))); to.registerInput(x); ti.newRecording(); to.newRecording(); value(derivative(value(x))) = 1.0; T3 y = x * x; z = (y - 4.0) * (y - 4.0); to.registerOutput(z); value(value(derivative(z))) = s; to.computeAdjoints();
    sx_eq(value(value(derivative(x))), s * 4 * u * (u * u - 4), "first"); sx_eq(value(derivative(derivative(x))), s * (12 * u * u - 16), "second"); derivative(derivative(derivative(x))) = r; ti.computeAdjoints(); sx_eq(derivative(value(value(x))), r * s * 24 * u, "third");
}
extern "C" void h_third_aaa()
{
    typedef xad::AReal<AAD> T3; RD(u); RD(s); RD(r); RD(q); TP t1; ATP t2; xad::Tape<AAD> t3; T3 x = u, z; t1.registerInput(value(value(x))); t2.registerInput(value(x)); t3.registerInput(x); t1.newRecording(); t2.newRecording(); t3.newRecording(); T3 y = x * x; z = (y - 4.0) * (y - 4.0); t3.registerOutput(z); value(value(derivative(z))) = s; t3.computeAdjoints();
    sx_eq(value(value(derivative(x))), s * 4 * u * (u * u - 4), "first"); value(derivative(derivative(x))) = r; t2.computeAdjoints(); sx_eq(value(derivative(value(x))), r * s * (12 * u * u - 16), "second"); derivative(derivative(value(x))) = q; t1.computeAdjoints(); sx_eq(derivative(value(value(x))), q * r * s * 24 * u, "third");
}
extern "C" void h_third_fafa()
{   // adjoint over forward over adjoint
    typedef xad::AReal<FAD> T0; (void)sizeof(T0); typedef xad::AReal<FFD> T3; RD(u); xad::Tape<FFD> t; T3 x = u; t.registerInput(x); t.newRecording(); for (int k = 0; k < 2; ++k) { T3 y = sin(x) * 2.0; value(derivative(value(x))) = 0.0; t.clearDerivatives(); value(value(derivative(y))) = 1.0; t.computeAdjoints(); sx_eq(value(value(derivative(x))), 2 * std::cos(u), "first"); }
}
