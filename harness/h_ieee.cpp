// Values: operators, functions and observers of active types against the same operation on the underlying doubles,
// for all bit patterns (IEEE arithmetic; library functions are uninterpreted, so the same function has to be called with the same argument).
#include "ad.hpp"
#include <cmath>
#define RD(n) double n = sx_real(#n)
// kinds of operand
template <class T> struct Mk;
#define UN(fn, g) \
  extern "C" void h_val_##fn##_ieee() { RD(x); int k = sx_choice("kind", 5); double e = g(k == 3 ? -x : k == 4 ? x * 2.0 : x); double r; \
    if (k == 0) { TP t; AD a = x; t.registerInput(a); t.newRecording(); AD y = fn(a); r = value(y); } \
    else if (k == 1) { AD a = x; AD y = fn(a); r = value(y); } \
    else if (k == 2) { FD a(x, 1.0); FD y = fn(a); r = value(y); } \
    else if (k == 3) { AD a = x; r = value(fn(-a)); } \
    else { FD a(x, 1.0); r = value(fn(a * 2.0)); } \
    sx_same(r, e, "value"); }
#define U(fn) UN(fn, std::fn)
static double deg(double x) { return x * 57.29577951308232; }
U(cos) U(sin) U(log) U(log10) U(log2) U(asin) U(acos) U(atan) U(sinh) U(cosh) U(expm1) U(exp2) U(log1p) U(asinh) U(acosh) U(atanh) U(abs) U(fabs) U(floor) U(ceil) U(trunc) U(round) U(exp) U(tanh) U(sqrt) U(cbrt) U(tan) U(erf) U(erfc)
// arithmetic and binary functions
template <class A, class B> static double f2(int op, const A& a, const B& b)
{
    using std::pow; using std::fmod; using std::atan2; using std::hypot; using std::nextafter; using std::remainder;
    switch (op) { case 0: return value(a + b); case 1: return value(a - b); case 2: return value(a * b); case 3: return value(a / b); case 4: return value(pow(a, b)); case 5: return value(fmod(a, b)); case 6: return value(atan2(a, b)); case 7: return value(hypot(a, b)); case 8: return value(nextafter(a, b)); default: return value(remainder(a, b)); }
}
static double g2(int op, double a, double b) { switch (op) { case 0: return a + b; case 1: return a - b; case 2: return a * b; case 3: return a / b; case 4: return std::pow(a, b); case 5: return std::fmod(a, b); case 6: return std::atan2(a, b); case 7: return std::hypot(a, b); case 8: return std::nextafter(a, b); default: return std::remainder(a, b); } }
template <class T> static void bin()
{
    RD(x); RD(y); int op = sx_choice("op", 10), k = sx_choice("kind", 6); T a = x, b = y;
    switch (k) { case 0: sx_same(f2(op, a, b), g2(op, x, y), "value"); break; case 1: sx_same(f2(op, -a, b), g2(op, -x, y), "value"); break; case 2: sx_same(f2(op, a, -b), g2(op, x, -y), "value"); break;
      case 3: sx_same(f2(op, -a, -b), g2(op, -x, -y), "value"); break; case 4: sx_same(f2(op, a, y), g2(op, x, y), "value"); break; default: sx_same(f2(op, x, b), g2(op, x, y), "value"); }
}
extern "C" void h_val2_ad_ieee() { bin<AD>(); } extern "C" void h_val2_fd_ieee() { bin<FD>(); }
extern "C" void h_val2_tape_ieee() { RD(x); RD(y); int op = sx_choice("op", 10); TP t; AD a = x, b = y; t.registerInput(a); t.registerInput(b); t.newRecording(); sx_same(f2(op, a, b), g2(op, x, y), "value"); AD r = a; switch (op) { case 0: r = a + b; break; case 1: r -= b; break; case 2: r *= b; break; case 3: r /= b; break; default: r = g2(op, x, y); } sx_same(value(r), g2(op, x, y), "assigned value"); }
// integral and float operands
template <class T> static void mixedint()
{
    RD(x); T a = x; int op = sx_choice("op", 4), k = sx_choice("kind", 6);
    auto go = [&](auto s) { double d = s; switch (op) { case 0: sx_same(value(a + s), x + d, "+"); sx_same(value(s + a), d + x, "+"); break; case 1: sx_same(value(a - s), x - d, "-"); sx_same(value(s - a), d - x, "-"); break; case 2: sx_same(value(a * s), x * d, "*"); sx_same(value(s * a), d * x, "*"); break; default: sx_same(value(a / s), x / d, "/"); sx_same(value(s / a), d / x, "/"); } };
    switch (k) { case 0: go(3); break; case 1: go(-7L); break; case 2: go(4000000000u); break; case 3: go((short)-2); break; case 4: go(0.1f); break; default: go((long long)5); }
}
extern "C" void h_valint_ad_ieee() { mixedint<AD>(); } extern "C" void h_valint_fd_ieee() { mixedint<FD>(); }
// every comparison, with every pair of operand kinds
template <class A, class B> static bool cmp(int op, const A& a, const B& b) { switch (op) { case 0: return a == b; case 1: return a != b; case 2: return a < b; case 3: return a <= b; case 4: return a > b; default: return a >= b; } }
template <class T> static void compare()
{
    RD(x); RD(y); int op = sx_choice("op", 6), k = sx_choice("kind", 8); T a = x, b = y; bool r, e;
    switch (k) { case 0: r = cmp(op, a, b); e = cmp(op, x, y); break; case 1: r = cmp(op, -a, b); e = cmp(op, -x, y); break; case 2: r = cmp(op, a, -b); e = cmp(op, x, -y); break; case 3: r = cmp(op, a + b, a * b); e = cmp(op, x + y, x * y); break;
      case 4: r = cmp(op, a, y); e = cmp(op, x, y); break; case 5: r = cmp(op, x, b); e = cmp(op, x, y); break; case 6: r = cmp(op, -a, y); e = cmp(op, -x, y); break; default: r = cmp(op, x, b * 2.0); e = cmp(op, x, y * 2.0); }
    sx_check(r == e, "comparison");
}
extern "C" void h_cmp_ad_ieee() { compare<AD>(); } extern "C" void h_cmp_fd_ieee() { compare<FD>(); }
template <class T> static void compareint() { RD(x); int op = sx_choice("op", 6), k = sx_choice("kind", 2); T a = x; int n = 3; sx_check(k ? cmp(op, a, n) == cmp(op, x, 3.0) : cmp(op, n, a) == cmp(op, 3.0, x), "comparison with an int"); }
extern "C" void h_cmpint_ad_ieee() { compareint<AD>(); } extern "C" void h_cmpint_fd_ieee() { compareint<FD>(); }
// higher order and other precisions
extern "C" void h_cmp_high_ieee() { RD(x); RD(y); int op = sx_choice("op", 6), k = sx_choice("kind", 4); FAD a, b; value(value(a)) = x; value(value(b)) = y; FFD c = x, d = y; bool e = cmp(op, x, y); switch (k) { case 0: sx_check(cmp(op, a, b) == e, "forward over adjoint"); break; case 1: sx_check(cmp(op, c, d) == e, "forward over forward"); break; case 2: sx_check(cmp(op, a, y) == e, "forward over adjoint and double"); break; default: sx_check(cmp(op, x, d) == e, "double and forward over forward"); } }
// comparing and classifying records nothing
extern "C" void h_observe_silent_ieee() { RD(x); RD(y); TP t; AD a = x, b = y; t.registerInput(a); t.registerInput(b); t.newRecording(); auto p = t.getPosition(); auto n = t.getNumOperations(), v = (decltype(n))t.getNumVariables(); int k = sx_choice("what", 8); bool r = false; switch (k) { case 0: r = a < b; break; case 1: r = a + b == a * b; break; case 2: r = std::isnan(a * b); break; case 3: r = std::signbit(-a); break; case 4: r = value(a + b) > 1; break; case 5: r = std::isfinite(a / b) && std::isinf(b); break; case 6: r = a.getValue() > 0 || a.value() < 1; break; default: r = std::fpclassify(a) == FP_NAN; } (void)r; sx_check(t.getPosition() == p && t.getNumOperations() == n && (decltype(n))t.getNumVariables() == v, "observing records nothing"); }
// classification
template <class T, class E> static void cls(const T& a, const E& e, double x, double y)
{
    int k = sx_choice("fn", 6);
    switch (k) { case 0: sx_check(std::isnan(a) == std::isnan(x) && std::isnan(e) == std::isnan(y), "isnan"); break; case 1: sx_check(std::isinf(a) == std::isinf(x) && std::isinf(e) == std::isinf(y), "isinf"); break; case 2: sx_check(std::isfinite(a) == std::isfinite(x) && std::isfinite(e) == std::isfinite(y), "isfinite"); break;
      case 3: sx_check(std::isnormal(a) == std::isnormal(x) && std::isnormal(e) == std::isnormal(y), "isnormal"); break; case 4: { if (!std::isnan(x)) sx_check(std::signbit(a) == std::signbit(x), "signbit"); if (!std::isnan(y)) sx_check(std::signbit(e) == std::signbit(y), "signbit of an expression"); break; } default: sx_check(std::fpclassify(a) == std::fpclassify(x) && std::fpclassify(e) == std::fpclassify(y), "fpclassify"); }
}
extern "C" void h_class_ad_ieee() { RD(x); AD a = x; if (sx_choice("unary", 2)) cls(a, -a, x, -x); else cls(a, a * 2.0, x, x * 2.0); }
extern "C" void h_class_fd_ieee() { RD(x); FD a = x; if (sx_choice("unary", 2)) cls(a, -a, x, -x); else cls(a, a + a, x, x + x); }
// copysign, scalbn, max and min
extern "C" void h_copysign_ieee() { RD(x); RD(y); SXA(x == x && y == y); int k = sx_choice("kind", 6); double e = std::copysign(x, y), r; AD a = x, b = y; FD c = x, d = y; switch (k) { case 0: r = value(copysign(a, b)); break; case 1: r = value(copysign(a, y)); break; case 2: r = copysign(x, b); break; case 3: r = value(copysign(c, d)); break; case 4: r = value(copysign(-a, b * 2.0)); e = std::copysign(-x, y); break; default: r = value(copysign(-c, y)); e = std::copysign(-x, y); } sx_same(r, e, "copysign"); }
extern "C" void h_copysign_nan_ieee() { RD(x); RD(y); SXA(x != x || y == y); AD a = x, b = y; sx_same(value(copysign(a, b)), std::copysign(x, y), "copysign"); FD c = x; sx_same(value(copysign(c, y)), std::copysign(x, y), "copysign"); }
extern "C" void h_scalbn_ieee() { static const int E[] = {0, 1, -1, 52, -1022, 1023, -1074, 1024, -1100, 1100, 2000, -2000}; RD(x); int n = E[sx_choice("exp", 12)]; int k = sx_choice("kind", 4); double e = std::scalbn(x, n), r; AD a = x; FD c = x; switch (k) { case 0: r = value(scalbn(a, n)); break; case 1: r = value(scalbn(c, n)); break; case 2: r = value(ldexp(a, n)); break; default: r = value(ldexp(-c, n)); e = std::scalbn(-x, n); } sx_same(r, e, "scaled value"); }
extern "C" void h_maxmin_ieee()
{
    RD(x); RD(y); SXA(x == x && y == y); int k = sx_choice("kind", 12); AD a = x, b = y; FD c = x, d = y; double r; bool mx = true;
    switch (k) { case 0: r = value(max(a, b)); break; case 1: r = value(max(c, y)); break; case 2: r = value(max(x, b)); break; case 3: r = value(fmax(a, b)); break; case 4: r = value(fmax(c, d)); break; case 5: r = value(fmax(x, d)); break;
      case 6: r = value(min(a, b)); break; case 7: r = value(min(c, y)); break; case 8: r = value(min(x, b)); break; case 9: r = value(fmin(a, b)); break; case 10: r = value(fmin(c, d)); break; default: r = value(fmin(x, d)); }
    if (k >= 6) mx = false;
    sx_check((r == x || r == y) && (mx ? r >= x && r >= y : r <= x && r <= y), mx ? "maximum" : "minimum");
}
// programs: no re-association, no lost operation
extern "C" void h_prog_ieee() { RD(x); RD(y); RD(z); int k = sx_choice("mode", 3); auto f = [](auto a, auto b, auto c) { decltype(a) r = a * b + c - a / (b + 1.0); r *= c; r += a - 3 * b; r -= -c * a; r /= 2.0 - b; return r; }; double e = f(x, y, z), r; if (k == 0) { TP t; AD a = x, b = y, c = z; t.registerInput(a); t.registerInput(b); t.newRecording(); r = value(f(a, b, c)); } else if (k == 1) { r = value(f(AD(x), AD(y), AD(z))); } else r = value(f(FD(x), FD(y), FD(z))); sx_same(r, e, "value of the program"); }
extern "C" void h_prog2_ieee() { RD(x); RD(y); int k = sx_choice("mode", 3); auto f = [](auto a, auto b) { decltype(a) r = a; for (int i = 0; i < 2; ++i) { if (r > b) r = sqrt(r) * b; else r += sin(a) / b; } return r; }; double e = f(x, y), r; if (k == 0) { TP t; AD a = x, b = y; t.registerInput(a); t.registerInput(b); t.newRecording(); r = value(f(a, b)); } else if (k == 1) r = value(f(AD(x), AD(y))); else r = value(f(FD(x), FD(y))); sx_same(r, e, "value of the program"); }
// conversions and increments
extern "C" void h_incdec_ieee() { RD(x); AD a = x; FD c = x; double e = x; int k = sx_choice("k", 4); double r1, r2, re; switch (k) { case 0: r1 = value(++a); r2 = value(++c); re = ++e; break; case 1: r1 = value(a++); r2 = value(c++); re = e++; break; case 2: r1 = value(--a); r2 = value(--c); re = --e; break; default: r1 = value(a--); r2 = value(c--); re = e--; } sx_same(r1, re, "result"); sx_same(r2, re, "result"); sx_same(value(a), e, "variable"); sx_same(value(c), e, "variable"); }
