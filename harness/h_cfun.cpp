// Complex mathematical functions on active types: value and exact derivatives in adjoint and forward mode.
#include "ad.hpp"
#include "cref.hpp"
#define RD(n) double n = sx_real(#n)
typedef std::complex<RL> CD;
template <class T> using CT = std::complex<T>;
static Z K(double v) { return Z(DU(v)); }
static Z zsinh(Z z) { return (zexp(z) - zexp(-z)) / K(2); }
static Z zcosh(Z z) { return (zexp(z) + zexp(-z)) / K(2); }
static Z ztanh(Z z) { return zsinh(z) / zcosh(z); }
static Z zasinh(Z z) { return zlog(z + zsqrt(K(1) + z * z)); }
static Z zacosh(Z z) { return zlog(z + zsqrt(z + K(1)) * zsqrt(z - K(1))); }
static Z zatanh(Z z) { return (zlog(K(1) + z) - zlog(K(1) - z)) / K(2); }
static Z zacos(Z z) { return K(1.5707963267948966) + zi(zlog(zi(z) + zsqrt(K(1) - z * z))); }
static Z zlog10(Z z) { Z l = zlog(z); DU c(0.43429448190325182765112891891661); return Z(l.r * c, l.i * c); }
static Z zpow(Z a, Z b) { return zexp(zlog(a) * b); }
// adjoint of every part against one directional derivative of the reference
template <class F, class R> static void rev(F f, R ref, double p, double q)
{
    int j = sx_choice("j", 2), c = sx_choice("c", 2); double s = sx_real("seed"); TP t; CT<AD> z(p, q); t.registerInput(z); t.newRecording(); CT<AD> w = f(z); Z e = ref(Z(DU(p, j == 0), DU(q, j == 1))); zeq(value(w.real()), value(w.imag()), e.r, e.i, "value");
    t.registerOutput(w); derivative(c ? w.imag() : w.real()) = s; t.computeAdjoints(); sx_eq(derivative(j ? z.imag() : z.real()), s * (c ? e.i.d : e.r.d), "adjoint");
}
template <class F, class R> static void fwd(F f, R ref, double p, double q)
{
    int j = sx_choice("j", 2); double s = sx_real("s"); CT<FD> z{FD(p, j == 0 ? s : 0.0), FD(q, j == 1 ? s : 0.0)}; CT<FD> w = f(z); Z e = ref(Z(DU(p, j == 0), DU(q, j == 1)));
    zeq(value(w.real()), value(w.imag()), e.r, e.i, "value"); sx_eq(derivative(w.real()), s * e.r.d, "derivative re"); sx_eq(derivative(w.imag()), s * e.i.d, "derivative im");
}
#define UF(fn, reff, cond) \
  extern "C" void h_##fn##_rev() { RD(p); RD(q); SXA(cond); rev([](const CT<AD>& z) { return std::fn(z); }, [](Z z) { return reff; }, p, q); } \
  extern "C" void h_##fn##_fwd() { RD(p); RD(q); SXA(cond); fwd([](const CT<FD>& z) { return std::fn(z); }, [](Z z) { return reff; }, p, q); }
// compositions several functions deep: every point in forward mode; in adjoint mode points of each quadrant and all seeds
// (the sweep skips zero adjoints, and where the many intermediate adjoints vanish has no closed form)
static const double PT[][2] = {{0.5, 0.25}, {-0.75, 1.5}, {2.0, -0.5}, {-1.25, -3.0}, {0.125, 1.0}, {1.5, 0.0625}};
#define UG(fn, reff, cond) \
  extern "C" void h_##fn##_rev() { int k = sx_choice("point", 6); rev([](const CT<AD>& z) { return std::fn(z); }, [](Z z) { return reff; }, PT[k][0], PT[k][1]); } \
  extern "C" void h_##fn##_fwd() { RD(p); RD(q); SXA(cond); fwd([](const CT<FD>& z) { return std::fn(z); }, [](Z z) { return reff; }, p, q); }
UF(exp, zexp(z), true)
UF(log, zlog(z), p != 0 || q != 0)
UF(log10, zlog10(z), p != 0 || q != 0)
UF(sqrt, zsqrt(z), p != 0 || q != 0)
UF(sinh, zsinh(z), true)
UF(cosh, zcosh(z), true)
UG(tanh, ztanh(z), true)
UF(sin, zmi(zsinh(zi(z))), true)
UF(cos, zcosh(zi(z)), true)
UG(tan, zmi(ztanh(zi(z))), true)
UG(asinh, zasinh(z), q != 0 && q != 1 && q != -1 && p != 0)
UG(acosh, zacosh(z), q != 0)
UF(atanh, zatanh(z), q != 0)
UG(asin, zmi(zasinh(zi(z))), q != 0 && p != 0)
UG(acos, zacos(z), q != 0 && p != 0)
UF(atan, zmi(zatanh(zi(z))), p != 0)
// the real axis and the origin, where the implementations have special cases
#define RB(fn, reff, cond) \
  extern "C" void h_##fn##_axis_rev() { RD(p); double q = 0; SXA(cond); rev([](const CT<AD>& z) { return std::fn(z); }, [](Z z) { return reff; }, p, q); } \
  extern "C" void h_##fn##_axis_fwd() { RD(p); double q = 0; SXA(cond); fwd([](const CT<FD>& z) { return std::fn(z); }, [](Z z) { return reff; }, p, q); }
#define RA(fn, reff, cond) RB(fn, reff, cond) RZ(fn, reff)
#define RZ(fn, reff) extern "C" void h_##fn##_zero() { { fwd([](const CT<FD>& z) { return std::fn(z); }, [](Z z) { return reff; }, 0.0, 0.0); rev([](const CT<AD>& z) { return std::fn(z); }, [](Z z) { return reff; }, 0.0, 0.0); } }
RA(exp, zexp(z), true)
RA(sinh, zsinh(z), true)
RA(cosh, zcosh(z), true)
#define RG(fn, reff, cond) \
  extern "C" void h_##fn##_axis_rev() { double p = sx_choice("p", 7) - 3; double q = 0; if (cond) rev([](const CT<AD>& z) { return std::fn(z); }, [](Z z) { return reff; }, p, q); } \
  extern "C" void h_##fn##_axis_fwd() { RD(p); double q = 0; SXA(cond); fwd([](const CT<FD>& z) { return std::fn(z); }, [](Z z) { return reff; }, p, q); } \
  RZ(fn, reff)
RG(tanh, ztanh(z), true)
RA(sin, zmi(zsinh(zi(z))), true)
RA(cos, zcosh(zi(z)), true)
RB(log, zlog(z), p > 0 || p < 0)
RB(sqrt, zsqrt(z), p > 0 || p < 0)
RA(asinh, zasinh(z), true)
RA(atanh, zatanh(z), p < 1 && p > -1)
RA(acos, zacos(z), p < 1 && p > -1 && p != 0)
RA(asin, zmi(zasinh(zi(z))), p < 1 && p > -1)
RA(atan, zmi(zatanh(zi(z))), true)
// abs, arg, norm; polar
template <class T> struct One;
extern "C" void h_abs_arg_rev() { RD(p); RD(q); SXA(p != 0 || q != 0); int k = sx_choice("k", 3), j = sx_choice("j", 2); double s = sx_real("seed"); TP t; CT<AD> z(p, q); t.registerInput(z); t.newRecording(); AD y; if (k == 0) y = std::abs(z); else if (k == 1) y = std::arg(z); else y = std::norm(z); Z x(DU(p, j == 0), DU(q, j == 1)); DU e = k == 0 ? zabs(x) : k == 1 ? zarg(x) : x.r * x.r + x.i * x.i; sx_eq(value(y), e.v, "value"); t.registerOutput(y); derivative(y) = s; t.computeAdjoints(); sx_eq(derivative(j ? z.imag() : z.real()), s * e.d, "adjoint"); }
extern "C" void h_abs_arg_fwd() { RD(p); RD(q); SXA(p != 0 || q != 0); int k = sx_choice("k", 3), j = sx_choice("j", 2); double s = sx_real("s"); CT<FD> z(FD(p, j == 0 ? s : 0.0), FD(q, j == 1 ? s : 0.0)); FD y; if (k == 0) y = std::abs(z); else if (k == 1) y = std::arg(z); else y = std::norm(z); Z x(DU(p, j == 0), DU(q, j == 1)); DU e = k == 0 ? zabs(x) : k == 1 ? zarg(x) : x.r * x.r + x.i * x.i; sx_eq(value(y), e.v, "value"); sx_eq(derivative(y), s * e.d, "derivative"); }
template <class T> static CT<T> pol(int k, const T& r, const T& th, RL pr, RL pt)
{
    switch (k) { case 0: return std::polar(r, th); case 1: return std::polar(r * 2.0, th * th); case 2: return std::polar(r, th + 1.0); case 3: return std::polar(r * 2.0, th); case 4: return std::polar(pr, th * 2.0); case 5: return std::polar(r * 2.0, pt); default: return std::polar(r); }
}
static Z rpol(int k, DU r, DU th)
{
    DU two(2), one(1), zr(r.v), zt(th.v); switch (k) { case 0: return zpolar(r, th); case 1: return zpolar(r * two, th * th); case 2: return zpolar(r, th + one); case 3: return zpolar(r * two, th); case 4: return zpolar(zr, th * two); case 5: return zpolar(r * two, zt); default: return Z(r); }
}
extern "C" void h_polar_rev() { RD(r); RD(th); int k = sx_choice("k", 7), j = sx_choice("j", 2), c = sx_choice("c", 2); double s = sx_real("seed"); TP t; AD x = r, y = th; t.registerInput(x); t.registerInput(y); t.newRecording(); CT<AD> w = pol<AD>(k, x, y, r, th); Z e = rpol(k, DU(r, j == 0), DU(th, j == 1)); zeq(value(w.real()), value(w.imag()), e.r, e.i, "value"); t.registerOutput(w); derivative(c ? w.imag() : w.real()) = s; t.computeAdjoints(); sx_eq(derivative(j ? y : x), s * (c ? e.i.d : e.r.d), "adjoint"); }
extern "C" void h_polar_fwd() { RD(r); RD(th); int k = sx_choice("k", 7), j = sx_choice("j", 2); double s = sx_real("s"); FD x(r, j == 0 ? s : 0.0), y(th, j == 1 ? s : 0.0); CT<FD> w = pol<FD>(k, x, y, r, th); Z e = rpol(k, DU(r, j == 0), DU(th, j == 1)); zeq(value(w.real()), value(w.imag()), e.r, e.i, "value"); sx_eq(derivative(w.real()), s * e.r.d, "derivative re"); sx_eq(derivative(w.imag()), s * e.i.d, "derivative im"); }
// pow with every operand kind; z, w active complex with one varying part each
enum { PZZ, PZC, PZR, PZE, PZD, PZI, PZU, PZS, PCZ, PRZ, PEZ, PDZ, PIZ, PUZ, PZL, PLZ, NP };
template <class T> static CT<T> pw(int k, const CT<T>& a, const CT<T>& b, const CD& ca, const CD& cb)
{
    switch (k) { case PZZ: return std::pow(a, b); case PZC: return std::pow(a, cb); case PZR: return std::pow(a, b.real()); case PZE: return std::pow(a, b.real() * 2.0); case PZD: return std::pow(a, cb.real()); case PZI: return std::pow(a, 3); case PZU: return std::pow(a, 2u); case PZS: return std::pow(a, (short)-1); case PZL: return std::pow(a, -2L);
      case PCZ: return std::pow(ca, b); case PRZ: return std::pow(a.real(), b); case PEZ: return std::pow(a.real() * 2.0, b); case PDZ: return std::pow(ca.real(), b); case PIZ: return std::pow(3, b); case PUZ: return std::pow(2u, b); default: return std::pow(5L, b); }
}
static Z rpw(int k, Z a, Z b)
{
    Z ca(DU(a.r.v), DU(a.i.v)), cb(DU(b.r.v), DU(b.i.v));
    switch (k) { case PZZ: return zpow(a, b); case PZC: return zpow(a, cb); case PZR: return zpow(a, Z(b.r)); case PZE: return zpow(a, Z(b.r * DU(2))); case PZD: return zpow(a, K(b.r.v)); case PZI: return zpow(a, K(3)); case PZU: return zpow(a, K(2)); case PZS: return zpow(a, K(-1)); case PZL: return zpow(a, K(-2));
      case PCZ: return zpow(ca, b); case PRZ: return zpow(Z(a.r), b); case PEZ: return zpow(Z(a.r * DU(2)), b); case PDZ: return zpow(K(a.r.v), b); case PIZ: return zpow(K(3), b); case PUZ: return zpow(K(2), b); default: return zpow(K(5), b); }
}
static void pow_rev(bool neg)
{
    int k = sx_choice("k", NP), j = sx_choice("j", 4), c = sx_choice("c", 2); RD(p); RD(q); RD(r); RD(s); double u = sx_real("seed"); SXA(neg ? p < 0 : p > 0); SXA(q != 0); TP t; CT<AD> a(p, q), b(r, s); t.registerInput(a); t.registerInput(b); t.newRecording(); CT<AD> w = pw<AD>(k, a, b, CD(p, q), CD(r, s)); Z e = rpw(k, Z(DU(p, j == 0), DU(q, j == 1)), Z(DU(r, j == 2), DU(s, j == 3))); zeq(value(w.real()), value(w.imag()), e.r, e.i, "value");
    t.registerOutput(w); derivative(c ? w.imag() : w.real()) = u; t.computeAdjoints(); AD& x = j < 2 ? (j ? a.imag() : a.real()) : (j == 3 ? b.imag() : b.real()); sx_eq(derivative(x), u * (c ? e.i.d : e.r.d), "adjoint");
}
static void pow_fwd(bool neg)
{
    int k = sx_choice("k", NP), j = sx_choice("j", 4); RD(p); RD(q); RD(r); RD(s); double u = sx_real("u"); SXA(neg ? p < 0 : p > 0); SXA(q != 0); CT<FD> a(FD(p, j == 0 ? u : 0.0), FD(q, j == 1 ? u : 0.0)), b(FD(r, j == 2 ? u : 0.0), FD(s, j == 3 ? u : 0.0)); CT<FD> w = pw<FD>(k, a, b, CD(p, q), CD(r, s)); Z e = rpw(k, Z(DU(p, j == 0), DU(q, j == 1)), Z(DU(r, j == 2), DU(s, j == 3))); zeq(value(w.real()), value(w.imag()), e.r, e.i, "value"); sx_eq(derivative(w.real()), u * e.r.d, "derivative re"); sx_eq(derivative(w.imag()), u * e.i.d, "derivative im");
}
extern "C" void h_pow_rev() { pow_rev(false); } extern "C" void h_pow_neg_rev() { pow_rev(true); } extern "C" void h_pow_fwd() { pow_fwd(false); } extern "C" void h_pow_neg_fwd() { pow_fwd(true); }
