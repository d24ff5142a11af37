// Independent reference for complex arithmetic with one directional derivative.
#pragma once
#include <cmath>
#include "sx.hpp"
struct DU { double v, d; DU(double a = 0, double b = 0) : v(a), d(b) {} };   // value and derivative
static inline DU operator+(DU a, DU b) { return DU(a.v + b.v, a.d + b.d); }
static inline DU operator-(DU a, DU b) { return DU(a.v - b.v, a.d - b.d); }
static inline DU operator-(DU a) { return DU(-a.v, -a.d); }
static inline DU operator*(DU a, DU b) { return DU(a.v * b.v, a.d * b.v + a.v * b.d); }
static inline DU operator/(DU a, DU b) { return DU(a.v / b.v, (a.d * b.v - a.v * b.d) / (b.v * b.v)); }
static inline DU dsin(DU a) { return DU(std::sin(a.v), a.d * std::cos(a.v)); }
static inline DU dcos(DU a) { return DU(std::cos(a.v), -a.d * std::sin(a.v)); }
static inline DU dexp(DU a) { double e = std::exp(a.v); return DU(e, a.d * e); }
static inline DU dlog(DU a) { return DU(std::log(a.v), a.d / a.v); }
static inline DU dsqrt(DU a) { double s = std::sqrt(a.v); return DU(s, a.d / (2 * s)); }
static inline DU dhypot(DU a, DU b) { double h = std::hypot(a.v, b.v); return DU(h, (a.v * a.d + b.v * b.d) / h); }
static inline DU datan2(DU a, DU b) { return DU(std::atan2(a.v, b.v), (a.d * b.v - a.v * b.d) / (a.v * a.v + b.v * b.v)); }
struct Z { DU r, i; Z(DU a = DU(), DU b = DU()) : r(a), i(b) {} };
static inline Z operator+(Z a, Z b) { return Z(a.r + b.r, a.i + b.i); }
static inline Z operator-(Z a, Z b) { return Z(a.r - b.r, a.i - b.i); }
static inline Z operator-(Z a) { return Z(-a.r, -a.i); }
static inline Z operator*(Z a, Z b) { return Z(a.r * b.r - a.i * b.i, a.r * b.i + a.i * b.r); }
static inline Z operator/(Z a, Z b) { DU n = b.r * b.r + b.i * b.i; return Z((a.r * b.r + a.i * b.i) / n, (a.i * b.r - a.r * b.i) / n); }
static inline Z zpolar(DU r, DU t) { return Z(r * dcos(t), r * dsin(t)); }
static inline DU zabs(Z a) { return dhypot(a.r, a.i); }
static inline DU zarg(Z a) { return datan2(a.i, a.r); }
static inline Z zexp(Z a) { return zpolar(dexp(a.r), a.i); }
static inline Z zlog(Z a) { return Z(dlog(zabs(a)), zarg(a)); }
static inline Z zsqrt(Z a) { return zpolar(dsqrt(zabs(a)), zarg(a) * DU(0.5)); }
static inline Z zi(Z a) { return Z(-a.i, a.r); }    // i*a
static inline Z zmi(Z a) { return Z(a.i, -a.r); }   // -i*a
static inline void zeq(double re, double im, DU r, DU i, const char* w) { sx_eq(re, r.v, w); sx_eq(im, i.v, w); }
