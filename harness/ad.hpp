// Common pieces of the harnesses.
#pragma once
#include <XAD/XAD.hpp>
#include <XAD/Jacobian.hpp>
#include <XAD/Hessian.hpp>
#include <XAD/Complex.hpp>
#include <XAD/StdCompatibility.hpp>
#include <XAD/CheckpointCallback.hpp>
#include <cmath>
#include <complex>
#include <utility>
#include <vector>
#include "sx.hpp"
#ifdef SX_FLOAT     // the same harnesses on single-precision types
typedef float RL;
typedef double RO;   // the other precision
#ifndef SX_SYMBOLIC
extern "C" double sx_tol;                       // native replay: tolerance of single precision
namespace { struct SxFloatTol { SxFloatTol() { sx_tol = 2e-3; } } sx_float_tol; }
#endif
#else
typedef double RL;
typedef float RO;
#endif
typedef xad::AReal<RL> AD;
typedef xad::FReal<RL> FD;
typedef xad::Tape<RL> TP;
typedef xad::AReal<RO> ADf;
typedef xad::FReal<RO> FDf;
typedef xad::Tape<RO> TPf;
typedef xad::FReal<FD> FFD;              // forward over forward
typedef xad::AReal<FD> FAD;              // forward over reverse
typedef xad::Tape<FD> FTP;
typedef xad::FReal<AD> AFD;              // reverse over forward
typedef xad::AReal<AD> AAD;              // reverse over reverse
typedef xad::Tape<AD> ATP;
using xad::value;
using xad::derivative;
// f: callable (y&, x...) assigning the active result; computes value, adjoints with the given seed
struct R1 { double v, d; };
struct R2 { double v, da, db; };
template <class F> R1 rev(F f, double x, double s)
{
    TP t; AD a = x; t.registerInput(a); t.newRecording();
    AD y; f(y, a);
    t.registerOutput(y); derivative(y) = s; t.computeAdjoints();
    return {value(y), derivative(a)};
}
template <class F> R1 fwd(F f, double x, double s)
{
    FD a = x; derivative(a) = s; FD y; f(y, a);
    return {value(y), derivative(y)};
}
template <class F> R2 rev2(F f, double x, double y, double s)
{
    TP t; AD a = x, b = y; t.registerInput(a); t.registerInput(b); t.newRecording();
    AD z; f(z, a, b);
    t.registerOutput(z); derivative(z) = s; t.computeAdjoints();
    return {value(z), derivative(a), derivative(b)};
}
template <class F> R1 fwd2(F f, double x, double y, double s1, double s2)
{
    FD a = x, b = y; derivative(a) = s1; derivative(b) = s2; FD z; f(z, a, b);
    return {value(z), derivative(z)};
}
#define SXA(c) sx_assume(c)
