// Complex arithmetic with active types: all operand kinds, value and derivative, adjoint and forward mode.
#include "ad.hpp"
#include "cref.hpp"
#define RD(n) double n = sx_real(#n)
typedef std::complex<RL> CD;
template <class T> using CT = std::complex<T>;
// operand kinds: Z active complex, C passive complex, R active real, E expression (2r), D passive real
enum { ZZ, ZC, ZR, ZE, ZD, CZ, CR, CE, RZ, RC, EZ, EC, DZ, NK };
#define KIND(OP) \
  switch (k) { case ZZ: return za OP zb; case ZC: return za OP cb; case ZR: return za OP zb.real(); case ZE: return za OP (zb.real() * 2.0); case ZD: return za OP cb.real(); case CZ: return ca OP zb; case CR: return ca OP zb.real(); \
    case CE: return ca OP (zb.real() * 2.0); case RZ: return za.real() OP zb; case RC: return za.real() OP cb; case EZ: return (za.real() * 2.0) OP zb; case EC: return (za.real() * 2.0) OP cb; default: return ca.real() OP zb; }
template <class T> static CT<T> calc(int op, int k, const CT<T>& za, const CT<T>& zb, const CD& ca, const CD& cb)
{ if (op == 0) { KIND(+) } else if (op == 1) { KIND(-) } else if (op == 2) { KIND(*) } else { KIND(/) } }
static Z ref(int op, int k, Z a, Z b)
{
    static const char* T[NK] = {"ZZ", "ZC", "ZR", "ZE", "ZD", "CZ", "CR", "CE", "RZ", "RC", "EZ", "EC", "DZ"};
    auto f = [](char c, Z z) { switch (c) { case 'C': return Z(DU(z.r.v), DU(z.i.v)); case 'R': return Z(z.r, DU()); case 'E': return Z(z.r * DU(2), DU()); case 'D': return Z(DU(z.r.v), DU()); } return z; };
    Z x = f(T[k][0], a), y = f(T[k][1], b); switch (op) { case 0: return x + y; case 1: return x - y; case 2: return x * y; default: return x / y; }
}
#define IN RD(p); RD(q); RD(r); RD(s); if (op == 3) SXA(r != 0 && (s != 0)); CD ca(p, q), cb(r, s)
static Z rdir(int op, int k, int j, double p, double q, double r, double s) { return ref(op, k, Z(DU(p, j == 0), DU(q, j == 1)), Z(DU(r, j == 2), DU(s, j == 3))); }
static void rev_case(int op, int part)
{
    int k = part < 0 ? sx_choice("k", NK) : part; IN; TP t; CT<AD> za(p, q), zb(r, s); t.registerInput(za.real()); t.registerInput(za.imag()); t.registerInput(zb.real()); t.registerInput(zb.imag()); t.newRecording();
    CT<AD> w = calc<AD>(op, k, za, zb, ca, cb); Z e = rdir(op, k, 0, p, q, r, s); zeq(value(w.real()), value(w.imag()), e.r, e.i, "value"); t.registerOutput(w.real()); t.registerOutput(w.imag()); int c = sx_choice("c", 2); double sr = sx_real("sr"); derivative(c ? w.imag() : w.real()) = sr; t.computeAdjoints();
    double g[4] = {derivative(za.real()), derivative(za.imag()), derivative(zb.real()), derivative(zb.imag())}; for (int j = 0; j < 4; ++j) { Z d = rdir(op, k, j, p, q, r, s); sx_eq(g[j], sr * (c ? d.i.d : d.r.d), "adjoint"); }
}
static void fwd_case(int op)
{
    int k = sx_choice("k", NK), j = sx_choice("j", 4); IN; RD(t); CT<FD> za{FD(p), FD(q)}, zb{FD(r), FD(s)}; FD* in[4] = {&za.real(), &za.imag(), &zb.real(), &zb.imag()}; derivative(*in[j]) = t; CT<FD> w = calc<FD>(op, k, za, zb, ca, cb);
    Z d = rdir(op, k, j, p, q, r, s); zeq(value(w.real()), value(w.imag()), d.r, d.i, "value"); sx_eq(derivative(w.real()), t * d.r.d, "derivative re"); sx_eq(derivative(w.imag()), t * d.i.d, "derivative im");
}
extern "C" void h_add_rev() { rev_case(0, -1); } extern "C" void h_sub_rev() { rev_case(1, -1); } extern "C" void h_mul_rev() { rev_case(2, -1); } extern "C" void h_div_rev() { rev_case(3, -1); }
extern "C" void h_add_fwd() { fwd_case(0); } extern "C" void h_sub_fwd() { fwd_case(1); } extern "C" void h_mul_fwd() { fwd_case(2); } extern "C" void h_div_fwd() { fwd_case(3); }
// compound assignment; right operands Z, C, R, E, D, the complex itself, its own real / imaginary part
template <class T> static void comp(int op, int k, CT<T>& z, const CT<T>& b, const CD& cb)
{
#define CK(OP) switch (k) { case 0: z OP b; break; case 1: z OP cb; break; case 2: z OP b.real(); break; case 3: z OP T(b.real() * 2.0); break; case 4: z OP cb.real(); break; case 5: z OP z; break; case 6: z OP z.real(); break; default: z OP z.imag(); }
    if (op == 0) { CK(+=) } else if (op == 1) { CK(-=) } else if (op == 2) { CK(*=) } else { CK(/=) }
}
static Z cref(int op, int k, Z a, Z b) { Z y; switch (k) { case 0: y = b; break; case 1: y = Z(DU(b.r.v), DU(b.i.v)); break; case 2: y = Z(b.r); break; case 3: y = Z(b.r * DU(2)); break; case 4: y = Z(DU(b.r.v)); break; case 5: y = a; break; case 6: y = Z(a.r); break; default: y = Z(a.i); } switch (op) { case 0: return a + y; case 1: return a - y; case 2: return a * y; default: return a / y; } }
static Z cdir(int op, int k, int j, double p, double q, double r, double s) { return cref(op, k, Z(DU(p, j == 0), DU(q, j == 1)), Z(DU(r, j == 2), DU(s, j == 3))); }
static void comp_rev(int op)
{
    int k = sx_choice("k", 8); RD(p); RD(q); RD(r); RD(s); if (op == 3) SXA(r != 0 && s != 0 && p != 0 && q != 0); CD cb(r, s); TP t; CT<AD> za(p, q), zb(r, s); t.registerInput(za.real()); t.registerInput(za.imag()); t.registerInput(zb.real()); t.registerInput(zb.imag()); t.newRecording();
    CT<AD> z = za; comp<AD>(op, k, z, zb, cb); Z e = cdir(op, k, 0, p, q, r, s); zeq(value(z.real()), value(z.imag()), e.r, e.i, "value"); int c = sx_choice("c", 2); double sr = sx_real("sr"); t.registerOutput(z.real()); t.registerOutput(z.imag()); derivative(c ? z.imag() : z.real()) = sr; t.computeAdjoints();
    double g[4] = {derivative(za.real()), derivative(za.imag()), derivative(zb.real()), derivative(zb.imag())}; for (int j = 0; j < 4; ++j) { Z d = cdir(op, k, j, p, q, r, s); sx_eq(g[j], sr * (c ? d.i.d : d.r.d), "adjoint"); }
}
static void comp_fwd(int op)
{
    int k = sx_choice("k", 8), j = sx_choice("j", 4); RD(p); RD(q); RD(r); RD(s); RD(t); if (op == 3) SXA(r != 0 && s != 0 && p != 0 && q != 0); CD cb(r, s); CT<FD> z{FD(p), FD(q)}, b{FD(r), FD(s)}; FD* in[4] = {&z.real(), &z.imag(), &b.real(), &b.imag()}; derivative(*in[j]) = t; comp<FD>(op, k, z, b, cb);
    Z d = cdir(op, k, j, p, q, r, s); zeq(value(z.real()), value(z.imag()), d.r, d.i, "value"); sx_eq(derivative(z.real()), t * d.r.d, "derivative re"); sx_eq(derivative(z.imag()), t * d.i.d, "derivative im");
}
extern "C" void h_cadd_rev() { comp_rev(0); } extern "C" void h_csub_rev() { comp_rev(1); } extern "C" void h_cmul_rev() { comp_rev(2); } extern "C" void h_cdiv_rev() { comp_rev(3); }
extern "C" void h_cadd_fwd() { comp_fwd(0); } extern "C" void h_csub_fwd() { comp_fwd(1); } extern "C" void h_cmul_fwd() { comp_fwd(2); } extern "C" void h_cdiv_fwd() { comp_fwd(3); }
// construction, assignment, access
template <class T> static void access()
{
    RD(p); RD(q); RD(r); CT<T> z; sx_eq(value(z.real()), 0, "default"); sx_eq(value(z.imag()), 0, "default"); CT<T> a(p); sx_eq(value(a.real()), p, "from double"); sx_eq(value(a.imag()), 0, "imag zero"); CT<T> b{T(p)}; sx_eq(value(b.real()), p, "from active"); CT<T> c(CD(p, q)); sx_eq(value(c.real()), p, "from complex"); sx_eq(value(c.imag()), q, "from complex"); CT<T> d{T(p), T(q)}, e(d);
    z = d; sx_eq(value(z.imag()), q, "copy"); z = r; sx_eq(value(z.real()), r, "assign double"); sx_eq(value(z.imag()), 0, "imag reset"); z = e; z = T(r); sx_eq(value(z.real()), r, "assign active"); sx_eq(value(z.imag()), 0, "imag reset"); z = CD(q, p); sx_eq(value(z.real()), q, "assign complex"); sx_eq(value(z.imag()), p, "assign complex"); z = e; z = e.real() * 2.0; sx_eq(value(z.real()), 2 * p, "assign expression"); sx_eq(value(z.imag()), 0, "imag reset"); CT<T> f(e.real() * 2.0); sx_eq(value(f.real()), 2 * p, "from expression"); sx_eq(value(f.imag()), 0, "from expression");
    z.real(T(r)); z.imag(T(p)); sx_eq(value(z.real()), r, "set real"); sx_eq(value(z.imag()), p, "set imag"); z.real() = q; z.imag() = r; const CT<T>& cz = z; sx_eq(value(cz.real()), q, "by reference"); sx_eq(value(cz.imag()), r, "by reference"); sx_eq(value(std::real(z)), q, "real()"); sx_eq(value(std::imag(z)), r, "imag()"); sx_eq(value(std::real(cz)), q, "real()"); sx_eq(value(std::imag(cz)), r, "imag()"); CD v = xad::value(z); sx_eq(v.real(), q, "value()"); sx_eq(v.imag(), r, "value()");
    CT<T> n(-z); sx_eq(value(n.real()), -q, "neg"); sx_eq(value(n.imag()), -r, "neg"); CT<T> o = +z; sx_eq(value(o.real()), q, "plus"); sx_eq(value(o.imag()), r, "plus"); CT<T> cj = std::conj(z); sx_eq(value(cj.real()), q, "conj"); sx_eq(value(cj.imag()), -r, "conj"); sx_eq(value(std::norm(z)), q * q + r * r, "norm"); std::swap(z, n); sx_eq(value(z.real()), -q, "swap"); sx_eq(value(n.imag()), r, "swap");
}
extern "C" void h_access_rev() { access<AD>(); } extern "C" void h_access_fwd() { access<FD>(); } extern "C" void h_access_rev_tape() { TP t; access<AD>(); }
extern "C" void h_derivative_access()
{
    RD(p); RD(q); RD(s); RD(u); TP t; CT<AD> z(p, q); t.registerInput(z.real()); t.registerInput(z.imag()); t.newRecording(); CT<AD> w = z * CD(2.0, 0.0); w.setAdjoint(s, u); CD d = xad::derivative(w); sx_eq(d.real(), s, "set"); sx_eq(d.imag(), u, "set"); CD g = w.getAdjoint(), h = w.getDerivative(); sx_eq(g.real() + h.imag(), s + u, "get"); t.computeAdjoints(); CD e = xad::derivative(z); sx_eq(e.real(), 2 * s, "adjoint"); sx_eq(e.imag(), 2 * u, "adjoint"); w.setDerivative(s); sx_eq(derivative(w.imag()), 0, "imag default"); sx_eq(derivative(w.real()), s, "real");
    CT<FD> f{FD(p), FD(q)}; f.setDerivative(s, u); CD x = xad::derivative(f); sx_eq(x.real(), s, "fwd"); sx_eq(x.imag(), u, "fwd"); CT<FD> y = f * FD(3.0); sx_eq(xad::derivative(y).imag(), 3 * u, "fwd"); sx_eq(y.getDerivative().real(), 3 * s, "fwd"); f.setAdjoint(u); sx_eq(derivative(f.real()), u, "fwd"); sx_eq(derivative(f.imag()), 0, "fwd");
}
template <class T> static void compare_ops()
{
    RD(p); RD(q); RD(r); RD(s); CT<T> a{T(p), T(q)}, b{T(r), T(s)}; T x = r; bool e = p == r && q == s, f = p == r && q == 0;
    sx_check((a == b) == e && (a != b) == !e, "complex"); sx_check((a == x) == f && (x == a) == f && (a != x) == !f && (x != a) == !f, "active"); sx_check((a == RL(r)) == f && (RL(r) == a) == f && (a != RL(r)) == !f && (RL(r) != a) == !f, "double"); bool g = p == 2 * r && q == 0; sx_check((a == x * 2.0) == g && (x * 2.0 == a) == g && (a != x * 2.0) == !g && (x * 2.0 != a) == !g, "expression");
}
extern "C" void h_compare_rev() { compare_ops<AD>(); } extern "C" void h_compare_fwd() { compare_ops<FD>(); }
// negation, conjugation, norm: derivatives
extern "C" void h_unary_rev()
{
    RD(p); RD(q); RD(s); RD(u); int k = sx_choice("k", 5); TP t; CT<AD> z(p, q); t.registerInput(z.real()); t.registerInput(z.imag()); t.newRecording(); CT<AD> w; double a = 1, b = 1, c = 0; switch (k) { case 0: w = -z; a = b = -1; break; case 1: w = +z; break; case 2: w = std::conj(z); b = -1; break; case 3: w = std::norm(z); a = 2 * p; c = 2 * q; b = 0; break; default: w = std::proj(z); }
    t.registerOutput(w.real()); t.registerOutput(w.imag()); w.setAdjoint(s, u); t.computeAdjoints(); sx_eq(derivative(z.real()), a * s, "re"); sx_eq(derivative(z.imag()), b * u + c * s, "im");
}
extern "C" void h_unary_fwd()
{
    RD(p); RD(q); RD(s); RD(u); int k = sx_choice("k", 5); CT<FD> z(FD(p, s), FD(q, u)), w; double a = s, b = u; switch (k) { case 0: w = -z; a = -s; b = -u; break; case 1: w = +z; break; case 2: w = std::conj(z); b = -u; break; case 3: w = std::norm(z); a = 2 * p * s + 2 * q * u; b = 0; break; default: w = std::proj(z); } sx_eq(derivative(w.real()), a, "re"); sx_eq(derivative(w.imag()), b, "im");
}
// scalar versions of the complex functions
template <class T> static void scalar_fns()
{
    RD(p); RD(q); T x = p; SXA(p != 0); sx_eq(value(std::real(x)), p, "real"); sx_eq(value(std::imag(x)), 0, "imag"); sx_eq(value(std::real(x * 2.0)), 2 * p, "real"); sx_eq(value(std::imag(x * 2.0)), 0, "imag"); sx_eq(value(T(std::norm(x))), p * p, "norm"); sx_eq(value(T(std::norm(x + q))), (p + q) * (p + q), "norm of expression"); sx_eq(value(std::arg(x)), p < 0 ? 3.14159265358979323846 : 0, "arg"); sx_eq(value(std::arg(x * 2.0)), p < 0 ? 3.14159265358979323846 : 0, "arg"); CT<T> c = std::conj(x), d = std::proj(x), e = std::conj(x * 2.0), f = std::proj(x * 2.0); sx_eq(value(c.real()), p, "conj"); sx_eq(value(c.imag()), 0, "conj"); sx_eq(value(d.real()), p, "proj"); sx_eq(value(e.real()), 2 * p, "conj"); sx_eq(value(f.real()), 2 * p, "proj"); sx_eq(value(f.imag()) + value(d.imag()) + value(e.imag()), 0, "imag");
}
extern "C" void h_scalar_rev() { scalar_fns<AD>(); } extern "C" void h_scalar_fwd() { scalar_fns<FD>(); }
extern "C" void h_scalar_deriv()
{
    RD(p); RD(s); int k = sx_choice("k", 5); TP t; AD x = p; t.registerInput(x); t.newRecording(); AD y; double d = 1; switch (k) { case 0: y = std::norm(x); d = 2 * p; break; case 1: y = std::norm(x * 3.0); d = 18 * p; break; case 2: y = std::real(x * 2.0); d = 2; break; case 3: y = std::conj(x * 2.0).real(); d = 2; break; default: y = std::proj(x * 2.0).real(); d = 2; } t.registerOutput(y); derivative(y) = s; t.computeAdjoints(); sx_eq(derivative(x), s * d, "adjoint");
}
// a longer computation: adjoint against forward
template <class T> static CT<T> horner(const CT<T>& z, const CD& c) { CT<T> w = z * c; w += 1.0; w *= z; w -= z.real(); return w / T(2.0); }
extern "C" void h_program()
{
    RD(p); RD(q); RD(r); RD(s); RD(u); RD(v); int j = sx_choice("j", 2); CD c(r, s); TP t; CT<AD> z(p, q); t.registerInput(z.real()); t.registerInput(z.imag()); t.newRecording(); CT<AD> w = horner<AD>(z, c); w.setAdjoint(u, v); t.computeAdjoints(); double g = derivative(j ? z.imag() : z.real());
    CT<FD> f(FD(p, j == 0), FD(q, j == 1)); CT<FD> h = horner<FD>(f, c); sx_eq(value(h.real()), value(w.real()), "value"); sx_eq(value(h.imag()), value(w.imag()), "value"); sx_eq(g, u * derivative(h.real()) + v * derivative(h.imag()), "adjoint = forward"); Z x(DU(p, j == 0), DU(q, j == 1)), y = x * Z(DU(r), DU(s)) + Z(DU(1)); y = y * x - Z(x.r); y = y / Z(DU(2)); sx_eq(derivative(h.real()), y.r.d, "forward"); sx_eq(derivative(h.imag()), y.i.d, "forward");
}
