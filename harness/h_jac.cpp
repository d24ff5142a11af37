// Jacobians in adjoint and forward mode.
#include "ad.hpp"
#include <array>
#include <list>
#include <deque>
#define RD(n) double n = sx_real(#n)
template <class T> using VF = std::function<std::vector<T>(std::vector<T>&)>;
typedef std::vector<std::vector<RL>> MAT;
// an n -> m function with known Jacobian: f_i = c_i x_i' x_j' + k_i x_j'
template <class T> static VF<T> fun(int n, int m, const std::vector<double>& c, const std::vector<double>& k)
{ return [=](std::vector<T>& x) { std::vector<T> y(m); for (int i = 0; i < m; ++i) { int a = i % n, b = (i + 1) % n; y[i] = x[a] * x[b] * c[i] + x[b] * k[i]; } return y; }; }
static double entry(int i, int j, int n, const std::vector<double>& x, const std::vector<double>& c, const std::vector<double>& k)
{ int a = i % n, b = (i + 1) % n; return (j == a ? c[i] * x[b] : 0) + (j == b ? c[i] * x[a] + k[i] : 0); }
static void coeffs(int n, int m, std::vector<double>& x, std::vector<double>& c, std::vector<double>& k) { for (int i = 0; i < n; ++i) x.push_back(sx_real("x")); for (int i = 0; i < m; ++i) { c.push_back(sx_real("c")); k.push_back(sx_real("k")); } }
template <class M> static void compare(M& J, int n, int m, const std::vector<double>& x, const std::vector<double>& c, const std::vector<double>& k)
{ int i = 0; for (auto& row : J) { int j = 0; for (auto& e : row) { sx_eq(e, entry(i, j, n, x, c, k), "entry"); ++j; } sx_check(j == n, "columns"); ++i; } sx_check(i == m, "rows"); }
template <class T> static std::vector<T> act(const std::vector<double>& x) { std::vector<T> v; for (double d : x) v.push_back(T(d)); return v; }
template <class T> static void unchanged(const std::vector<T>& v, const std::vector<double>& x) { sx_check(v.size() == x.size(), "input size"); for (size_t i = 0; i < x.size(); ++i) sx_eq(value(v[i]), x[i], "inputs unchanged"); }
#define SHAPE int n = 1 + sx_choice("n", 3), m = 1 + sx_choice("m", 3); std::vector<double> x, c, k; coeffs(n, m, x, c, k)
extern "C" void h_adj_no_tape() { SHAPE; auto v = act<AD>(x); MAT J = xad::computeJacobian(v, fun<AD>(n, m, c, k)); compare(J, n, m, x, c, k); unchanged(v, x); sx_check(TP::getActive() == nullptr, "no tape left active"); }
extern "C" void h_adj_active_tape() { SHAPE; TP t; auto v = act<AD>(x); MAT J = xad::computeJacobian(v, fun<AD>(n, m, c, k)); compare(J, n, m, x, c, k); unchanged(v, x); sx_check(TP::getActive() == &t && t.getNumVariables() == 0, "tape left as it was"); AD a = x[0]; t.registerInput(a); t.newRecording(); AD b = a * a; derivative(b) = 1.0; t.computeAdjoints(); sx_eq(derivative(a), 2 * x[0], "tape usable"); }
extern "C" void h_adj_given_tape() { SHAPE; TP t; auto v = act<AD>(x); MAT J = xad::computeJacobian(v, fun<AD>(n, m, c, k), &t); compare(J, n, m, x, c, k); unchanged(v, x); }
extern "C" void h_adj_registered() { SHAPE; TP t; auto v = act<AD>(x); t.registerInputs(v); t.newRecording(); AD junk = v[0] * 2.0; MAT J = xad::computeJacobian(v, fun<AD>(n, m, c, k), &t); compare(J, n, m, x, c, k); unchanged(v, x); sx_check(t.getNumVariables() == size_t(n) + 1, "variables"); MAT K = xad::computeJacobian(v, fun<AD>(n, m, c, k)); compare(K, n, m, x, c, k); }
extern "C" void h_adj_iter_vector() { SHAPE; auto v = act<AD>(x); MAT J(m, std::vector<RL>(n, 7.0)); xad::computeJacobian(v, fun<AD>(n, m, c, k), J.begin(), J.end()); compare(J, n, m, x, c, k); }
extern "C" void h_adj_iter_list() { SHAPE; TP t; auto v = act<AD>(x); std::list<std::list<RL>> J(m, std::list<RL>(n, 7.0)); xad::computeJacobian(v, fun<AD>(n, m, c, k), J.begin(), J.end(), &t); compare(J, n, m, x, c, k); }
extern "C" void h_adj_iter_array() { std::vector<double> x, c, k; coeffs(2, 2, x, c, k); auto v = act<AD>(x); std::array<std::array<RL, 2>, 2> J; for (auto& r : J) r.fill(3.0); xad::computeJacobian(v, fun<AD>(2, 2, c, k), J.begin(), J.end()); compare(J, 2, 2, x, c, k); }
extern "C" void h_fwd() { SHAPE; auto v = act<FD>(x); MAT J = xad::computeJacobian(v, fun<FD>(n, m, c, k)); compare(J, n, m, x, c, k); unchanged(v, x); }
extern "C" void h_fwd_iter_vector() { SHAPE; auto v = act<FD>(x); MAT J(m, std::vector<RL>(n, 7.0)); xad::computeJacobian(v, fun<FD>(n, m, c, k), J.begin(), J.end()); compare(J, n, m, x, c, k); }
extern "C" void h_fwd_iter_list() { SHAPE; auto v = act<FD>(x); std::list<std::list<RL>> J(m, std::list<RL>(n, 7.0)); xad::computeJacobian(v, fun<FD>(n, m, c, k), J.begin(), J.end()); compare(J, n, m, x, c, k); }
extern "C" void h_fwd_seeded_inputs()
{   // derivatives the inputs happen to carry are irrelevant
    SHAPE; auto v = act<FD>(x); for (auto& e : v) derivative(e) = sx_real("s"); MAT J = xad::computeJacobian(v, fun<FD>(n, m, c, k)); compare(J, n, m, x, c, k);
}
template <class T> static VF<T> inplace(const double& c) { return [c](std::vector<T>& x) { x[0] *= c; x[1] = x[0] + x[1]; std::vector<T> y; y.push_back(x[0] * x[1]); y.push_back(x[1]); return y; }; }
static void inplace_check(MAT& J, double a, double b, double c) { sx_eq(J[0][0], 2 * c * c * a + c * b, "00"); sx_eq(J[0][1], c * a, "01"); sx_eq(J[1][0], c, "10"); sx_eq(J[1][1], 1, "11"); }
extern "C" void h_adj_inplace() { RD(a); RD(b); RD(c); std::vector<AD> v = act<AD>({a, b}); MAT J = xad::computeJacobian(v, inplace<AD>(c)); inplace_check(J, a, b, c); unchanged(v, {a, b}); }
extern "C" void h_fwd_inplace() { RD(a); RD(b); RD(c); std::vector<FD> v = act<FD>({a, b}); MAT J = xad::computeJacobian(v, inplace<FD>(c)); inplace_check(J, a, b, c); unchanged(v, {a, b}); }
template <class T> static VF<T> odd() { return [](std::vector<T>& x) { std::vector<T> y; y.push_back(x[1]); y.push_back(T(3.0)); y.push_back(x[0] * x[0]); y.push_back(y[2]); y.push_back(x[1]); return y; }; }
static void odd_check(MAT& J, double a) { double e[5][2] = {{0, 1}, {0, 0}, {2 * a, 0}, {2 * a, 0}, {0, 1}}; sx_check(J.size() == 5, "rows"); for (int i = 0; i < 5; ++i) for (int j = 0; j < 2; ++j) sx_eq(J[i][j], e[i][j], "entry"); }
extern "C" void h_adj_odd() { RD(a); RD(b); int k = sx_choice("k", 2); std::unique_ptr<TP> t; if (k) t.reset(new TP); auto v = act<AD>({a, b}); MAT J = xad::computeJacobian(v, odd<AD>()); odd_check(J, a); }
extern "C" void h_fwd_odd() { RD(a); RD(b); auto v = act<FD>({a, b}); MAT J = xad::computeJacobian(v, odd<FD>()); odd_check(J, a); }
// branches depending on the inputs
template <class T> static VF<T> branchy() { return [](std::vector<T>& x) { std::vector<T> y; if (x[0] > x[1]) y.push_back(x[0] * x[1]); else y.push_back(x[1] * 2.0); y.push_back(max(x[0], x[1])); return y; }; }
static void branch_check(MAT& J, double a, double b) { bool g = a > b; sx_eq(J[0][0], g ? b : 0, "00"); sx_eq(J[0][1], g ? a : 2, "01"); sx_eq(J[1][0], g ? 1 : 0, "10"); sx_eq(J[1][1], g ? 0 : 1, "11"); }
extern "C" void h_adj_branch() { RD(a); RD(b); SXA(a != b); auto v = act<AD>({a, b}); MAT J = xad::computeJacobian(v, branchy<AD>()); branch_check(J, a, b); }
extern "C" void h_fwd_branch() { RD(a); RD(b); SXA(a != b); auto v = act<FD>({a, b}); MAT J = xad::computeJacobian(v, branchy<FD>()); branch_check(J, a, b); }
// adjoint and forward agree, nonlinear
template <class T> static VF<T> trig() { return [](std::vector<T>& x) { std::vector<T> y; y.push_back(sin(x[0] + x[1])); y.push_back(sin(x[1]) * cos(x[0])); y.push_back(exp(x[0] * x[1])); return y; }; }
extern "C" void h_agree() { RD(a); RD(b); auto v = act<AD>({a, b}); auto w = act<FD>({a, b}); MAT J = xad::computeJacobian(v, trig<AD>()), K = xad::computeJacobian(w, trig<FD>()); double e[3][2] = {{std::cos(a + b), std::cos(a + b)}, {-std::sin(b) * std::sin(a), std::cos(b) * std::cos(a)}, {b * std::exp(a * b), a * std::exp(a * b)}}; for (int i = 0; i < 3; ++i) for (int j = 0; j < 2; ++j) { sx_eq(J[i][j], e[i][j], "adjoint"); sx_eq(K[i][j], e[i][j], "forward"); } }
extern "C" void h_errors()
{   // wrong number of rows or columns: documented exception, nothing written
    SHAPE; int mode = sx_choice("mode", 4), dr = sx_choice("dr", 3) - 1, dc = sx_choice("dc", 3) - 1; sx_assume(m + dr > 0 && (dr || dc)); MAT J(m + dr, std::vector<RL>(n + dc, 7.0)); bool th = false;
    try { if (mode == 0) { auto v = act<AD>(x); xad::computeJacobian(v, fun<AD>(n, m, c, k), J.begin(), J.end()); } else if (mode == 1) { TP t; auto v = act<AD>(x); xad::computeJacobian(v, fun<AD>(n, m, c, k), J.begin(), J.end()); } else { auto v = act<FD>(x); xad::computeJacobian(v, fun<FD>(n, m, c, k), J.begin(), J.end()); } } catch (const xad::OutOfRange&) { th = true; }
    sx_check(th, "throws"); for (auto& r : J) for (double e : r) sx_eq(e, 7, "untouched"); sx_check(TP::getActive() == nullptr, "no tape left");
}
struct Boom {};
extern "C" void h_throwing()
{   // an exception of the function passes through, nothing is leaked or left active
    RD(a); long l0 = sx_live(); { int mode = sx_choice("mode", 3); bool th = false; try { if (mode < 2) { std::unique_ptr<TP> t; if (mode) t.reset(new TP); auto v = act<AD>({a, a}); VF<AD> f = [](std::vector<AD>& x) -> std::vector<AD> { AD q = x[0] * x[1]; throw Boom(); }; xad::computeJacobian(v, f); } else { auto v = act<FD>({a, a}); VF<FD> f = [](std::vector<FD>&) -> std::vector<FD> { throw Boom(); }; xad::computeJacobian(v, f); } } catch (const Boom&) { th = true; } sx_check(th, "passes through"); sx_check(TP::getActive() == nullptr, "no tape left"); }
    sx_check(sx_live() == l0, "nothing leaked");
}
extern "C" void h_empty_outputs()
{   // a function without outputs has an empty Jacobian
    RD(a); int mode = sx_choice("mode", 2); if (mode) { auto v = act<FD>({a}); VF<FD> f = [](std::vector<FD>&) { return std::vector<FD>(); }; sx_check(xad::computeJacobian(v, f).empty(), "empty"); } else { auto v = act<AD>({a}); VF<AD> f = [](std::vector<AD>&) { return std::vector<AD>(); }; sx_check(xad::computeJacobian(v, f).empty(), "empty"); }
}
extern "C" void h_no_inputs() { int mode = sx_choice("mode", 2); if (mode) { std::vector<FD> v; VF<FD> f = [](std::vector<FD>&) { return std::vector<FD>(2, FD(1.0)); }; auto J = xad::computeJacobian(v, f); sx_check(J.size() == 2 && J[0].empty() && J[1].empty(), "2 x 0"); } else { std::vector<AD> v; VF<AD> f = [](std::vector<AD>&) { return std::vector<AD>(2, AD(1.0)); }; auto J = xad::computeJacobian(v, f); sx_check(J.size() == 2 && J[0].empty() && J[1].empty(), "2 x 0"); } }
extern "C" void h_float() { float a = sx_realf("a"), b = sx_realf("b"); std::vector<xad::AReal<float>> v; v.push_back(xad::AReal<float>(a)); v.push_back(xad::AReal<float>(b)); std::function<std::vector<xad::AReal<float>>(std::vector<xad::AReal<float>>&)> f = [](std::vector<xad::AReal<float>>& x) { std::vector<xad::AReal<float>> y; y.push_back(x[0] * x[1]); return y; }; auto J = xad::computeJacobian(v, f); sx_eq(J[0][0], b, "0"); sx_eq(J[0][1], a, "1"); }
