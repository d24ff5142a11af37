// Hessians by forward over adjoint and forward over forward.
#include "ad.hpp"
#include <array>
#include <list>
#define RD(n) double n = sx_real(#n)
template <class T> using SF = std::function<T(std::vector<T>&)>;
typedef std::vector<std::vector<RL>> MAT;
template <class T> static std::vector<T> act(const std::vector<double>& x) { std::vector<T> v; for (double d : x) v.push_back(T(d)); return v; }
template <class T> static void unchanged(const std::vector<T>& v, const std::vector<double>& x) { sx_check(v.size() == x.size(), "input size"); for (size_t i = 0; i < x.size(); ++i) sx_eq(value(value(v[i])), x[i], "inputs unchanged"); }
// f = sum_i c_i x_i^2 x_{i+1} + k_i x_i
template <class T> static SF<T> fun(int n, const std::vector<double>& c, const std::vector<double>& k) { return [=](std::vector<T>& x) { T r = x[0] * k[0]; r = r + x[0] * x[0] * x[1 % n] * c[0]; for (int i = 1; i < n; ++i) r = r + x[i] * x[i] * x[(i + 1) % n] * c[i] + x[i] * k[i]; return r; }; }
static double entry(int i, int j, int n, const std::vector<double>& x, const std::vector<double>& c) { double r = 0; for (int a = 0; a < n; ++a) { int b = (a + 1) % n; if (a == b) { if (i == a && j == a) r += 6 * c[a] * x[a]; continue; } if (i == a && j == a) r += 2 * c[a] * x[b]; if ((i == a && j == b) || (i == b && j == a)) r += 2 * c[a] * x[a]; } return r; }
template <class M> static void compare(M& H, int n, const std::vector<double>& x, const std::vector<double>& c) { int i = 0; for (auto& row : H) { int j = 0; for (auto& e : row) { sx_eq(e, entry(i, j, n, x, c), "entry"); ++j; } sx_check(j == n, "columns"); ++i; } sx_check(i == n, "rows"); }
#define SHAPE int n = 1 + sx_choice("n", 3); std::vector<double> x, c, k; for (int i = 0; i < n; ++i) { x.push_back(sx_real("x")); c.push_back(sx_real("c")); k.push_back(sx_real("k")); }
extern "C" void h_fa_no_tape() { SHAPE; auto v = act<FAD>(x); MAT H = xad::computeHessian(v, fun<FAD>(n, c, k)); compare(H, n, x, c); unchanged(v, x); sx_check(FTP::getActive() == nullptr, "no tape left active"); }
extern "C" void h_fa_active_tape() { SHAPE; FTP t; auto v = act<FAD>(x); MAT H = xad::computeHessian(v, fun<FAD>(n, c, k)); compare(H, n, x, c); unchanged(v, x); sx_check(FTP::getActive() == &t && t.getNumVariables() == 0, "tape left as it was"); }
extern "C" void h_fa_given_tape() { SHAPE; FTP t; auto v = act<FAD>(x); MAT H = xad::computeHessian(v, fun<FAD>(n, c, k), &t); compare(H, n, x, c); MAT K = xad::computeHessian(v, fun<FAD>(n, c, k), &t); compare(K, n, x, c); }
extern "C" void h_fa_registered() { SHAPE; FTP t; auto v = act<FAD>(x); t.registerInputs(v); t.newRecording(); FAD junk = v[0] * 2.0; MAT H = xad::computeHessian(v, fun<FAD>(n, c, k), &t); compare(H, n, x, c); unchanged(v, x); }
extern "C" void h_fa_iter_list() { SHAPE; auto v = act<FAD>(x); std::list<std::list<RL>> H(n, std::list<RL>(n, 7.0)); xad::computeHessian(v, fun<FAD>(n, c, k), H.begin(), H.end()); compare(H, n, x, c); }
extern "C" void h_ff() { SHAPE; auto v = act<FFD>(x); MAT H = xad::computeHessian(v, fun<FFD>(n, c, k)); compare(H, n, x, c); unchanged(v, x); }
extern "C" void h_ff_iter_list() { SHAPE; auto v = act<FFD>(x); std::list<std::list<RL>> H(n, std::list<RL>(n, 7.0)); xad::computeHessian(v, fun<FFD>(n, c, k), H.begin(), H.end()); compare(H, n, x, c); }
extern "C" void h_ff_seeded_inputs() { SHAPE; auto v = act<FFD>(x); for (auto& e : v) { derivative(value(e)) = sx_real("s"); value(derivative(e)) = sx_real("r"); derivative(derivative(e)) = sx_real("w"); } MAT H = xad::computeHessian(v, fun<FFD>(n, c, k)); compare(H, n, x, c); }
extern "C" void h_fa_seeded_inputs() { SHAPE; auto v = act<FAD>(x); for (auto& e : v) derivative(value(e)) = sx_real("s"); MAT H = xad::computeHessian(v, fun<FAD>(n, c, k)); compare(H, n, x, c); }
template <class T> static SF<T> inplace(const double& c) { return [c](std::vector<T>& x) { x[0] = x[0] * c; x[1] = x[0] * x[1]; return T(x[1] * x[0]); }; }   // c^2 a^2 b
static void inplace_check(MAT& H, double a, double b, double c) { sx_eq(H[0][0], 2 * c * c * b, "00"); sx_eq(H[0][1], 2 * c * c * a, "01"); sx_eq(H[1][0], 2 * c * c * a, "10"); sx_eq(H[1][1], 0, "11"); }
extern "C" void h_fa_inplace() { RD(a); RD(b); RD(c); auto v = act<FAD>({a, b}); MAT H = xad::computeHessian(v, inplace<FAD>(c)); inplace_check(H, a, b, c); unchanged(v, {a, b}); }
extern "C" void h_ff_inplace() { RD(a); RD(b); RD(c); auto v = act<FFD>({a, b}); MAT H = xad::computeHessian(v, inplace<FFD>(c)); inplace_check(H, a, b, c); unchanged(v, {a, b}); }
// (g(x))^2 has zero adjoints at roots of g
template <class T> static SF<T> square() { return [](std::vector<T>& x) { T g = x[0] * x[1] - 1.0; return T(g * g); }; }
static void square_check(MAT& H, double a, double b) { sx_eq(H[0][0], 2 * b * b, "00"); sx_eq(H[0][1], 4 * a * b - 2, "01"); sx_eq(H[1][0], 4 * a * b - 2, "10"); sx_eq(H[1][1], 2 * a * a, "11"); }
extern "C" void h_fa_square() { RD(a); RD(b); auto v = act<FAD>({a, b}); MAT H = xad::computeHessian(v, square<FAD>()); square_check(H, a, b); }
extern "C" void h_ff_square() { RD(a); RD(b); auto v = act<FFD>({a, b}); MAT H = xad::computeHessian(v, square<FFD>()); square_check(H, a, b); }
// linear, constant, input returned
template <class T> static SF<T> trivial(int k) { return [k](std::vector<T>& x) { return k == 0 ? T(x[1]) : k == 1 ? T(4.0) : T(x[0] * 2.0 - x[1]); }; }
extern "C" void h_trivial() { RD(a); RD(b); int k = sx_choice("k", 3); auto v = act<FAD>({a, b}); MAT H = xad::computeHessian(v, trivial<FAD>(k)); auto w = act<FFD>({a, b}); MAT K = xad::computeHessian(w, trivial<FFD>(k)); for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) { sx_eq(H[i][j], 0, "fwd_adj"); sx_eq(K[i][j], 0, "fwd_fwd"); } }
template <class T> static SF<T> trig() { return [](std::vector<T>& x) { return T(sin(x[0] * x[1]) + exp(x[0])); }; }
extern "C" void h_agree() { RD(a); RD(b); auto v = act<FAD>({a, b}); auto w = act<FFD>({a, b}); MAT H = xad::computeHessian(v, trig<FAD>()), K = xad::computeHessian(w, trig<FFD>()); double s = std::sin(a * b), c = std::cos(a * b); double e[2][2] = {{-s * b * b + std::exp(a), c - s * a * b}, {c - s * a * b, -s * a * a}}; for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) { sx_eq(H[i][j], e[i][j], "fwd_adj"); sx_eq(K[i][j], e[i][j], "fwd_fwd"); } }
template <class T> static SF<T> branchy() { return [](std::vector<T>& x) { if (x[0] > x[1]) return T(x[0] * x[0] * x[1]); return T(x[1] * x[1] * x[1]); }; }
extern "C" void h_branch() { RD(a); RD(b); auto v = act<FAD>({a, b}); auto w = act<FFD>({a, b}); MAT H = xad::computeHessian(v, branchy<FAD>()), K = xad::computeHessian(w, branchy<FFD>()); bool g = a > b; double e[2][2] = {{g ? 2 * b : 0, g ? 2 * a : 0}, {g ? 2 * a : 0, g ? 0 : 6 * b}}; for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) { sx_eq(H[i][j], e[i][j], "fwd_adj"); sx_eq(K[i][j], e[i][j], "fwd_fwd"); } }
extern "C" void h_errors()
{
    SHAPE; int mode = sx_choice("mode", 3), dr = sx_choice("dr", 3) - 1, dc = sx_choice("dc", 3) - 1; sx_assume(n + dr > 0 && (dr || dc)); MAT J(n + dr, std::vector<RL>(n + dc, 7.0)); bool th = false;
    try { if (mode == 0) { auto v = act<FAD>(x); xad::computeHessian(v, fun<FAD>(n, c, k), J.begin(), J.end()); } else if (mode == 1) { FTP t; auto v = act<FAD>(x); xad::computeHessian(v, fun<FAD>(n, c, k), J.begin(), J.end()); } else { auto v = act<FFD>(x); xad::computeHessian(v, fun<FFD>(n, c, k), J.begin(), J.end()); } } catch (const xad::OutOfRange&) { th = true; }
    sx_check(th, "throws"); for (auto& r : J) for (double e : r) sx_eq(e, 7, "untouched"); sx_check(FTP::getActive() == nullptr, "no tape left");
}
struct Boom {};
extern "C" void h_throwing()
{
    RD(a); long l0 = sx_live(); { int mode = sx_choice("mode", 3); bool th = false; try { if (mode < 2) { std::unique_ptr<FTP> t; if (mode) t.reset(new FTP); auto v = act<FAD>({a, a}); SF<FAD> f = [](std::vector<FAD>& x) -> FAD { FAD q = x[0] * x[1]; throw Boom(); }; xad::computeHessian(v, f); } else { auto v = act<FFD>({a, a}); SF<FFD> f = [](std::vector<FFD>&) -> FFD { throw Boom(); }; xad::computeHessian(v, f); } } catch (const Boom&) { th = true; } sx_check(th, "passes through"); sx_check(FTP::getActive() == nullptr, "no tape left"); }
    sx_check(sx_live() == l0, "nothing leaked");
}
extern "C" void h_empty() { if (sx_choice("mode", 2)) { std::vector<FFD> v; SF<FFD> f = [](std::vector<FFD>&) { return FFD(1.0); }; sx_check(xad::computeHessian(v, f).empty(), "0 x 0"); } else { std::vector<FAD> v; SF<FAD> f = [](std::vector<FAD>&) { return FAD(1.0); }; sx_check(xad::computeHessian(v, f).empty(), "0 x 0"); } }
