// Statements and expressions: adjoint gradients equal tangents equal the analytic derivative, for programs of
// several statements with re-use, self-assignment, compound assignment, temporaries and control flow.
#include "ad.hpp"
// F(z, a, b): V/DA/DB in terms of x, y
#define E2(NAME, DOM, BODY, V, DA, DB) \
  extern "C" void h_##NAME##_rev() { double x = sx_real("x"), y = sx_real("y"), s = sx_real("seed"); SXA(DOM); \
    R2 r = rev2([](auto& z, auto& a, auto& b) { using namespace xad; typedef typename std::decay<decltype(z)>::type T; BODY; }, x, y, s); sx_eq(r.v, (V), "value"); sx_eq(r.da, s * (DA), "d/dx"); sx_eq(r.db, s * (DB), "d/dy"); } \
  extern "C" void h_##NAME##_fwd() { double x = sx_real("x"), y = sx_real("y"), s = sx_real("seedx"), q = sx_real("seedy"); SXA(DOM); \
    R1 r = fwd2([](auto& z, auto& a, auto& b) { using namespace xad; typedef typename std::decay<decltype(z)>::type T; BODY; }, x, y, s, q); sx_eq(r.v, (V), "value"); sx_eq(r.d, s * (DA) + q * (DB), "tangent"); }
#define ALL 1
E2(reuse, ALL, z = a * a * b + a * b * b + a, x * x * y + x * y * y + x, 2 * x * y + y * y + 1, x * x + 2 * x * y)
E2(selfassign, ALL, z = a; z = z * z + z * b; z = z * z, (x * x + x * y) * (x * x + x * y), 2 * (x * x + x * y) * (2 * x + y), 2 * (x * x + x * y) * x)
E2(self_copy, ALL, z = a * b; z = *&z; z = z, x * y, y, x)
E2(compound, ALL, z = a; z += b; z *= a; z -= a * b; z *= z, (x * x) * (x * x), 4 * x * x * x, 0)
E2(compound_div, x != 0 && y != 0, z = a; z /= b; z /= a * b; z += z, 2 / (y * y), 0, -4 / (y * y * y))
E2(compound_self, x != 0, z = a; z += z; z *= z; z -= a; z /= a; z *= b, (4 * x - 1) * y, 4 * y, 4 * x - 1)
E2(compound_scal, ALL, z = a; z += 2.0; z -= 0.5; z *= 3.0; z /= 4.0; z += 1; z -= 2; z *= 3; z /= 2; z = z * b, ((x + 1.5) * 0.75 - 1) * 1.5 * y, 1.125 * y, ((x + 1.5) * 0.75 - 1) * 1.5)
E2(incdec, ALL, z = a * b; ++z; T w = z++; --z; T v = z--; z = z * w + v * 2.0, (x * y) * (x * y + 1) + 2 * (x * y + 1), (2 * x * y + 3) * y, (2 * x * y + 3) * x)
E2(reassign, ALL, z = a * a * a; z = b * b, y * y, 0, 2 * y)
E2(assign_passive, ALL, z = a * b; T w = z; z = 5.0; z = z * w * a, 5 * x * y * x, 10 * x * y, 5 * x * x)
E2(assign_int, ALL, z = a * b; z = 3; z = z + a, 3 + x, 1, 0)
E2(overwrite_input, ALL, z = a * b; T w = z * z; a = b * 2.0; z = a + w, 2 * y + x * y * x * y, 0 * x + 2 * x * y * y, 2 + 2 * x * x * y)
E2(temp_auto, ALL, auto e = a * b; auto f = e + a; z = f * e; T w = e; z = z + w, (x * y + x) * x * y + x * y, (y + 1) * x * y + (x * y + x) * y + y, x * x * y + (x * y + x) * x + x)
E2(temp_var, ALL, T t1 = a * b; { T t2 = t1 * a; T t3 = t2 + b; t1 = t3 * t3; } z = t1 + a, (x * x * y + y) * (x * x * y + y) + x, 2 * (x * x * y + y) * 2 * x * y + 1, 2 * (x * x * y + y) * (x * x + 1))
E2(branch, ALL, if (a < b) z = a * b; else if (a > 2.0 * b) z = a - b; else z = a * a, (x < y ? x * y : x > 2 * y ? x - y : x * x), (x < y ? y : x > 2 * y ? 1 : 2 * x), (x < y ? x : x > 2 * y ? -1.0 : 0.0))
E2(loop, ALL, z = a; for (int i = 0; i < 4; ++i) { T w = z * b; z = w + a; }, (((x * y + x) * y + x) * y + x) * y + x, 1 + y + y * y + y * y * y + y * y * y * y, x * (1 + 2 * y + 3 * y * y + 4 * y * y * y))
E2(vec, ALL, std::vector<T> v; for (int i = 0; i < 5; ++i) v.push_back(a * (double)(i + 1)); z = b; for (auto& q : v) z += q * b; v.erase(v.begin() + 1); v.clear(); z = z * z, (y + 15 * x * y) * (y + 15 * x * y), 2 * (y + 15 * x * y) * 15 * y, 2 * (y + 15 * x * y) * (1 + 15 * x))
E2(swap, ALL, using std::swap; T p = a * 2.0; T q = b * 3.0; swap(p, q); z = p * p + q, 9 * y * y + 2 * x, 2, 18 * y)
E2(move, ALL, T p = a * 2.0; T q(std::move(p)); T r = b; r = std::move(q); z = r * b, 2 * x * y, 2 * y, 2 * x)
E2(func, ALL, auto f = [](T u, T v) { u *= v; return u; }; z = f(a, b) + f(b, b) + a, x * y + y * y + x, y + 1, x + 2 * y)
E2(neg_chain, ALL, z = -(-(a - b) + +(b)) - (-a), (x - y) - y + x, 2, -2)
E2(parens, y != 0 && x != 0, z = (a + b) / (a * b) - (a - b) / b, (x + y) / (x * y) - (x - y) / y, -1 / (x * x) - 1 / y, -1 / (y * y) + x / (y * y))
E2(deep, ALL, z = ((((a + 1.0) * b + 2.0) * a + 3.0) * b + 4.0) * a + b * (a + (b + a * (b - 1.0)) * 2.0), ((((x + 1) * y + 2) * x + 3) * y + 4) * x + y * (x + (y + x * (y - 1)) * 2), \
   (4 * x * x * x + 0) * 0 + (y * y * (3 * x * x + 2 * x) + 2 * y * 2 * x + 3 * y + 4) + y * (1 + 2 * (y - 1)), (2 * y * (x * x * x + x * x) + 2 * x * x + 3 * x) + (x + (y + x * (y - 1)) * 2) + y * 2 * (1 + x))
E2(big, ALL, z = a + b + a * b + a * 2.0 + b * 3.0 + a * a + b * b + (a - b) + a * b * a + (b * b - a) + a + b + a * a * a, x + y + x * y + x * 2 + y * 3 + x * x + y * y + (x - y) + x * y * x + (y * y - x) + x + y + x * x * x, \
   1 + y + 2 + 2 * x + 1 + 2 * x * y - 1 + 1 + 3 * x * x, 1 + x + 3 + 2 * y - 1 + x * x + 2 * y + 1)
E2(trans, x > 0, z = exp(a * b) * sin(a) + log(a) * b, std::exp(x * y) * std::sin(x) + std::log(x) * y, y * std::exp(x * y) * std::sin(x) + std::exp(x * y) * std::cos(x) + y / x, x * std::exp(x * y) * std::sin(x) + std::log(x))
E2(trans2, x > 0, T w = sqrt(a); T q = pow(w, 3.0) + tanh(b * w); z = q * w, std::pow(std::sqrt(x), 3) * std::sqrt(x) + std::tanh(y * std::sqrt(x)) * std::sqrt(x), \
   (3 * x + (1 - std::tanh(y * std::sqrt(x)) * std::tanh(y * std::sqrt(x))) * y) / (2 * std::sqrt(x)) * std::sqrt(x) + (std::pow(std::sqrt(x), 3) + std::tanh(y * std::sqrt(x))) / (2 * std::sqrt(x)), \
   (1 - std::tanh(y * std::sqrt(x)) * std::tanh(y * std::sqrt(x))) * x)
E2(passive_mix, ALL, T c = 4.0; T d = c * 2.0 + 1.0; z = d * a + c * b + c * d; c = a; z += c, 9 * x + 4 * y + 36 + x, 10, 4)
E2(unused, ALL, T u = a * b * a; u = u * u; T w = b; w += 1.0; z = a + b; u = 0.0, x + y, 1, 1)
E2(dead_then_live, ALL, { T u = a * 3.0; } T w = b * 2.0; { T u = w * a; z = u; } T k = a; z = z + k, 2 * y * x + x, 2 * y + 1, 2 * x)
// bounded random programs: three statements over three variables, arbitrary operands and operations;
// the adjoint gradient equals the tangents (program structure explored exhaustively, values symbolic)
template <class T> static void apply(T* v, int d, int a, int b, int op, double c)
{
    switch (op) {
    case 0: v[d] = v[a] * v[b]; break;
    case 1: v[d] = v[a] + c * v[b]; break;
    case 2: v[d] = v[a]; break;
    case 3: v[d] += v[a] * v[b]; break;
    case 4: v[d] = v[a] - v[b]; break;
    case 5: { T t = v[a] * v[b]; v[d] = t * v[d]; } break;
    case 6: v[d] *= v[b]; break;
    case 7: v[d] = c; break;
    }
}
template <int K, int NV, int NOP> static void prog(int d0, int op0)
{
    int d[K], a[K], b[K], op[K]; double c = sx_real("c"), x[NV], s = sx_real("seed");
    for (int i = 0; i < NV; ++i) x[i] = sx_real("x");
    for (int k = 0; k < K; ++k) { d[k] = k || d0 < 0 ? sx_choice("d", NV) : d0; a[k] = sx_choice("a", NV); b[k] = sx_choice("b", NV); op[k] = k || op0 < 0 ? sx_choice("op", NOP) : op0; }
    int out = d[K - 1];
    double adj[NV];
    {
        TP t; AD v[NV], in[NV]; for (int i = 0; i < NV; ++i) { in[i] = x[i]; t.registerInput(in[i]); }
        t.newRecording();
        for (int i = 0; i < NV; ++i) v[i] = in[i];
        for (int k = 0; k < K; ++k) apply(v, d[k], a[k], b[k], op[k], c);
        t.registerOutput(v[out]); derivative(v[out]) = s; t.computeAdjoints();
        for (int i = 0; i < NV; ++i) adj[i] = derivative(in[i]);
    }
    for (int j = 0; j < NV; ++j) {
        FD v[NV]; for (int i = 0; i < NV; ++i) { v[i] = x[i]; derivative(v[i]) = i == j ? 1.0 : 0.0; }
        for (int k = 0; k < K; ++k) apply(v, d[k], a[k], b[k], op[k], c);
        sx_eq(adj[j], s * derivative(v[out]), "adjoint = tangent");
    }
}
extern "C" void h_prog2_0() { prog<2, 2, 8>(-1, 0); } extern "C" void h_prog2_1() { prog<2, 2, 8>(-1, 1); } extern "C" void h_prog2_2() { prog<2, 2, 8>(-1, 2); } extern "C" void h_prog2_3() { prog<2, 2, 8>(-1, 3); }
extern "C" void h_prog2_4() { prog<2, 2, 8>(-1, 4); } extern "C" void h_prog2_5() { prog<2, 2, 8>(-1, 5); } extern "C" void h_prog2_6() { prog<2, 2, 8>(-1, 6); } extern "C" void h_prog2_7() { prog<2, 2, 8>(-1, 7); }
extern "C" void h_prog3_0_T() { prog<3, 2, 4>(0, 0); } extern "C" void h_prog3_1_T() { prog<3, 2, 4>(0, 1); } extern "C" void h_prog3_2_T() { prog<3, 2, 6>(0, 2); } extern "C" void h_prog3_3_T() { prog<3, 2, 4>(0, 3); }
extern "C" void h_prog3_5_T() { prog<3, 2, 4>(0, 5); } extern "C" void h_prog3_7_T() { prog<3, 2, 4>(0, 7); }
