// The reverse sweep over arbitrary recordings: a tape of K statements with arbitrary slots and multipliers,
// compared with a direct transposed-Jacobian product.
#include "ad.hpp"
#ifndef NV
#define NV 3
#endif
#ifdef SX_CHUNK
#define NPA (SX_CHUNK + 1)   /* pushAll requires n <= chunk size (asserted by the container) */
#else
#define NPA 6
#endif
struct St { int lhs, n; int s[3]; double m[3]; };
template <int K> struct Prog { St st[K]; double seed[NV]; };
template <int K> static void mk(Prog<K>& p, const int* ar)
{
    for (int k = 0; k < K; ++k) {
        p.st[k].lhs = sx_choice("lhs", NV); p.st[k].n = ar[k];
        for (int j = 0; j < ar[k]; ++j) { p.st[k].s[j] = sx_choice("slot", NV); p.st[k].m[j] = sx_real("mul"); }
    }
    for (int i = 0; i < NV; ++i) p.seed[i] = sx_real("seed");
}
static void push(TP& t, const St& s) { for (int j = 0; j < s.n; ++j) t.pushRhs(s.m[j], s.s[j]); t.pushLhs(s.lhs); }
static void ref(double* adj, const St& s) { double a = adj[s.lhs]; adj[s.lhs] = 0; for (int j = 0; j < s.n; ++j) adj[s.s[j]] += s.m[j] * a; }
template <int K> static void sweep(const int* ar)
{
    Prog<K> p; mk(p, ar);
    TP t; AD v[NV]; for (int i = 0; i < NV; ++i) t.registerInput(v[i]);
    for (int i = 0; i < NV; ++i) sx_assume(v[i].getSlot() == (unsigned)i);
    t.newRecording();
    for (int k = 0; k < K; ++k) push(t, p.st[k]);
    for (int i = 0; i < NV; ++i) t.setDerivative(i, p.seed[i]);
    t.computeAdjoints();
    double adj[NV]; for (int i = 0; i < NV; ++i) adj[i] = p.seed[i];
    for (int k = K - 1; k >= 0; --k) ref(adj, p.st[k]);
    for (int i = 0; i < NV; ++i) sx_eq(t.getDerivative(i), adj[i], "adjoint");
    sx_check(t.getNumStatements() == K, "number of statements");
}
template <int K> static void sweepN(const int* ar)
{   // distinct, concrete slots (chain) with more statements: chunk boundaries at every position
    double m[K], s0 = sx_real("seed"); TP t; AD v[NV]; for (int i = 0; i < NV; ++i) t.registerInput(v[i]);
    t.newRecording();
    double adj[NV] = {0}; St st[K];
    for (int k = 0; k < K; ++k) { St& s = st[k]; s.lhs = (k + 1) % NV; s.n = ar[k]; for (int j = 0; j < s.n; ++j) { s.s[j] = (k + 2 * j) % NV; s.m[j] = sx_real("mul"); } push(t, s); }
    t.setDerivative(K % NV, s0); adj[K % NV] = s0;
    t.computeAdjoints();
    for (int k = K - 1; k >= 0; --k) ref(adj, st[k]);
    for (int i = 0; i < NV; ++i) sx_eq(t.getDerivative(i), adj[i], "adjoint");
}
#define SW(NAME, K, ...) extern "C" void h_sweep_##NAME() { static const int ar[] = {__VA_ARGS__}; sweep<K>(ar); }
SW(1_0, 1, 0) SW(1_1, 1, 1) SW(1_2, 1, 2) SW(1_3, 1, 3)
SW(2_11, 2, 1, 1) SW(2_12, 2, 1, 2) SW(2_21, 2, 2, 1) SW(2_20, 2, 2, 0) SW(2_22, 2, 2, 2)
SW(3_111, 3, 1, 1, 1) SW(3_120, 3, 1, 2, 0) SW(3_101, 3, 1, 0, 1)
SW(3_211_T, 3, 2, 1, 1) SW(4_1111_T, 4, 1, 1, 1, 1)
#define SN(NAME, K, ...) extern "C" void h_chain_##NAME() { static const int ar[] = {__VA_ARGS__}; sweepN<K>(ar); }
SN(4, 4, 1, 2, 1, 2) SN(5, 5, 1, 2, 1, 1, 2) SN(6, 6, 2, 1, 1, 0, 1, 1) SN(7, 7, 1, 1, 2, 1, 1, 2, 1) SN(8, 8, 1, 1, 1, 1, 1, 1, 1, 1) SN(9, 9, 3, 1, 1, 2, 1, 1, 0, 1, 1)
// pushAll: whole statement at once, incl. across chunk boundaries, after a symbolic number of statements
extern "C" void h_pushall()
{
    int pre = sx_choice("pre", 5), n = sx_choice("n", NPA);
    TP t; AD v[NV]; for (int i = 0; i < NV; ++i) t.registerInput(v[i]);
    t.newRecording();
    St a; a.lhs = 1; a.n = 1; a.s[0] = 0; a.m[0] = sx_real("mul");
    for (int i = 0; i < pre; ++i) push(t, a);
    RL m[6]; unsigned s[6]; for (int i = 0; i < n; ++i) { m[i] = sx_real("mul"); s[i] = i % 2; }
    double seed = sx_real("seed");
    t.pushAll(2, m, s, n);
    sx_check((int)t.getNumOperations() == pre + n && (int)t.getNumStatements() == pre + 1, "counts");
    t.setDerivative(2, seed); t.computeAdjoints();
    double adj[NV] = {0};
    for (int i = 0; i < n; ++i) adj[s[i]] += m[i] * seed;
    for (int i = 0; i < pre; ++i) ref(adj, a);
    for (int i = 0; i < NV; ++i) sx_eq(t.getDerivative(i), adj[i], "adjoint");
}
// linearity in the seeds and repeatability: sweeping again after re-seeding gives the same result
extern "C" void h_repeat()
{
    static const int ar[] = {1, 2}; Prog<2> p; mk(p, ar); double seed2[NV]; for (int i = 0; i < NV; ++i) seed2[i] = sx_real("seed2");
    TP t; AD v[NV]; for (int i = 0; i < NV; ++i) t.registerInput(v[i]);
    t.newRecording();
    for (int k = 0; k < 2; ++k) push(t, p.st[k]);
    for (int i = 0; i < NV; ++i) t.setDerivative(i, p.seed[i]);
    t.computeAdjoints();
    t.clearDerivatives();
    for (int i = 0; i < NV; ++i) sx_eq(t.derivative(i), 0, "cleared");
    for (int i = 0; i < NV; ++i) t.setDerivative(i, seed2[i]);
    t.computeAdjoints();
    double adj[NV]; for (int i = 0; i < NV; ++i) adj[i] = seed2[i];
    for (int k = 1; k >= 0; --k) ref(adj, p.st[k]);
    for (int i = 0; i < NV; ++i) sx_eq(t.getDerivative(i), adj[i], "adjoint of the second sweep");
}
// without clearing, seeds add up: the adjoints of the inputs accumulate
extern "C" void h_accumulate()
{
    double m1 = sx_real("m1"), m2 = sx_real("m2"), s1 = sx_real("s1"), s2 = sx_real("s2");
    TP t; AD v[NV]; for (int i = 0; i < NV; ++i) t.registerInput(v[i]);
    t.newRecording();
    t.pushRhs(m1, 0); t.pushRhs(m2, 1); t.pushLhs(2);
    t.setDerivative(2, s1); t.computeAdjoints();
    sx_eq(t.getDerivative(2), 0, "output adjoint reset by the sweep");
    t.setDerivative(2, s2); t.computeAdjoints();
    sx_eq(t.getDerivative(0), m1 * (s1 + s2), "accumulated"); sx_eq(t.getDerivative(1), m2 * (s1 + s2), "accumulated");
}
// variables recorded after derivatives were first touched take part in the next sweep
extern "C" void h_late_statements()
{
    double x0 = sx_real("x"), c = sx_real("c"), s1 = sx_real("s1"), s2 = sx_real("s2");
    TP t; AD x = x0; t.registerInput(x); t.newRecording();
    AD y = x * c; derivative(y) = s1; t.computeAdjoints(); sx_eq(derivative(x), c * s1, "first");
    int n = sx_choice("n", 3);
    AD z[2]; for (int i = 0; i < n; ++i) z[i] = i ? z[0] * c : y * c;
    AD w = y + 1.0;
    t.setDerivative(y.getSlot(), s2); t.computeAdjoints();
    sx_eq(derivative(x), c * (s1 + s2), "second"); sx_eq(derivative(w), 0, "untouched");
}
// seeding an output and recording further statements before the sweep
extern "C" void h_seed_then_record()
{
    double x0 = sx_real("x"), c = sx_real("c"), s1 = sx_real("s1");
    TP t; AD x = x0; t.registerInput(x); t.newRecording();
    AD y = x * c; derivative(y) = s1;
    int n = sx_choice("n", 4);
    std::vector<AD> z; z.reserve(4); for (int i = 0; i < n; ++i) z.push_back(y * (double)i);
    t.computeAdjoints(); sx_eq(derivative(x), c * s1, "adjoint");
    for (int i = 0; i < n; ++i) sx_eq(derivative(z[i]), 0, "not an output");
}
extern "C" void h_sweep_to_unseeded()
{   // a partial sweep without any seed leaves all derivatives zero
    double x0 = sx_real("x"), c = sx_real("c");
    TP t; AD x = x0; t.registerInput(x); t.newRecording(); unsigned p = t.getPosition();
    AD y = x * c;
    t.computeAdjointsTo(p); sx_eq(derivative(x), 0, "adjoint"); sx_eq(derivative(y), 0, "adjoint");
}
// the same with the derivative of the new variable being the one that is seeded
extern "C" void h_late_output()
{
    double x0 = sx_real("x"), c = sx_real("c"), s2 = sx_real("s2");
    TP t; AD x = x0; t.registerInput(x); t.newRecording();
    AD y = x * c; derivative(y) = 0; t.computeAdjoints();
    AD z = y * y, w = z * 2.0; derivative(w) = s2; t.computeAdjoints();
    sx_eq(derivative(x), s2 * 4 * x0 * c * c, "adjoint");
}
// float tapes
extern "C" void h_float()
{
    float m1 = sx_realf("m1"), m2 = sx_realf("m2"), s1 = sx_realf("s1"); int a = sx_int("a", 0, 2), b = sx_int("b", 0, 2);
    TPf t; ADf v[3]; for (int i = 0; i < 3; ++i) t.registerInput(v[i]);
    t.newRecording();
    t.pushRhs(m1, a); t.pushLhs(b); t.pushRhs(m2, b); t.pushLhs(2);
    t.setDerivative(2, s1); t.computeAdjoints();
    double adj[3] = {0, 0, 0}; adj[2] = 0; adj[b] += m2 * s1; double q = adj[b]; adj[b] = 0; adj[a] += m1 * q;
    for (int i = 0; i < 3; ++i) sx_eq(t.getDerivative(i), adj[i], "adjoint");
}
