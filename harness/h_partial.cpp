// Positions: partial sweeps, roll-back of the recording, clearing of later derivatives.
#include "ad.hpp"
#define NV 3
struct St { int lhs, n; int s[2]; double m[2]; };
static St mkst(int n) { St s; s.lhs = sx_choice("lhs", NV); s.n = n; for (int j = 0; j < n; ++j) { s.s[j] = j ? (s.s[0] + 1) % NV : sx_choice("slot", NV); s.m[j] = sx_real("mul"); } return s; }
static void push(TP& t, const St& s) { for (int j = 0; j < s.n; ++j) t.pushRhs(s.m[j], s.s[j]); t.pushLhs(s.lhs); }
static void ref(double* adj, const St& s) { double a = adj[s.lhs]; adj[s.lhs] = 0; for (int j = 0; j < s.n; ++j) adj[s.s[j]] += s.m[j] * a; }
struct Fix { TP t; AD v[NV]; double adj[NV]; Fix() { for (int i = 0; i < NV; ++i) { t.registerInput(v[i]); sx_assume(v[i].getSlot() == (unsigned)i); } t.newRecording(); }
    void seed() { for (int i = 0; i < NV; ++i) { adj[i] = sx_real("seed"); t.setDerivative(i, adj[i]); } }
    void cmp(const char* l) { for (int i = 0; i < NV; ++i) sx_eq(t.getDerivative(i), adj[i], l); } };
template <int K> static void to(const int* ar)
{   // sweep to p, then to q <= p, then all the way: each equals the reference
    Fix f; St s[K]; TP::position_type pos[K + 1]; pos[0] = f.t.getPosition();
    for (int k = 0; k < K; ++k) { s[k] = mkst(ar[k]); push(f.t, s[k]); pos[k + 1] = f.t.getPosition(); }
    for (int k = 0; k < K; ++k) sx_check(pos[k] != pos[k + 1], "positions are distinct");
    f.seed();
    int p = sx_choice("p", K + 1);
    f.t.computeAdjointsTo(pos[p]);
    for (int k = K - 1; k >= p; --k) ref(f.adj, s[k]);
    f.cmp("sweep to p");
    sx_check((int)f.t.getNumStatements() == K, "recording unchanged");
    f.t.resetTo(pos[p]);
    sx_check(f.t.getPosition() == pos[p] && (int)f.t.getNumStatements() == p, "rolled back");
    f.cmp("resetTo keeps derivatives");
    f.t.computeAdjoints();
    for (int k = p - 1; k >= 0; --k) ref(f.adj, s[k]);
    f.cmp("rest of the sweep");
}
template <int K> static void steps(const int* ar)
{   // a long chain, swept in two or three arbitrary steps equals one sweep
    Fix f; St s[K]; TP::position_type pos[K + 1]; pos[0] = f.t.getPosition(); unsigned nops[K + 1]; nops[0] = 0;
    for (int k = 0; k < K; ++k) { St& q = s[k]; q.lhs = (k + 1) % NV; q.n = ar[k]; for (int j = 0; j < q.n; ++j) { q.s[j] = (k + 2 * j) % NV; q.m[j] = sx_real("mul"); } push(f.t, q); pos[k + 1] = f.t.getPosition(); nops[k + 1] = f.t.getNumOperations(); }
    f.seed();
    int p = sx_choice("p", K + 1), q = sx_choice("q", K + 1); sx_assume(q <= p); int roll = sx_choice("roll", 2);
    f.t.computeAdjointsTo(pos[p]);
    for (int k = K - 1; k >= p; --k) ref(f.adj, s[k]);
    f.cmp("first step");
    if (roll) { f.t.resetTo(pos[p]); sx_check(f.t.getNumOperations() == nops[p] && (int)f.t.getNumStatements() == p, "rolled back"); f.t.computeAdjointsTo(pos[q]); }
    else { // without roll-back the statements after p are replayed with whatever their results' adjoints are now
        f.t.computeAdjointsTo(pos[q]); for (int k = K - 1; k >= p; --k) ref(f.adj, s[k]); }
    for (int k = p - 1; k >= q; --k) ref(f.adj, s[k]);
    f.cmp("second step");
}
#define T_(NAME, K, ...) extern "C" void h_to_##NAME() { static const int ar[] = {__VA_ARGS__}; to<K>(ar); }
T_(1, 1, 1) T_(11, 2, 1, 1) T_(12, 2, 1, 2) T_(21, 2, 2, 1) T_(111_T, 3, 1, 1, 1) T_(101, 3, 1, 0, 1) T_(212_T, 3, 2, 1, 2)
#define S_(NAME, K, ...) extern "C" void h_steps_##NAME() { static const int ar[] = {__VA_ARGS__}; steps<K>(ar); }
S_(5, 5, 1, 2, 1, 1, 2) S_(6, 6, 1, 1, 2, 0, 1, 2) S_(8_T, 8, 2, 1, 1, 1, 1, 2, 1, 1)
extern "C" void h_rerecord()
{   // record, roll back to p, record something else: exactly as if the discarded part had never been recorded
    Fix f; St a = mkst(1), b = {1, 2, {0, 1}, {sx_real("mul"), sx_real("mul")}}, c = {0, 1, {1, 0}, {sx_real("mul"), 0}}, d = mkst(2);
    push(f.t, a); auto p = f.t.getPosition(); push(f.t, b); push(f.t, c); f.t.resetTo(p); push(f.t, d);
    sx_check(f.t.getNumStatements() == 2 && f.t.getNumOperations() == 3, "counts");
    f.seed(); f.t.computeAdjoints(); ref(f.adj, d); ref(f.adj, a); f.cmp("adjoint");
}
extern "C" void h_reset_many()
{   // repeatedly record n_i statements and roll back (chunk boundaries crossed in both directions)
    Fix f; St a = {1, 1, {0, 0}, {sx_real("m1"), 0}}, b = {2, 2, {1, 0}, {sx_real("m2"), sx_real("m3")}};
    push(f.t, a); auto p = f.t.getPosition();
    int n1 = sx_choice("n1", 6), n2 = sx_choice("n2", 6);
    for (int i = 0; i < n1; ++i) push(f.t, b);
    f.t.resetTo(p);
    for (int i = 0; i < n2; ++i) push(f.t, b);
    sx_check((int)f.t.getNumStatements() == 1 + n2 && (int)f.t.getNumOperations() == 1 + 2 * n2, "counts");
    f.seed(); f.t.computeAdjoints();
    for (int i = 0; i < n2; ++i) ref(f.adj, b);
    ref(f.adj, a); f.cmp("adjoint");
}
extern "C" void h_reset_noop()
{   // resetting to the current position changes nothing
    Fix f; St a = mkst(1), b = mkst(2); push(f.t, a); push(f.t, b);
    f.seed(); f.t.resetTo(f.t.getPosition()); sx_check(f.t.getNumStatements() == 2 && f.t.getNumOperations() == 3, "counts");
    f.t.computeAdjoints(); ref(f.adj, b); ref(f.adj, a); f.cmp("adjoint");
}
// path-wise adjoint Monte Carlo: shared prefix, paths rolled back, adjoints of the prefix accumulate
template <int RESETFIRST> static void paths(bool temps)
{
    double x0 = sx_real("x"), y0 = sx_real("y"), w[3]; for (auto& q : w) q = sx_real("w");
    TP t; AD x = x0, y = y0; t.registerInput(x); t.registerInput(y); t.newRecording();
    AD z = x * y; AD u = x + y;
    int n = 1 + sx_choice("paths", 3);
    auto pos = t.getPosition();
    for (int i = 0; i < n; ++i) {
        AD v;
        if (temps) { AD a = z * w[i]; AD b = a * u; v = b + a; } else v = z * w[i] * u + z * w[i];
        t.registerOutput(v); derivative(v) = 1.0;
        t.computeAdjointsTo(pos);
        sx_eq(derivative(z), [&] { double d = 0; for (int k = 0; k <= i; ++k) d += w[k] * (x0 + y0) + w[k]; return d; }(), "prefix adjoint accumulates");
        if (RESETFIRST) { t.resetTo(pos); t.clearDerivativesAfter(pos); } else { t.clearDerivativesAfter(pos); t.resetTo(pos); }
        sx_eq(derivative(u), [&] { double d = 0; for (int k = 0; k <= i; ++k) d += w[k] * x0 * y0; return d; }(), "kept by clearDerivativesAfter");
        sx_check(t.getPosition() == pos, "position restored");
    }
    t.computeAdjoints();
    double sw = 0; for (int k = 0; k < n; ++k) sw += w[k];
    sx_eq(derivative(x), sw * ((x0 + y0) * y0 + y0 + x0 * y0), "total"); sx_eq(derivative(y), sw * ((x0 + y0) * x0 + x0 + x0 * y0), "total");
}
extern "C" void h_paths_rc() { paths<1>(false); }
extern "C" void h_paths_rc_temps() { paths<1>(true); }
extern "C" void h_paths_cr() { paths<0>(false); }
extern "C" void h_paths_cr_temps() { paths<0>(true); }
extern "C" void h_paths_clear()
{   // the variant with full sweeps and clearDerivatives per path
    double x0 = sx_real("x"), w[2]; for (auto& q : w) q = sx_real("w");
    TP t; AD x = x0; t.registerInput(x); t.newRecording();
    AD z = x * x; auto pos = t.getPosition();
    for (int i = 0; i < 2; ++i) {
        { AD v = z * w[i]; AD k = v * v; v = k + v; t.registerOutput(v); derivative(v) = 1.0; t.computeAdjoints(); }
        sx_eq(derivative(x), (2 * w[i] * w[i] * x0 * x0 + w[i]) * 2 * x0, "adjoint of this path only");
        t.resetTo(pos); t.clearDerivatives(); sx_eq(derivative(x), 0, "cleared");
    }
}
// roll-back directly after newRecording (no statement recorded yet): input adjoints accumulate over paths
template <int CLR> static void from_start()
{
    double x0 = sx_real("x"), w[3]; for (auto& q : w) q = sx_real("w");
    TP t; AD x = x0, y = x0; t.registerInput(x); t.registerInput(y); t.newRecording();
    auto pos = t.getPosition(); double tot = 0;
    for (int i = 0; i < 3; ++i) {
        { AD v = x * w[i]; v = v * v; t.registerOutput(v); derivative(v) = 1.0; t.computeAdjointsTo(pos); }
        tot += 2 * w[i] * w[i] * x0;
        t.resetTo(pos);
        if (CLR) t.clearDerivativesAfter(pos);
        sx_eq(derivative(x), tot, "input adjoint accumulates");
    }
}
extern "C" void h_from_start() { from_start<0>(); }
extern "C" void h_from_start_clear() { from_start<1>(); }
extern "C" void h_clear_after_overwrite()
{   // the statement at the position may assign an early variable: later registered variables keep their derivatives
    double s[3]; for (auto& q : s) q = sx_real("s");
    TP t; AD v[3]; for (int i = 0; i < 3; ++i) t.registerInput(v[i]);
    t.newRecording();
    v[sx_choice("which", 3)] = v[0] * 2.0;
    auto pos = t.getPosition();
    AD w = v[1] * v[2]; derivative(w) = sx_real("sw");
    for (int i = 0; i < 3; ++i) derivative(v[i]) = s[i];
    t.clearDerivativesAfter(pos);
    for (int i = 0; i < 3; ++i) sx_eq(derivative(v[i]), s[i], "derivative of an earlier variable kept");
}
extern "C" void h_clear_after()
{   // derivatives of variables recorded later read as zero once they take part again
    double x0 = sx_real("x");
    TP t; AD x = x0; t.registerInput(x); t.newRecording();
    AD a = x * 2.0; auto pos = t.getPosition(); AD b = a * 3.0, c = b * 4.0;
    derivative(c) = sx_real("s1"); derivative(b) = sx_real("s2"); derivative(a) = 7.0; derivative(x) = 5.0;
    t.clearDerivativesAfter(pos);
    sx_eq(derivative(a), 7, "kept"); sx_eq(derivative(x), 5, "kept");
    AD d = a + x;
    sx_eq(derivative(d), 0, "new"); sx_eq(derivative(b), 0, "cleared"); sx_eq(derivative(c), 0, "cleared");
}
extern "C" void h_reset_alive()
{   // variables created before the position stay usable after the roll-back, new ones get their own derivatives
    double x0 = sx_real("x"), s = sx_real("s");
    TP t; AD x = x0; t.registerInput(x); t.newRecording();
    AD a = x * x; auto pos = t.getPosition();
    int n = sx_choice("n", 4);
    { std::vector<AD> tmp; tmp.reserve(4); for (int i = 0; i < n; ++i) tmp.push_back(a * 2.0); int k = sx_choice("erase", 4); if (k < n) tmp.erase(tmp.begin() + k); }
    t.resetTo(pos);
    AD b = a * 3.0; AD c = b * a; AD d = c + b; AD e = d * x;
    derivative(e) = s; t.computeAdjoints();
    sx_eq(derivative(x), s * (15 * x0 * x0 * x0 * x0 + 9 * x0 * x0), "adjoint");
}
