// Slot life cycle: live variables never share derivative storage; freed storage is handed out again exactly once.
#include "ad.hpp"
#include <memory>
#ifndef N0
#define N0 6
#endif
// seq: f = free one of the initial variables (arbitrary), r = register a new one, u = free the oldest new one, l = free the latest new one
static void seq(const char* s, int n0)
{
    TP t; for (int i = 0; i < n0; ++i) { unsigned q = t.registerVariable(); sx_check(q == (unsigned)i, "initial"); }
    unsigned fr[8], nw[8]; bool alive[8]; int nf = 0, nn = 0, nalive = n0;
    for (; *s; ++s) {
        if (*s == 'f') { int x = sx_int("free", 0, n0 - 1); for (int i = 0; i < nf; ++i) sx_assume(x != (int)fr[i]); fr[nf++] = x; t.unregisterVariable(x); --nalive; }
        else if (*s == 'r') { nw[nn] = t.registerVariable(); alive[nn++] = true; ++nalive; }
        else { int k = -1; for (int i = 0; i < nn; ++i) if (alive[i]) { k = i; if (*s == 'u') break; } if (k >= 0) { t.unregisterVariable(nw[k]); alive[k] = false; --nalive; } }
        for (int j = 0; j < nn; ++j) if (alive[j]) {
            int isfree = nw[j] >= (unsigned)n0; for (int i = 0; i < nf; ++i) isfree |= nw[j] == fr[i];
            sx_check(isfree, "new variable does not take over the slot of a live one");
            for (int i = 0; i < j; ++i) if (alive[i]) sx_check(nw[i] != nw[j], "new variables have different slots");
        }
        sx_check((int)t.getNumVariables() == nalive, "number of variables");
    }
    // every live variable's derivative is accessible and independent
    t.newRecording();
    for (int j = 0; j < nn; ++j) if (alive[j]) sx_check(nw[j] < 64, "slot in range");
    for (int j = 0; j < nn; ++j) if (alive[j]) t.setDerivative(sx_conc(nw[j]), 10.0 + j);
    for (int j = 0; j < nn; ++j) if (alive[j]) sx_eq(t.getDerivative(sx_conc(nw[j])), 10.0 + j, "own derivative");
}
#define Q(NAME, S, N) extern "C" void h_seq_##NAME() { seq(S, N); }
Q(fr, "fr", 4) Q(frr, "frr", 4) Q(ffrr, "ffrr", 5) Q(ffrrr, "ffrrr", 5) Q(frfr, "frfrr", 5) Q(fffrrr, "fffrrr", 6) Q(ffrfrr, "ffrfrr", 6) Q(ffffrrrr, "ffffrrrr", 6)
Q(frufr, "frufrr", 5) Q(ffrulrr, "ffrrulrr", 5) Q(rrfuflr, "rrfuflrr", 4) Q(ffrrufrr, "ffrrufrrr", 6) Q(fffrrufrr, "fffrrufrrr", 6) Q(rrrufulrrr, "rrrufulrrr", 3) Q(frffrrr, "frffrrr", 6)
Q(ffffrrrrr_T, "fffffrrrrrr", 7) Q(ffrfrufrrr_T, "ffrfrufrrr", 7)
// the same on the level of active variables: creation, copies, moves, destruction and assignment in any order
template <int K> static void vars(int first)
{
    double x0 = sx_real("x"), w[4]; for (auto& q : w) q = sx_real("w");
    TP t; AD x = x0; t.registerInput(x); t.newRecording();
    std::unique_ptr<AD> v[4]; double c[4] = {0, 0, 0, 0}, k[4] = {0, 0, 0, 0};   // v[i] = c*x + k
    int live = 1;
    for (int i = 0; i < K; ++i) {
        int op = i == 0 && first >= 0 ? first : sx_choice("op", 6), a = sx_choice("a", 3), b = (a + 1) % 3;
        switch (op) {
        case 0: v[a].reset(); c[a] = k[a] = 0; break;
        case 1: v[a].reset(new AD(x * (a + 2.0))); c[a] = a + 2; k[a] = 0; break;
        case 2: if (v[b]) { v[a].reset(new AD(*v[b])); c[a] = c[b]; k[a] = k[b]; } break;
        case 3: if (v[b]) { v[a].reset(new AD(std::move(*v[b]))); v[b].reset(); c[a] = c[b]; k[a] = k[b]; c[b] = k[b] = 0; } break;
        case 4: if (v[a] && v[b]) { *v[a] = std::move(*v[b]); v[b].reset(); c[a] = c[b]; k[a] = k[b]; c[b] = k[b] = 0; } break;
        case 5: if (v[a] && v[b]) { *v[a] = *v[b] * 2.0 + *v[a]; c[a] += 2 * c[b]; k[a] += 2 * k[b]; } else { v[a].reset(new AD(5.0)); c[a] = 0; k[a] = 5; } break;
        }
    }
    double d = 0; int nv = 1;
    for (int i = 0; i < 3; ++i) if (v[i]) { if (v[i]->shouldRecord()) ++nv; sx_eq(value(*v[i]), c[i] * x0 + k[i], "value"); }
    sx_check((int)t.getNumVariables() == nv, "number of variables");
    for (int i = 0; i < 3; ++i) for (int j = 0; j < i; ++j) if (v[i] && v[j] && v[i]->shouldRecord() && v[j]->shouldRecord()) sx_check(v[i]->getSlot() != v[j]->getSlot(), "distinct");
    for (int i = 0; i < 3; ++i) if (v[i] && v[i]->shouldRecord()) { sx_check(v[i]->getSlot() != x.getSlot(), "distinct"); derivative(*v[i]) = w[i]; d += c[i] * w[i]; }
    derivative(x) += 0.0; t.computeAdjoints(); sx_eq(derivative(x), d, "adjoint");
}
#define VV(K) extern "C" void h_vars##K##_0() { vars<K>(0); } extern "C" void h_vars##K##_1() { vars<K>(1); } extern "C" void h_vars##K##_5() { vars<K>(5); }
extern "C" void h_vars2() { vars<2>(-1); }
extern "C" void h_vars3() { vars<3>(1); }
extern "C" void h_vars4_T() { vars<4>(1); }
// containers growing, erasing and being swapped
extern "C" void h_container()
{
    double x0 = sx_real("x"), w = sx_real("w");
    TP t; AD x = x0; t.registerInput(x); t.newRecording();
    std::vector<AD> v; int n = 1 + sx_choice("n", 5); for (int i = 0; i < n; ++i) v.push_back(x * (i + 1.0));
    std::vector<double> c; for (int i = 0; i < n; ++i) c.push_back(i + 1);
    int e = sx_choice("erase", 5); if (e < n) { v.erase(v.begin() + e); c.erase(c.begin() + e); }
    int ins = sx_choice("insert", 3); if (ins < (int)v.size()) { v.insert(v.begin() + ins, x * 9.0); c.insert(c.begin() + ins, 9); }
    std::vector<AD> u(v); u.swap(v); u.resize(1 + u.size() / 2); 
    double d = 0; for (size_t i = 0; i < v.size(); ++i) { sx_eq(value(v[i]), c[i] * x0, "value"); derivative(v[i]) = w * (i + 1); d += c[i] * w * (i + 1); }
    sx_check(t.getNumVariables() >= 1 + v.size(), "number");
    for (size_t i = 0; i < v.size(); ++i) for (size_t j = 0; j < i; ++j) sx_check(v[i].getSlot() != v[j].getSlot(), "distinct");
    derivative(x) += 0.0;
    t.computeAdjoints(); sx_eq(derivative(x), d, "adjoint");
}
// many recordings on one tape: storage does not grow without bound when variables are created and destroyed again
extern "C" void h_bounded()
{
    TP t; AD x = 1.0; t.registerInput(x); unsigned mx = 0; double s = sx_real("s");
    for (int r = 0; r < 4; ++r) { t.newRecording(); AD y = x * s; { AD a = y * y; AD b = a * x; y = b; } AD z = y + x; if (r == 0) mx = z.getSlot(); sx_check(z.getSlot() == mx, "same slots every time"); derivative(z) = 1.0; t.computeAdjoints(); sx_eq(derivative(x), s * s * 3 * 1 * 1 * 1 + 1 , "adjoint"); }
}
extern "C" void h_after_clear()
{   // clearAll forgets everything, the numbering starts again, and variables registered before do not disturb
    TP t; int n = sx_choice("n", 4); double s = sx_real("s");
    { std::vector<AD> v(n); for (auto& q : v) t.registerInput(q); int e = sx_choice("e", 4); if (e < n) v.erase(v.begin() + e); t.newRecording(); }
    t.clearAll(); sx_check(t.getNumVariables() == 0 && t.getNumStatements() == 0 && t.getNumOperations() == 0, "empty");
    AD a = 2.0, b = 3.0; t.registerInput(a); t.registerInput(b); sx_check(a.getSlot() == 0 && b.getSlot() == 1, "numbering restarts");
    t.newRecording(); AD y = a * b; derivative(y) = s; t.computeAdjoints(); sx_eq(derivative(a), 3 * s, "adjoint"); sx_eq(derivative(b), 2 * s, "adjoint");
}
