// Histories mixing statements, callbacks, marks, partial and full sweeps, rollbacks and new recordings, against a list of entries.
#include "ad.hpp"
#include <memory>
typedef TP::slot_type slot;
struct Ent { int l; double m; bool cb; };          // adj[l-1] += m * adj[l]; adj[l] = 0
static int calls;
struct Cb : xad::CheckpointCallback<TP> {
    slot in, out; double m; int kind;
    void computeAdjoint(TP* t) override {
        ++calls; double a = t->getAndResetOutputAdjoint(out);
        if (kind == 0) { t->incrementAdjoint(in, m * a); return; }
        AD p = 1.0; t->registerInput(p); xad::ScopedNestedRecording<TP> n(t); AD q = p * m; AD r = q * 1.0; t->registerOutput(r); derivative(r) = a; n.computeAdjoints(); n.incrementAdjoint(in, derivative(p)); }
};
// first: the first step; kind: hand-written or nested recording
template <int K, int KIND> static void hist(int first, int second = -1)
{
    std::vector<std::unique_ptr<Cb>> cbs; cbs.reserve(8);
    TP t; AD a[3]; for (auto& q : a) { q = 1.0; t.registerInput(q); } t.newRecording();
    std::vector<Ent> e; e.reserve(8); double adj[3] = {0, 0, 0}; int mark = -1; auto base = t.getPosition(); calls = 0; bool seeded = false;
    auto pos = [&] { return (int)(t.getPosition() - base); };
    auto seed = [&](int w) { double s = sx_real("s"); sx_assume(s > 0); derivative(a[w]) += s; adj[w] += s; seeded = true; };
    auto back = [&](int to) { int n = 0; for (int i = (int)e.size() - 1; i >= to; --i) { double d = adj[e[i].l]; adj[e[i].l] = 0; adj[e[i].l - 1] += e[i].m * d; n += e[i].cb; } return n; };
    auto compare = [&](const char* w) { for (int i = 0; i < 3; ++i) sx_eq(derivative(a[i]), adj[i], w); };
    auto swept = [&](int to, int n) { sx_check(calls == n, "every callback above the target runs once, none below"); compare("adjoint"); int p = pos(); sx_check(p >= to && p <= (int)e.size() && (n || p == (int)e.size()), "recording kept below the target"); e.resize(p); if (mark > p) mark = -1; };
    auto step = [&](int op) {
        switch (op) {
          case 0: { int l = 1 + sx_choice("l", 2); double m = 2.0 + e.size(); t.pushRhs(+m, a[l - 1].getSlot()); t.pushLhs(a[l].getSlot()); e.push_back({l, m, false}); } break;
          case 1: { int l = 1 + sx_choice("l", 2); std::unique_ptr<Cb> c(new Cb); c->m = 2.5 + e.size(); c->kind = KIND; c->in = a[l - 1].getSlot(); c->out = a[l].getSlot(); t.insertCallback(c.get()); e.push_back({l, c->m, true}); cbs.push_back(std::move(c)); } break;
          case 2: mark = pos(); sx_check(mark == (int)e.size(), "position counts entries"); break;
          case 3: seed(2); { int to = mark >= 0 ? mark : 0; calls = 0; int n = back(to); t.computeAdjointsTo(base + to); swept(to, n); } break;
          case 4: if (mark >= 0) { t.resetTo(base + mark); e.resize(mark); sx_check(pos() == mark, "rolled back"); } break;
          case 5: seed(2); { calls = 0; int n = back(0); t.computeAdjoints(); swept(0, n); } break;
          case 6: t.newRecording(); base = t.getPosition(); e.clear(); mark = -1; for (auto& q : adj) q = 0; seeded = false; break;
          default: t.clearDerivatives(); for (auto& q : adj) q = 0; seeded = false; break; }
    };
    step(first); if (second >= 0) step(second);
    for (int k = second >= 0 ? 2 : 1; k < K; ++k) step(sx_choice("op", 8));
    seed(1); step(5);
}
#define H(n, K, KIND) \
    extern "C" void h_cb##n##_stmt() { hist<K, KIND>(0); } extern "C" void h_cb##n##_cb() { hist<K, KIND>(1); } extern "C" void h_cb##n##_mark() { hist<K, KIND>(2); }
H(h, 4, 0)
H(n, 4, 1)
#define H5(n, m, f) extern "C" void h_cb5_##n##_stmt_T() { hist<6, m>(f, 0); } extern "C" void h_cb5_##n##_cb_T() { hist<6, m>(f, 1); } extern "C" void h_cb5_##n##_mark_T() { hist<6, m>(f, 2); } extern "C" void h_cb5_##n##_sweep_T() { hist<6, m>(f, 5); }
H5(hand0, 0, 0) H5(hand1, 0, 1) H5(hand2, 0, 2) H5(nest1, 1, 1)
