// Free slots and nested recordings (inside a checkpoint callback): live variables keep separate slots, the bookkeeping survives.
#include "ad.hpp"
#ifdef XAD_TAPE_REUSE_SLOTS
static const int SXREUSE = 1;
#else
static const int SXREUSE = 0;
#endif
struct St {
    TP t; int n0, slot[8], dead[8], in[8], idead[8], n1, live;
    void outer(int n) { n0 = n; for (int i = 0; i < n; ++i) { slot[i] = t.registerVariable(); dead[i] = 0; } live = n; n1 = 0; }
    bool killo(int i) { if (dead[i]) return false; dead[i] = 1; --live; t.unregisterVariable(slot[i]); return true; }
    bool killi(int i) { if (idead[i]) return false; idead[i] = 1; --live; t.unregisterVariable(in[i]); return true; }
    void fresh(int s) { for (int o = 0; o < n0; ++o) if (!dead[o]) sx_check(s != slot[o], "not the slot of a live outer variable"); for (int i = 0; i < n1; ++i) if (!idead[i]) sx_check(s != in[i], "not the slot of a live inner variable"); }
    void add() { int s = t.registerVariable(); fresh(s); in[n1] = s; idead[n1++] = 0; ++live; sx_check((int)t.getNumVariables() == live, "number of variables"); }
};
static St* st; static int K1, K2, K3, KO;
struct Cb : xad::CheckpointCallback<TP> { bool ran; Cb() : ran(false) {}
    void computeAdjoint(TP* t) override {
        ran = true; int before = st->live;
        { xad::ScopedNestedRecording<TP> nr(t); for (int i = 0; i < K1; ++i) st->add();
          for (int k = 0; k < K2; ++k) { int f = sx_choice("kill", (KO ? st->n0 : 0) + st->n1); bool ok = f < st->n1 ? st->killi(f) : st->killo(f - st->n1); if (!ok) sx_stop(); }
          sx_check((int)t->getNumVariables() == st->live, "number of variables inside");
          for (int i = 0; i < K3; ++i) st->add(); }
        int li = 0; for (int i = 0; i < st->n1; ++i) { li += !st->idead[i]; } st->live -= li; st->n1 = 0;
    } };
static void nest(int n0, int f0, int k1, int k2, int k3, int ko, int post)
{
    St s; st = &s; K1 = k1; K2 = k2; K3 = k3; KO = ko; s.outer(n0);
    for (int k = 0; k < f0; ++k) if (!s.killo(1 + sx_choice("before", n0 - 1))) return;
    TP& t = s.t; t.newRecording(); Cb cb; int lv = s.slot[0]; t.pushRhs(1.0, lv); t.pushLhs(lv); t.insertCallback(&cb); t.derivative(lv) = 1.0; t.computeAdjoints(); sx_check(cb.ran, "callback called");
    if (!ko) sx_check((int)t.getNumVariables() == s.live, "number of variables afterwards");
    int w[6]; for (int k = 0; k < post; ++k) { w[k] = t.registerVariable(); s.fresh(w[k]); for (int i = 0; i < k; ++i) sx_check(w[k] != w[i], "handed out once afterwards"); }
    // all remaining variables go, in any order of two ends
    int dir = sx_choice("order", 2); for (int i = 0; i < post; ++i) t.unregisterVariable(w[dir ? i : post - 1 - i]);
    for (int i = 0; i < n0; ++i) s.killo(i);
    if (!ko) { sx_check(t.getNumVariables() == 0, "none left"); if (SXREUSE) sx_check(t.registerVariable() == 0, "all slots given back"); }
}
extern "C" void h_nest_0_2() { nest(3, 0, 3, 2, 2, 0, 3); }
extern "C" void h_nest_1_1() { nest(4, 1, 3, 1, 2, 0, 3); }
extern "C" void h_nest_1_2() { nest(4, 1, 4, 2, 3, 0, 3); }
extern "C" void h_nest_2_2() { nest(5, 2, 4, 2, 3, 0, 4); }
extern "C" void h_nest_1_3_T() { nest(4, 1, 5, 3, 4, 0, 4); }
extern "C" void h_nest_2_3_T() { nest(5, 2, 5, 3, 4, 0, 4); }
extern "C" void h_outer_0_1() { nest(3, 0, 2, 1, 2, 1, 4); }
extern "C" void h_outer_0_2() { nest(3, 0, 2, 2, 3, 1, 4); }
extern "C" void h_outer_1_1() { nest(4, 1, 2, 1, 3, 1, 4); }
extern "C" void h_outer_1_2() { nest(4, 1, 3, 2, 3, 1, 5); }
extern "C" void h_outer_2_3_T() { nest(5, 2, 3, 3, 4, 1, 5); }
