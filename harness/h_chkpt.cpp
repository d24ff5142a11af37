// Checkpoint callbacks, external functions and nested recordings.
#include "ad.hpp"
#include <memory>
typedef TP::slot_type slot;
static int order[16], norder;
// external function y = c0*x0 + c1*x1 (+ const): adjoint implemented by hand
struct Ext : xad::CheckpointCallback<TP> {
    slot in[2], out; double c[2]; int id, calls; bool dead;
    Ext() : id(0), calls(0), dead(false) {}
    void fwd(const AD& a, const AD& b, AD& y, double c0, double c1, int i = 0) {
        in[0] = a.getSlot(); in[1] = b.getSlot(); c[0] = c0; c[1] = c1; id = i;
        AD r = value(a) * c0 + value(b) * c1; TP::getActive()->registerOutput(r); out = r.getSlot(); TP::getActive()->insertCallback(this); y = r; }
    void computeAdjoint(TP* t) override { ++calls; order[norder++] = id; double a = t->getAndResetOutputAdjoint(out); sx_eq(t->getDerivative(out), 0, "output adjoint reset"); for (int i = 0; i < 2; ++i) t->incrementAdjoint(in[i], c[i] * a); }
};
// checkpoint: z = (x*x)*k [n times], re-run actively in a nested recording
struct Chk : xad::CheckpointCallback<TP> {
    std::vector<slot> s; std::vector<double> xs; std::vector<int> ns; double k; int pre, calls;
    explicit Chk(double k_, int pre_ = 0) : k(k_), pre(pre_), calls(0) {}
    template <class T> static void run(T& x, double k, int n) { for (int i = 0; i < n; ++i) { T t = x * x; x = t * k; } }
    void stage(int n, AD& x) { ns.push_back(n); s.push_back(x.getSlot()); double v = value(x); xs.push_back(v); run(v, k, n); value(x) = v; s.push_back(x.getSlot()); TP::getActive()->insertCallback(this); }
    void computeAdjoint(TP* t) override {
        ++calls;
        slot o = s.back(); s.pop_back(); slot i = s.back(); s.pop_back(); int n = ns.back(); ns.pop_back();
        double oa = t->getAndResetOutputAdjoint(o);
        AD x = xs.back(); xs.pop_back();
        t->registerInput(x);                              // as in the shipped sample: before the nested recording starts
        xad::ScopedNestedRecording<TP> nested(t);
        if (pre) { run(x, k, n); t->registerOutput(x); derivative(x) = oa; nested.computeAdjoints(); nested.incrementAdjoint(i, derivative(x)); return; }
        AD y = x; run(y, k, n); t->registerOutput(y); derivative(y) = oa; nested.computeAdjoints();
        nested.incrementAdjoint(i, derivative(x));
    }
};
static double dsq(double x, double k, int n, double& v) { double d = 1; v = x; for (int i = 0; i < n; ++i) { d *= 2 * v * k; v = v * v * k; } return d; }

extern "C" void h_ext_one()
{
    double x0 = sx_real("x"), y0 = sx_real("y"), c0 = sx_real("c0"), c1 = sx_real("c1"), s = sx_real("s");
    TP t; AD x = x0, y = y0; t.registerInput(x); t.registerInput(y); t.newRecording();
    Ext e; AD z; AD p = x * y; e.fwd(p, y, z, c0, c1); AD w = z * z + p;
    t.registerOutput(w); derivative(w) = s; t.computeAdjoints();
    double zv = c0 * x0 * y0 + c1 * y0;
    sx_eq(value(w), zv * zv + x0 * y0, "value"); sx_eq(derivative(x), s * (2 * zv * c0 * y0 + y0), "d/dx"); sx_eq(derivative(y), s * (2 * zv * (c0 * x0 + c1) + x0), "d/dy");
    sx_check(e.calls == 1, "called exactly once");
}
extern "C" void h_ext_first_last()
{   // callback as the very first and as the very last entry of the recording
    double x0 = sx_real("x"), y0 = sx_real("y"), c0 = sx_real("c0"), c1 = sx_real("c1"), s = sx_real("s"); norder = 0;
    TP t; AD x = x0, y = y0; t.registerInput(x); t.registerInput(y); AD z = 0.0; t.registerInput(z); t.newRecording();
    Ext a, b; AD u; a.fwd(x, y, u, c0, c1, 1); b.fwd(u, u, z, c0, c1, 2);
    derivative(z) = s; t.computeAdjoints();
    sx_eq(derivative(x), s * (c0 + c1) * c0, "d/dx"); sx_eq(derivative(y), s * (c0 + c1) * c1, "d/dy");
    sx_check(norder == 2 && order[0] == 2 && order[1] == 1, "reverse order, once each");
}
template <int N> static void ext_many(bool same)
{   // several callbacks at symbolic places between plain statements
    double x0 = sx_real("x"), c0 = sx_real("c0"), c1 = sx_real("c1"), s = sx_real("s"); norder = 0;
    TP t; AD x = x0; t.registerInput(x); t.newRecording();
    Ext e[N]; AD v = x; double d = 1, val = x0; int ne = 0;
    for (int i = 0; i < N; ++i) {
        if (sx_choice("ckpt", 2)) { AD w; e[i].fwd(v, x, w, c0, c1, i); v = w; d = d * c0 + c1; val = val * c0 + x0 * c1; ++ne; }
        else { v = v * c0 + x; d = d * c0 + 1; val = val * c0 + x0; }
    }
    t.registerOutput(v); derivative(v) = s; t.computeAdjoints();
    sx_eq(value(v), val, "value"); sx_eq(derivative(x), s * d, "adjoint"); sx_check(norder == ne, "each exactly once");
    for (int i = 0; i + 1 < norder; ++i) sx_check(order[i] > order[i + 1], "reverse order");
}
extern "C" void h_ext_many3() { ext_many<3>(false); }
extern "C" void h_ext_many5() { ext_many<5>(false); }
extern "C" void h_ext_partial()
{   // a sweep to a position runs exactly the callbacks after it; rolling back removes them
    double x0 = sx_real("x"), c0 = sx_real("c0"), c1 = sx_real("c1"), s = sx_real("s"); norder = 0;
    TP t; AD x = x0; t.registerInput(x); t.newRecording();
    Ext e[3]; AD v[4]; v[0] = x; TP::position_type pos[4]; pos[0] = t.getPosition();
    for (int i = 0; i < 3; ++i) { e[i].fwd(v[i], x, v[i + 1], c0, c1, i); pos[i + 1] = t.getPosition(); }
    int p = sx_choice("p", 4);
    derivative(v[3]) = s;
    int roll = sx_choice("roll", 2);
    if (roll) {
        t.resetTo(pos[p]); derivative(v[3]) = 0; derivative(v[p]) = s; t.computeAdjoints();
        sx_check(norder == p, "only the callbacks before the position"); double d = 1; for (int i = 0; i < p; ++i) d = d * c0 + c1; sx_eq(derivative(x), s * d, "adjoint");
    } else {
        t.computeAdjointsTo(pos[p]); sx_check(norder == 3 - p, "callbacks after the position");
        double d = s, dx = 0; for (int i = 3; i > p; --i) { dx += d * c1; d *= c0; }
        sx_eq(derivative(v[p]), d, "adjoint at the position"); sx_eq(derivative(x), dx, "x");
        t.computeAdjoints(); sx_check(norder == 3, "rest"); d = 1; for (int i = 0; i < 3; ++i) d = d * c0 + c1; sx_eq(derivative(x), s * d, "total");
    }
}
template <int PRE> static void chk(int stages)
{
    double x0 = sx_real("x"), k = sx_real("k"), s = sx_real("s"); sx_assume(x0 > -3 && x0 < 3 && k > -2 && k < 2);
    TP t; AD x = x0; t.registerInput(x); AD in = x; t.newRecording();
    Chk c(k, PRE); int tot = 0;
    AD y = in; for (int i = 0; i < stages; ++i) { int n = 1 + sx_choice("n", 2); tot += n; c.stage(n, y); }
    t.registerOutput(y); derivative(y) = s; t.computeAdjoints();
    double v, d = dsq(x0, k, tot, v);
    sx_eq(value(y), v, "value"); sx_eq(derivative(in), s * d, "adjoint"); sx_check(c.calls == stages && c.s.empty(), "called once per stage");
}
extern "C" void h_chk1() { chk<0>(1); }
extern "C" void h_chk2() { chk<0>(2); }
extern "C" void h_chk1_in() { chk<1>(1); }
extern "C" void h_chk2_in() { chk<1>(2); }
// the recording around the checkpoint has temporaries that are already destroyed but whose adjoints are pending
template <int PRE> static void pending(int where)
{
    double x0 = sx_real("x"), k = sx_real("k"), s = sx_real("s");
    TP t; AD x = x0; t.registerInput(x); AD out = 0.0; t.registerInput(out); t.newRecording();
    Chk c(k, PRE); double v, d = dsq(x0, k, 1, v);
    if (where == 0) { AD a = x * 3.0; AD y = x; c.stage(1, y); out = a * y; }
    else if (where == 1) { AD y = x; { AD a = x * 3.0; { AD b = a * 2.0; c.stage(1, y); out = b * y + a; } } }
    else { AD y = x; AD a[3]; for (int i = 0; i < 3; ++i) a[i] = x * (i + 1.0); c.stage(1, y); out = a[0] * y; out += a[1] * a[2]; }
    derivative(out) = s; t.computeAdjoints();
    double e = where == 0 ? 3 * (v + x0 * d) : where == 1 ? 6 * (v + x0 * d) + 3 : v + x0 * d + 12 * x0;
    sx_eq(derivative(x), s * e, "adjoint");
}
extern "C" void h_pending_in_0() { pending<1>(0); } extern "C" void h_pending_in_1() { pending<1>(1); } extern "C" void h_pending_in_2() { pending<1>(2); }
extern "C" void h_pending_out_0() { pending<0>(0); } extern "C" void h_pending_out_1() { pending<0>(1); } extern "C" void h_pending_out_2() { pending<0>(2); }
// a nested recording containing a checkpoint itself
struct Outer : xad::CheckpointCallback<TP> {
    slot in, out; double xv, k; int calls;
    void fwd(AD& x, double k_) { k = k_; calls = 0; in = x.getSlot(); xv = value(x); double v; dsq(xv, k, 3, v); value(x) = v; out = x.getSlot(); TP::getActive()->insertCallback(this); }
    void computeAdjoint(TP* t) override {
        ++calls; double a = t->getAndResetOutputAdjoint(out); AD x = xv; t->registerInput(x);
        { xad::ScopedNestedRecording<TP> nested(t); Chk c(k); AD y = x; Chk::run(y, k, 1); c.stage(1, y); AD z = y; Chk::run(z, k, 1); t->registerOutput(z); derivative(z) = a; nested.computeAdjoints(); sx_check(c.calls == 1, "inner called once"); nested.incrementAdjoint(in, derivative(x)); }
    }
};
extern "C" void h_nested_nested()
{
    double x0 = sx_real("x"), k = sx_real("k"), s = sx_real("s");
    TP t; AD x = x0; t.registerInput(x); t.newRecording();
    AD y = x * 2.0; Outer o; o.fwd(y, k); AD z = y + x;
    t.registerOutput(z); derivative(z) = s; t.computeAdjoints();
    double v, d = dsq(2 * x0, k, 3, v); sx_eq(value(z), v + x0, "value"); sx_eq(derivative(x), s * (2 * d + 1), "adjoint"); sx_check(o.calls == 1, "outer called once");
}
// several nested recordings within one callback
struct Multi : xad::CheckpointCallback<TP> {
    slot in[2], out; double v[2];
    void fwd(const AD& a, const AD& b, AD& y) { in[0] = a.getSlot(); in[1] = b.getSlot(); v[0] = value(a); v[1] = value(b); AD r = v[0] * v[1] * v[1]; TP::getActive()->registerOutput(r); out = r.getSlot(); TP::getActive()->insertCallback(this); y = r; }
    void computeAdjoint(TP* t) override {
        double a = t->getAndResetOutputAdjoint(out);
        for (int r = 0; r < 2; ++r) { AD p = v[0], q = v[1]; t->registerInput(p); t->registerInput(q); xad::ScopedNestedRecording<TP> n(t); AD y = p * q; { AD tmp = q + 0.0; y = y * tmp; } t->registerOutput(y); derivative(y) = a; n.computeAdjoints();
            if (r == 0) n.incrementAdjoint(in[0], derivative(p)); else n.incrementAdjoint(in[1], derivative(q)); }
    }
};
extern "C" void h_multi_nested()
{
    double x0 = sx_real("x"), y0 = sx_real("y"), s = sx_real("s");
    TP t; AD x = x0, y = y0; t.registerInput(x); t.registerInput(y); t.newRecording();
    Multi m; AD z; AD p = x + y; m.fwd(p, y, z); AD w = z * p; derivative(w) = s; t.computeAdjoints();
    double q = x0 + y0, zv = q * y0 * y0; sx_eq(value(w), zv * q, "value"); sx_eq(derivative(x), s * 2 * q * y0 * y0, "d/dx"); sx_eq(derivative(y), s * (2 * q * y0 * y0 + q * q * 2 * y0), "d/dy");
}
extern "C" void h_nested_restores()
{   // ending the nested recording leaves the outer recording exactly as it was
    double x0 = sx_real("x"), k = sx_real("k"), s = sx_real("s");
    struct Cb : xad::CheckpointCallback<TP> { int st = -1, op = -1, nv = -1; slot in, out; double k; int n;
        void computeAdjoint(TP* t) override { double a = t->getAndResetOutputAdjoint(out); st = t->getNumStatements(); op = t->getNumOperations(); nv = t->getNumVariables(); auto pos = t->getPosition();
            { AD p = k; t->registerInput(p); st = t->getNumStatements(); nv = t->getNumVariables(); xad::ScopedNestedRecording<TP> r(t); sx_check(r.getTape() == t, "tape"); std::vector<AD> tmp; for (int i = 0; i < n; ++i) tmp.push_back(p * (double)i); tmp.clear(); AD q = p * 2.0; derivative(q) = 1.0; r.computeAdjoints(); sx_eq(derivative(p), 2, "nested adjoint"); }
            --nv; pos = t->getPosition(); sx_check(st == (int)t->getNumStatements() && op == (int)t->getNumOperations() && pos == t->getPosition(), "outer recording unchanged");
            sx_check(nv == (int)t->getNumVariables(), "variables restored"); t->incrementAdjoint(in, k * a); } } cb;
    cb.k = k; cb.n = sx_choice("n", 4);
    TP t; AD x = x0; t.registerInput(x); t.newRecording();
    AD y = x * 3.0; cb.in = y.getSlot(); AD z = k * value(y); t.registerOutput(z); cb.out = z.getSlot(); t.insertCallback(&cb); AD w = z * z;
    derivative(w) = s; t.computeAdjoints(); sx_eq(derivative(x), s * 2 * k * 3 * x0 * k * 3, "adjoint");
}
// variables created inside the nested recording but destroyed after it ended
struct Outlive : xad::CheckpointCallback<TP> { slot in, out; double xv; void computeAdjoint(TP* t) override { double a = t->getAndResetOutputAdjoint(out); AD p = xv, y; t->registerInput(p); { xad::ScopedNestedRecording<TP> n(t); y = p * p; derivative(y) = a; n.computeAdjoints(); n.incrementAdjoint(in, derivative(p)); } } };
extern "C" void h_outlive()
{
    double x0 = sx_real("x"), s = sx_real("s");
    TP t; AD x = x0; t.registerInput(x); t.newRecording();
    { Outlive c; c.in = x.getSlot(); c.xv = x0; AD r = x0 * x0; t.registerOutput(r); c.out = r.getSlot(); t.insertCallback(&c); AD w = r * 2.0; derivative(w) = s; t.computeAdjoints(); sx_eq(derivative(x), 4 * s * x0, "adjoint"); }
    sx_check(t.getNumVariables() == 1, "number of variables");
    // afterwards every new variable still has its own derivative
    t.newRecording(); AD a = x * 2.0, b = x * 3.0, c = x * 5.0, d = x * 7.0;
    sx_check(a.getSlot() != b.getSlot() && a.getSlot() != c.getSlot() && b.getSlot() != c.getSlot() && d.getSlot() != a.getSlot() && d.getSlot() != b.getSlot() && d.getSlot() != c.getSlot(), "distinct");
    derivative(a) = 1; derivative(b) = 10; derivative(c) = 100; derivative(d) = 1000; t.computeAdjoints(); sx_eq(derivative(x), 7532, "adjoint");
}
// second recording on the same tape with callbacks again (checkpoints of the first are gone)
extern "C" void h_rerecord()
{
    double x0 = sx_real("x"), c0 = sx_real("c0"), s = sx_real("s"); norder = 0;
    TP t; AD x = x0; t.registerInput(x);
    for (int r = 0; r < 2; ++r) {
        t.newRecording(); Ext e; AD y; e.fwd(x, x, y, c0, 1.0, r); AD z = y * x; derivative(z) = s; if (sx_choice("sweep", 2)) { t.computeAdjoints(); sx_eq(derivative(x), s * 2 * (c0 + 1) * x0, "adjoint"); sx_check(e.calls == 1, "once"); }
    }
    t.clearAll();
    AD q = x0; t.registerInput(q); t.newRecording(); AD p = q * c0; derivative(p) = s; t.computeAdjoints(); sx_eq(derivative(q), c0 * s, "no stale callback after clearAll");
}
// callbacks owned by the tape
struct Owned : xad::CheckpointCallback<TP> { static int alive; Owned() { ++alive; } ~Owned() { --alive; } void computeAdjoint(TP*) override {} };
int Owned::alive = 0;
extern "C" void h_owned()
{
    Owned::alive = 0; int n = sx_choice("n", 4), pops = sx_choice("pops", 4);
    Owned* cb[3];
    {
        TP t; sx_check(!t.haveCallbacks() && t.getNumCallbacks() == 0, "empty");
        for (int i = 0; i < n && i < 3; ++i) { cb[i] = new Owned; t.pushCallback(cb[i]); sx_check(t.getLastCallback() == cb[i] && (int)t.getNumCallbacks() == i + 1 && t.haveCallbacks(), "pushed"); }
        int m = n < 3 ? n : 3;
        for (int i = 0; i < pops; ++i) {
            if (m == 0) { bool th = false; try { t.popCallback(); } catch (const xad::OutOfRange&) { th = true; } sx_check(th, "pop of empty throws"); th = false; try { t.getLastCallback(); } catch (const xad::OutOfRange&) { th = true; } sx_check(th, "last of empty throws"); }
            else { --m; sx_check(t.getLastCallback() == cb[m], "last"); t.popCallback(); sx_check((int)t.getNumCallbacks() == m, "popped"); sx_check(Owned::alive == (n < 3 ? n : 3) - i + (i), "pop does not destroy"); delete cb[m]; Owned::alive++; }
        }
        if (sx_choice("clear", 2)) { t.clearAll(); }
        if (sx_choice("rec", 2)) t.newRecording();
        sx_check((int)t.getNumCallbacks() == m, "kept until destruction");
        Owned::alive = m;
    }
    sx_check(Owned::alive == 0, "owned callbacks destroyed with the tape");
}
extern "C" void h_adjoint_access()
{   // out-of-range slots are rejected
    TP t; AD x = 1.0; t.registerInput(x); t.newRecording(); AD y = x * 2.0; double s = sx_real("s"), v = sx_real("v"); derivative(y) = s;
    int sl = sx_int("slot", 0, 1000000); sx_assume(sl >= 3); bool a = false, b = false;
    try { t.incrementAdjoint(sl, v); } catch (const xad::OutOfRange&) { a = true; }
    try { t.getAndResetOutputAdjoint(sl); } catch (const xad::OutOfRange&) { b = true; }
    sx_check(a && b, "out of range"); sx_eq(derivative(y), s, "unchanged");
    t.incrementAdjoint(y.getSlot(), v); sx_eq(t.getAndResetOutputAdjoint(y.getSlot()), s + v, "increment"); sx_eq(derivative(y), 0, "reset");
}

// variables destroyed in any order inside a nested recording, while the outer recording has freed variables of its own
struct Ranges : xad::CheckpointCallback<TP> {
    slot in, out; double xv;
    void computeAdjoint(TP* t) override {
        double a = t->getAndResetOutputAdjoint(out); AD p = xv; t->registerInput(p); xad::ScopedNestedRecording<TP> n(t);
        AD y = p; { std::unique_ptr<AD> v[4]; for (int i = 0; i < 4; ++i) v[i].reset(new AD(p * (i + 1.0)));
          for (int i = 0; i < 2; ++i) { int k = sx_choice("free", 4); y += *v[k]; v[k].reset(); v[k].reset(new AD(y * 1.0)); int q = sx_choice("free2", 3); if (v[q]) { v[q].reset(); v[q].reset(new AD(y)); } } }
        AD z = y * 1.0; derivative(z) = a; n.computeAdjoints(); n.incrementAdjoint(in, value(y) / value(p)  * 0 + derivative(p)); sx_eq(derivative(p) * xv, a * value(y), "nested adjoint of a homogeneous function");
    } };
extern "C" void h_nested_ranges()
{
    double x0 = sx_real("x"), s = sx_real("s"); sx_assume(x0 != 0);
    TP t; AD x = x0; t.registerInput(x); t.newRecording(); { Ranges c; AD keep[6]; for (int i = 0; i < 6; ++i) keep[i] = x * 1.0;
    int gaps = sx_choice("gaps", 3); std::unique_ptr<AD> g[4]; for (int i = 0; i < 4; ++i) g[i].reset(new AD(x)); c.in = x.getSlot(); c.xv = x0; AD r = x0; t.registerOutput(r); if (gaps) g[1].reset(); if (gaps > 1) g[3].reset();
    c.out = r.getSlot(); t.insertCallback(&c); derivative(r) = s; t.computeAdjoints(); }
    t.newRecording(); AD a = x * 2.0, b = x * 3.0, c = x * 5.0;
    sx_check(a.getSlot() != b.getSlot() && a.getSlot() != c.getSlot() && b.getSlot() != c.getSlot() && x.getSlot() != a.getSlot(), "distinct");
    derivative(a) = 1; derivative(b) = 10; derivative(c) = 100; t.computeAdjoints(); sx_eq(derivative(x), 532, "later recording");
}
