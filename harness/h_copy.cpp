// Copying, moving, assigning, swapping and compound-assigning active variables.
#include "ad.hpp"
#include <algorithm>
#define RD(n) double n = sx_real(#n)
// ---- construction: passive variables never touch the tape
extern "C" void h_passive_no_tape()
{
    RD(a); RD(b); AD x = a, y = b; AD z = x * y + x - 3.0 * y; AD w(z), v; v = w; AD u = std::move(w); u += y; u *= 2.0; ++u; u--; double r = (a * b + a - 3 * b + b) * 2;
    sx_eq(value(u), r, "value without a tape"); sx_eq(value(v), a * b + a - 3 * b, "value of the copy"); sx_check(!u.shouldRecord() && !v.shouldRecord() && !z.shouldRecord() && u.getSlot() == AD::INVALID_SLOT, "not recorded");
}
extern "C" void h_passive_active_tape()
{   // passive variables with an active tape: nothing recorded
    RD(a); RD(b); TP t; AD q = a; t.registerInput(q); t.newRecording(); auto n0 = t.getNumStatements(); auto o0 = t.getNumOperations(); auto v0 = t.getNumVariables();
    { AD x = a, y = b; AD z = x * y + sin(x); AD w(z), v; v = w; AD u = std::move(w); u += y; u *= 2.0; u = 1.0; std::swap(u, v); std::vector<AD> s(4, z); s.push_back(x); s.erase(s.begin()); }
    sx_check(t.getNumStatements() == n0 && t.getNumOperations() == o0 && t.getNumVariables() == v0, "nothing recorded");
}
extern "C" void h_copy_independent()
{
    RD(a); RD(c); RD(s1); RD(s2); TP t; AD x = a; t.registerInput(x); t.newRecording(); AD y = x * c; AD z(y); AD k = y; sx_check(z.getSlot() != y.getSlot() && k.getSlot() != z.getSlot() && z.shouldRecord(), "own slot");
    y = y * 2.0; z = z * 3.0; k += 1.0; sx_eq(value(y), 2 * a * c, "y"); sx_eq(value(z), 3 * a * c, "z"); sx_eq(value(k), a * c + 1, "k");
    derivative(y) = s1; derivative(z) = s2; derivative(k) = 1.0; t.computeAdjoints(); sx_eq(derivative(x), c * (2 * s1 + 3 * s2 + 1), "adjoint");
}
extern "C" void h_copy_assign()
{   // all four combinations of recorded / unrecorded source and target
    RD(a); RD(b); RD(s); int m = sx_choice("m", 4); TP t; AD x = a; t.registerInput(x); t.newRecording(); AD src = b, dst = a; if (m & 1) src = x * b; if (m & 2) dst = x * 7.0;
    double sv = value(src); auto n = t.getNumStatements(); AD& r = (dst = src); sx_check(&r == &dst, "returns itself"); sx_eq(value(dst), sv, "value"); sx_check(dst.shouldRecord() == (m != 0), "recorded if either was"); sx_check(t.getNumStatements() == n + (m ? 1 : 0), "statements");
    sx_check(src.shouldRecord() == ((m & 1) != 0), "source untouched"); value(src) = 99.0; sx_eq(value(dst), sv, "independent");
    t.registerOutput(dst); derivative(dst) = s; t.computeAdjoints(); sx_eq(derivative(x), (m & 1) ? b * s : 0.0, "adjoint");
}
extern "C" void h_self_assign()
{
    RD(a); RD(s); int k = sx_choice("k", 6); TP t; AD x = a; t.registerInput(x); t.newRecording(); AD y = x * 3.0; AD& q = y; auto sl = y.getSlot();
    double d = 3, v = 3 * a;
    switch (k) { case 0: y = q; break; case 1: y = y * y; d = 18 * a; v = 9 * a * a; break; case 2: y += y; d = 6; v = 6 * a; break; case 3: y -= y; d = 0; v = 0; break; case 4: y *= y; d = 18 * a; v = 9 * a * a; break; case 5: y = +y; break; }
    sx_check(y.getSlot() == sl, "keeps its slot"); sx_eq(value(y), v, "value"); derivative(y) = s; t.computeAdjoints(); sx_eq(derivative(x), s * d, "adjoint");
}
extern "C" void h_self_div() { RD(a); RD(s); SXA(a > 0.1); TP t; AD x = a; t.registerInput(x); t.newRecording(); AD y = x * 3.0; y /= y; derivative(y) = s; t.computeAdjoints(); sx_eq(value(y), 1, "value"); sx_eq(derivative(x), 0, "adjoint"); }
extern "C" void h_self_fwd()
{
    RD(a); RD(s); int k = sx_choice("k", 7); SXA(a > 0.1); FD x = a; derivative(x) = s; FD y = x * 3.0; FD& q = y; double d = 3, v = 3 * a;
    switch (k) { case 0: y = q; break; case 1: y = y * y; d = 18 * a; v = 9 * a * a; break; case 2: y += y; d = 6; v = 6 * a; break; case 3: y -= y; d = 0; v = 0; break; case 4: y *= y; d = 18 * a; v = 9 * a * a; break; case 5: y /= y; d = 0; v = 1; break; case 6: y = sin(y) * y; d = 3 * (std::cos(3 * a) * 3 * a + std::sin(3 * a)); v = std::sin(3 * a) * 3 * a; break; }
    sx_eq(value(y), v, "value"); sx_eq(derivative(y), s * d, "derivative");
}
extern "C" void h_passive_assign()
{   // assigning a number cuts the dependence
    RD(a); RD(b); RD(s); int k = sx_choice("k", 3); TP t; AD x = a; t.registerInput(x); t.newRecording(); AD y = x * 5.0; auto sl = y.getSlot(); AD z = y * 2.0; AD num = b;
    if (k == 0) y = b; else if (k == 1) y = num; else y = num + 0.0; sx_eq(value(y), b, "value"); sx_check(y.getSlot() == sl && y.shouldRecord(), "still recorded"); AD w = y + z; derivative(w) = s; t.computeAdjoints(); sx_eq(derivative(x), 10 * s, "only the old value depends on x"); sx_eq(derivative(y), 0, "overwritten: reset");
    FD f = a; derivative(f) = s; f = b; sx_eq(value(f), b, "fwd value"); sx_eq(derivative(f), 0, "fwd derivative");
}
extern "C" void h_move()
{
    RD(a); RD(s); TP t; AD x = a; t.registerInput(x); t.newRecording(); auto n0 = t.getNumVariables(); AD y = x * 5.0; auto sl = y.getSlot(); auto ns = t.getNumStatements(); AD z(std::move(y));
    sx_check(z.getSlot() == sl && !y.shouldRecord() && t.getNumStatements() == ns, "slot moves, nothing recorded"); sx_eq(value(z), 5 * a, "value");
    y = 1.0; sx_check(!y.shouldRecord(), "moved-from is unrecorded"); y = z * 2.0; sx_check(y.shouldRecord() && y.getSlot() != sl, "can be used again"); derivative(y) = s; t.computeAdjoints(); sx_eq(derivative(x), 10 * s, "adjoint");
    { AD p = std::move(y); AD q = std::move(z); } sx_check(t.getNumVariables() == n0, "each slot given back once");
}
extern "C" void h_move_assign()
{   // all combinations of recorded / unrecorded
    RD(a); RD(b); RD(s); int m = sx_choice("m", 4); TP t; AD x = a; t.registerInput(x); t.newRecording(); auto n0 = t.getNumVariables();
    { AD src = b, dst = a; if (m & 1) src = x * b; if (m & 2) dst = x * 7.0; double sv = value(src); auto sl = src.getSlot(); auto nv = t.getNumVariables(); auto ns = t.getNumStatements();
      AD& r = (dst = std::move(src)); sx_check(&r == &dst, "returns itself"); sx_eq(value(dst), sv, "value"); sx_check(t.getNumStatements() == ns, "nothing recorded"); sx_check(t.getNumVariables() <= nv, "no variable created"); if (m & 1) sx_check(dst.getSlot() == sl, "takes the slot");
      src = 4.0; src = dst * 1.0; sx_eq(value(src), sv, "moved-from is assignable");
      AD w = dst * 1.0; if (!(m & 1)) { w = w + x * 0.0; } derivative(w) = s; t.computeAdjoints(); sx_eq(derivative(x), (m & 1) ? b * s : 0.0, "adjoint"); }
    sx_check(t.getNumVariables() == n0, "each slot given back once");
}
extern "C" void h_swap()
{
    RD(a); RD(b); RD(s); RD(r); int m = sx_choice("m", 4); TP t; AD x = a; t.registerInput(x); t.newRecording(); auto n0 = t.getNumVariables();
    { AD p = b, q = a; if (m & 1) p = x * 2.0; if (m & 2) q = x * 7.0; double pv = value(p), qv = value(q); std::swap(p, q); sx_eq(value(p), qv, "p"); sx_eq(value(q), pv, "q"); AD w = p * s + q * r + x; derivative(w) = 1.0; t.computeAdjoints(); sx_eq(derivative(x), ((m & 2) ? 7 * s : 0.0) + ((m & 1) ? 2 * r : 0.0) + 1, "adjoint"); }
    sx_check(t.getNumVariables() == n0, "each slot given back once");
}
extern "C" void h_containers()
{   // rotate, reverse, erase, insert in a vector of recorded variables
    RD(a); TP t; AD x = a; t.registerInput(x); t.newRecording(); auto n0 = t.getNumVariables(); int k = sx_choice("k", 6);
    { std::vector<AD> v; double w[8]; int n = 4; for (int i = 0; i < n; ++i) { v.push_back(x * double(i + 1)); w[i] = i + 1; }
      switch (k) { case 0: std::reverse(v.begin(), v.end()); std::reverse(w, w + n); break; case 1: std::rotate(v.begin(), v.begin() + 1, v.end()); std::rotate(w, w + 1, w + n); break; case 2: v.erase(v.begin() + 1); w[1] = w[2]; w[2] = w[3]; n = 3; break;
        case 3: v.insert(v.begin() + 1, v[3]); { double i = w[3]; for (int j = n; j > 1; --j) w[j] = w[j - 1]; w[1] = i; } n = 5; break; case 4: { std::vector<AD> c(v); v.clear(); v = c; } break; case 5: v.resize(6, v[2]); w[4] = w[5] = 3; n = 6; break; }
      sx_check((int)v.size() == n, "size"); AD r = 0.0; double d = 0, f = 1; for (int i = 0; i < n; ++i) { r += v[i] * f; d += w[i] * f; f *= 10; sx_eq(value(v[i]), a * w[i], "element"); } derivative(r) = 1.0; t.computeAdjoints(); sx_eq(derivative(x), d, "adjoint"); }
    sx_check(t.getNumVariables() == n0, "each slot given back once");
}
// ---- compound assignment, increment and decrement
template <class T> static void comp(int op, T& y, const T& o, double c, int mode)
{   // mode 0: variable, 1: double, 2: expression, 3: int 3
    switch (op * 4 + mode) {
      case 0: y += o; break; case 1: y += c; break; case 2: y += o * c; break; case 3: y += 3; break;
      case 4: y -= o; break; case 5: y -= c; break; case 6: y -= o * c; break; case 7: y -= 3; break;
      case 8: y *= o; break; case 9: y *= c; break; case 10: y *= o * c; break; case 11: y *= 3; break;
      case 12: y /= o; break; case 13: y /= c; break; case 14: y /= o * c; break; case 15: y /= 3; break; }
}
static void expect(int op, int mode, double y, double dy, double o, double dob, double c, double& v, double& d)
{
    double r = o, dr = dob; if (mode == 1) { r = c; dr = 0; } else if (mode == 2) { r = o * c; dr = dob * c; } else if (mode == 3) { r = 3; dr = 0; }
    switch (op) { case 0: v = y + r; d = dy + dr; break; case 1: v = y - r; d = dy - dr; break; case 2: v = y * r; d = dy * r + y * dr; break; default: v = y / r; d = dy / r - y * dr / (r * r); }
}
extern "C" void h_compound_rev()
{
    RD(a); RD(b); RD(c); RD(s); SXA(a > 0.1 && b > 0.1 && c > 0.1); int op = sx_choice("op", 4), mode = sx_choice("mode", 4); TP t; AD x = a; t.registerInput(x); t.newRecording(); AD y = x * b, o = x * x; auto sl = y.getSlot();
    comp(op, y, o, c, mode); double v, d; expect(op, mode, a * b, b, a * a, 2 * a, c, v, d); sx_check(y.getSlot() == sl, "keeps its slot"); sx_eq(value(y), v, "value"); derivative(y) = s; t.computeAdjoints(); sx_eq(derivative(x), s * d, "adjoint");
}
extern "C" void h_compound_fwd()
{
    RD(a); RD(b); RD(c); RD(s); SXA(a > 0.1 && b > 0.1 && c > 0.1); int op = sx_choice("op", 4), mode = sx_choice("mode", 4); FD x = a; derivative(x) = s; FD y = x * b, o = x * x; comp(op, y, o, c, mode); double v, d; expect(op, mode, a * b, b, a * a, 2 * a, c, v, d); sx_eq(value(y), v, "value"); sx_eq(derivative(y), s * d, "derivative");
}
extern "C" void h_compound_unreg_target()
{   // an unrecorded variable becomes recorded when combined with a recorded one
    RD(a); RD(b); RD(c); RD(s); SXA(a > 0.1 && b > 0.1 && c > 0.1); int op = sx_choice("op", 4), mode = sx_choice("mode", 4); TP t; AD x = a; t.registerInput(x); t.newRecording(); AD y = b, o = x * x; comp(op, y, o, c, mode); double v, d; expect(op, mode, b, 0, a * a, 2 * a, c, v, d); sx_eq(value(y), v, "value"); bool dep = mode == 0 || mode == 2; sx_check(y.shouldRecord() == dep, "recorded iff dependent"); AD w = y + x; derivative(w) = s; t.computeAdjoints(); sx_eq(derivative(x), s * (d + 1), "adjoint");
}
extern "C" void h_compound_chain()
{   // results of compound assignments are the variable itself
    RD(a); RD(c); RD(s); TP t; AD x = a; t.registerInput(x); t.newRecording(); AD y = x * c; AD& r = ((y += 1.0) *= 2.0) -= c; sx_check(&r == &y, "reference"); sx_check(&(y += x) == &y && &(y -= x) == &y && &(y *= x) == &y && &++y == &y && &--y == &y, "reference"); y = ((y += x * 2.0)); sx_eq(value(y), (2 * (a * c + 1) - c) * a + 2 * a, "value"); derivative(y) = s; t.computeAdjoints(); sx_eq(derivative(x), s * (4 * a * c + 2 - c + 2), "adjoint");
}
template <class T> static void incdec(T& y, int k, T& r) { switch (k) { case 0: r = ++y; break; case 1: r = y++; break; case 2: r = --y; break; default: r = y--; } }
extern "C" void h_incdec()
{
    RD(a); RD(c); RD(s); RD(u); int k = sx_choice("k", 4); double nv = a * c + (k < 2 ? 1 : -1), rv = k & 1 ? a * c : nv; TP t; AD x = a; t.registerInput(x); t.newRecording(); AD y = x * c, r; incdec(y, k, r); sx_eq(value(y), nv, "value"); sx_eq(value(r), rv, "result"); sx_check(r.getSlot() != y.getSlot(), "separate"); derivative(y) = s; derivative(r) = u; t.computeAdjoints(); sx_eq(derivative(x), c * (s + u), "adjoint");
    FD f = a; derivative(f) = s; FD g = f * c, h; incdec(g, k, h); sx_eq(value(g), nv, "fwd value"); sx_eq(value(h), rv, "fwd result"); sx_eq(derivative(g), s * c, "fwd"); sx_eq(derivative(h), s * c, "fwd");
}
// ---- access
extern "C" void h_accessors()
{
    RD(a); RD(s); RD(r); TP t; AD x = a; t.registerInput(x); t.newRecording(); AD y = x * 2.0; y.setDerivative(s); sx_eq(y.getDerivative(), s, "set/get"); sx_eq(derivative(y), s, "free function"); sx_eq(y.getAdjoint(), s, "adjoint"); y.setAdjoint(r); sx_eq(y.derivative(), r, "set adjoint"); sx_eq(t.getDerivative(y.getSlot()), r, "tape"); t.setDerivative(y.getSlot(), s); sx_eq(derivative(y), s, "tape set"); const AD& cy = y; sx_eq(cy.derivative(), s, "const"); sx_eq(derivative(cy), s, "const"); derivative(y) += 1.0; sx_eq(y.getDerivative(), s + 1, "by reference");
    sx_eq(y.getValue(), 2 * a, "value"); y.value() = r; sx_eq(value(y), r, "value by reference"); sx_eq(value(cy), r, "value const"); sx_check(y.getTape() == &t, "tape"); t.computeAdjoints(); sx_eq(derivative(x), 2 * (s + 1), "overwriting the value does not touch the recording");
    FD f(a, s); sx_eq(f.getValue(), a, "fwd"); sx_eq(f.getDerivative(), s, "fwd"); f.setDerivative(r); sx_eq(derivative(f), r, "fwd"); value(f) = r; sx_eq(f.value(), r, "fwd"); const FD& cf = f; sx_eq(value(cf) + derivative(cf), 2 * r, "fwd const"); double d = a; value(d) = r; sx_eq(value(d), r, "plain"); const double cd = a; sx_eq(value(cd), a, "plain const"); sx_eq(derivative(d) + derivative(cd), 0, "plain derivative");
}
extern "C" void h_autoregister()
{   // asking for the derivative of an unrecorded variable registers it as dependent on nothing
    RD(a); RD(s); TP t; AD x = a; t.registerInput(x); t.newRecording(); AD y = x * 2.0; AD z = a; const AD& cz = z; sx_eq(derivative(cz), 0, "const access: zero"); sx_check(!z.shouldRecord(), "const access does not register"); derivative(z) = 5.0; sx_check(z.shouldRecord() && z.getSlot() != y.getSlot(), "registered"); derivative(y) = s; t.computeAdjoints(); sx_eq(derivative(x), 2 * s, "adjoint"); sx_eq(value(z), a, "value kept");
}
extern "C" void h_int_ctor()
{
    int i = sx_int("i", -100000, 100000); AD x(i); FD f(i); sx_eq(value(x), i, "int"); sx_eq(value(f), i, "int fwd"); sx_eq(derivative(f), 0, "fwd zero"); AD y(3u), z(4L), w((short)5), b(true); sx_eq(value(y) + value(z) + value(w) + value(b), 13, "others"); AD d; FD e; sx_eq(value(d), 0, "default"); sx_eq(value(e) + derivative(e), 0, "default fwd"); sx_eq(value(static_cast<AD>(i)), i, "cast");
}
extern "C" void h_fwd_copies()
{
    RD(a); RD(s); RD(b); FD x(a, s); FD y(x), z; z = x; FD w(std::move(y)); FD v; v = std::move(z); x = b; sx_eq(value(w), a, "copy"); sx_eq(derivative(w), s, "copy"); sx_eq(value(v), a, "assign"); sx_eq(derivative(v), s, "assign"); FD p(1.0, 2.0); std::swap(p, w); sx_eq(value(p), a, "swap"); sx_eq(derivative(p), s, "swap"); sx_eq(value(w), 1, "swap"); sx_eq(derivative(w), 2, "swap");
    FD& r = (v = p); sx_check(&r == &v && &(v = 2.0) == &v && &(v = p * 2.0) == &v, "reference");
}
// auto expressions keep references/temporaries right
extern "C" void h_auto_expr()
{
    RD(a); RD(b); RD(s); TP t; AD x = a, y = b; t.registerInput(x); t.registerInput(y); t.newRecording(); auto e = x * y + x; auto g = e * 2.0 + sin(y); AD r = g, q = e; derivative(r) = s; derivative(q) = 1.0; t.computeAdjoints(); sx_eq(value(r), 2 * (a * b + a) + std::sin(b), "value"); sx_eq(derivative(x), (b + 1) * (2 * s + 1), "dx"); sx_eq(derivative(y), s * (2 * a + std::cos(b)) + a, "dy");
    FD u(a, s), v(b, 1.0); auto h = u * v + u; FD w = h * 2.0; sx_eq(derivative(w), 2 * ((b + 1) * s + a), "fwd");
}
extern "C" void h_registration()
{   // registering twice changes nothing; register overloads
    RD(a); RD(b); RD(s); TP t; AD x = a, y = b; t.registerInput(x); auto sl = x.getSlot(); auto nv = t.getNumVariables(); t.registerInput(x); sx_check(x.getSlot() == sl && t.getNumVariables() == nv, "idempotent"); t.registerInput(y); t.newRecording(); AD z = x * y; auto zs = z.getSlot(); auto ns = t.getNumStatements(); t.registerOutput(z); sx_check(z.getSlot() == zs && t.getNumStatements() == ns, "output already recorded: unchanged"); AD c = 3.0; t.registerOutput(c); sx_check(c.shouldRecord(), "independent output is registered"); derivative(z) = s; derivative(c) = 7.0; t.computeAdjoints(); sx_eq(derivative(x), s * b, "dx"); sx_eq(derivative(y), s * a, "dy");
}
extern "C" void h_register_ranges()
{
    RD(a); RD(b); RD(s); int k = sx_choice("k", 2); TP t; std::vector<AD> v; v.push_back(AD(a)); v.push_back(AD(b)); v.push_back(AD(2.0)); std::vector<AD> o(2); if (k) t.registerInputs(v); else t.registerInputs(v.begin(), v.end()); t.newRecording(); sx_check(v[0].shouldRecord() && v[1].shouldRecord() && v[2].shouldRecord() && v[0].getSlot() != v[1].getSlot() && v[1].getSlot() != v[2].getSlot(), "all registered"); o[0] = v[0] * v[1]; o[1] = 1.0; if (k) t.registerOutputs(o); else t.registerOutputs(o.begin(), o.end()); sx_check(o[1].shouldRecord(), "outputs registered"); derivative(o[0]) = s; t.computeAdjoints(); sx_eq(derivative(v[0]), s * b, "d0"); sx_eq(derivative(v[1]), s * a, "d1"); sx_eq(derivative(v[2]), 0, "d2");
}
