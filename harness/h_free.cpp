// The set of free slots (XAD_TAPE_REUSE_SLOTS): exact, re-used before the tape grows; and the range type behind it.
#include "ad.hpp"
#include <XAD/ReusableRange.hpp>
typedef xad::ReusableRange<unsigned> RR;
// after freeing arbitrary slots the reported free set has the right size and is used up before new slots are made
static void freeset(int n0, int nf)
{
    TP t; for (int i = 0; i < n0; ++i) t.registerVariable();
    int f[6]; for (int k = 0; k < nf; ++k) { f[k] = sx_int("free", 0, n0 - 1); for (int i = 0; i < k; ++i) sx_assume(f[i] != f[k]); t.unregisterVariable(f[k]); }
    // expected: trailing free slots are given back to the end, the others form maximal runs
    int fr[9], cnt = 0, runs = 0, trail = 1, end = n0;
    for (int s = 0; s < n0; ++s) { int q = 0; for (int k = 0; k < nf; ++k) q |= f[k] == s; fr[s] = q; }
    for (int s = n0 - 1; s >= 0; --s) { trail &= fr[s]; end -= trail; int inr = fr[s] & !trail; cnt += inr; int nextfree = s + 1 < n0 ? fr[s + 1] : 0; runs += inr & !nextfree; }
    sx_check((int)t.getNumReusableSlots() == cnt, "number of free slots");
    sx_check((int)t.getNumReusableSlotSections() == runs, "free slots form maximal sections");
    sx_check((int)t.getNumVariables() == n0 - nf, "number of variables");
    unsigned r[6];
    for (int k = 0; k < nf; ++k) { r[k] = t.registerVariable(); sx_check(r[k] < (unsigned)n0, "freed slots are used before the tape grows"); int isf = 0; for (int i = 0; i < nf; ++i) isf |= (int)r[k] == f[i]; sx_check(isf, "a freed slot"); for (int i = 0; i < k; ++i) sx_check(r[i] != r[k], "handed out once"); }
    sx_check(t.getNumReusableSlots() == 0 && t.getNumReusableSlotSections() == 0, "none left");
    sx_check(t.registerVariable() == (unsigned)n0, "then the tape grows");
}
#define FS(N, F) extern "C" void h_freeset_##N##_##F() { freeset(N, F); }
FS(2, 1) FS(3, 2) FS(3, 3) FS(5, 1) FS(5, 2) FS(5, 3) FS(6, 3) FS(6, 4) FS(5, 4)
extern "C" void h_freeset_7_5_T() { freeset(7, 5); }
static void mixed(int n0)
{   // free, free, register, free, free: the count stays exact
    TP t; for (int i = 0; i < n0; ++i) t.registerVariable();
    int f[4]; for (int k = 0; k < 2; ++k) { f[k] = sx_int("free", 0, n0 - 1); for (int i = 0; i < k; ++i) sx_assume(f[i] != f[k]); t.unregisterVariable(f[k]); }
    int r = t.registerVariable();
    for (int k = 2; k < 4; ++k) { f[k] = sx_int("free", 0, n0 - 1); for (int i = 0; i < k; ++i) sx_assume(f[i] != f[k]); t.unregisterVariable(f[k]); }
    // free set = f \ {r}
    int cnt = 0, trail = 1, runs = 0, prev = 0;
    for (int s = n0; s >= 0; --s) { int q = s == n0 && r != n0 ? 1 : 0; for (int k = 0; k < 4; ++k) q |= f[k] == s; q &= r != s; trail &= q; int in = q & !trail; cnt += in; runs += in & !prev; prev = q; }
    sx_check((int)t.getNumReusableSlots() == cnt, "number of free slots"); sx_check((int)t.getNumReusableSlotSections() == runs, "maximal sections");
    sx_check((int)t.getNumVariables() == n0 - 3, "number of variables");
    int n = n0 - 3; unsigned q[8]; for (int k = 0; k < 4; ++k) { q[k] = t.registerVariable(); sx_check((int)q[k] != r, "not the live one"); for (int i = 0; i < k; ++i) sx_check(q[i] != q[k], "handed out once"); int isf = (int)q[k] >= n0; for (int i = 0; i < 4; ++i) isf |= (int)q[k] == f[i]; sx_check(isf, "was free"); }
}
extern "C" void h_mixed5() { mixed(5); }
extern "C" void h_mixed6() { mixed(6); }
extern "C" void h_mixed7_T() { mixed(7); }
extern "C" void h_reset_trims()
{   // rolling back keeps the free set consistent
    TP t; AD x = 1.0; t.registerInput(x); t.newRecording(); auto pos = t.getPosition();
    unsigned s[5]; for (auto& q : s) q = t.registerVariable(); for (auto q : s) t.pushLhs(q);
    int a = sx_int("a", 1, 5), b = sx_int("b", 1, 5); sx_assume(a != b); t.unregisterVariable(a); t.unregisterVariable(b);
    t.resetTo(pos);
    unsigned r = t.registerVariable(), q = t.registerVariable(), p = t.registerVariable();
    int ok = 1; for (int i = 1; i <= 5; ++i) { int fr = (i == a) | (i == b); ok &= fr | ((int)r != i && (int)q != i && (int)p != i); }
    sx_check(ok, "live slots not handed out"); sx_check(r != q && r != p && p != q && r != 0 && q != 0 && p != 0, "distinct");
}
// the range type over arbitrary 32-bit bounds
extern "C" void h_range_insert() { unsigned a = (unsigned)sx_long("a", 0, 4294967294L), b = (unsigned)sx_long("b", 0, 4294967295L); RR r(a, b); sx_check(r.isClosed() == (a >= b), "closed"); sx_assume(a < b); sx_check(r.size() == b - a && r.first() == a && r.second() == b, "bounds"); unsigned x = r.insert(); sx_check(x == a && r.first() == a + 1 && r.second() == b && !r.isInRange(x), "insert takes the first"); }
extern "C" void h_range_inrange() { unsigned a = (unsigned)sx_long("a", 0, 4294967295L), b = (unsigned)sx_long("b", 0, 4294967295L), x = (unsigned)sx_long("x", 0, 4294967295L); sx_check(RR(a, b).isInRange(x) == (x >= a && x < b), "membership"); }
extern "C" void h_range_expand()
{
    unsigned a = (unsigned)sx_long("a", 1, 4294967294L), b = (unsigned)sx_long("b", 1, 4294967294L), x = (unsigned)sx_long("x", 0, 4294967294L), y = (unsigned)sx_long("y", 0, 4294967294L); sx_assume(a < b && !(x >= a && x < b));
    RR r(a, b); auto e = r.expand(x);
    sx_check((e == RR::START) == (x + 1 == a) && (e == RR::END) == (x == b) && (e == RR::FAILED) == (x + 1 != a && x != b), "result");
    sx_check(r.isInRange(y) == ((y >= a && y < b) || (e != RR::FAILED && y == x)), "exactly one element added");
}
extern "C" void h_range_join()
{
    unsigned a = (unsigned)sx_long("a", 0, 4294967294L), b = (unsigned)sx_long("b", 0, 4294967294L), c = (unsigned)sx_long("c", 0, 4294967294L), d = (unsigned)sx_long("d", 0, 4294967294L), y = (unsigned)sx_long("y", 0, 4294967294L); sx_assume(a < b && c < d && (b <= c || d <= a));
    RR p(a, b), q(c, d); sx_check(p.isJoinableEnd(q) == (b == c) && p.isJoinableStart(q) == (d == a), "joinable");
    sx_check(p.isJoinable(q) == (b == c ? RR::END : d == a ? RR::START : RR::FAILED), "joinable kind");
    bool in = p.isInRange(y) || q.isInRange(y);
    if (b == c) { p.joinEnd(q); sx_check(p.isInRange(y) == in, "union"); } else if (d == a) { p.joinStart(q); sx_check(p.isInRange(y) == in, "union"); }
    sx_check((RR(a, b) < RR(c, d)) == (a < c) && (RR(a, b) == RR(c, d)) == (a == c && b == d), "order");
}
