// Active types in place of double in standard-library code.
#include "ad.hpp"
#include <algorithm>
#include <array>
#include <deque>
#include <functional>
#include <limits>
#include <list>
#include <numeric>
#include <type_traits>
#define RD(n) double n = sx_real(#n)
// ---- algorithms on containers: values and derivatives as with doubles; f: container of 3 -> number
static const double W[3] = {1.5, -2.0, 3.25};
template <class C> static auto algo(int k, C& v) -> typename C::value_type
{
    typedef typename C::value_type T;
    switch (k) {
      case 0: std::sort(v.begin(), v.end()); break;
      case 1: std::reverse(v.begin(), v.end()); break;
      case 2: std::rotate(v.begin(), v.begin() + 1, v.end()); break;
      case 3: std::swap(v[0], v[2]); break;
      case 4: std::iter_swap(v.begin(), v.begin() + 1); break;
      case 5: std::partial_sum(v.begin(), v.end(), v.begin()); break;
      case 6: std::transform(v.begin(), v.end(), v.begin(), [](const T& e) -> T { return e * e; }); break;
      case 7: return *std::max_element(v.begin(), v.end());
      case 8: return *std::min_element(v.begin(), v.end()) * 2.0;
      case 9: return std::accumulate(v.begin(), v.end(), T(0.0));
      case 10: return std::accumulate(v.begin(), v.end(), T(1.0), std::multiplies<T>());
      case 11: return std::inner_product(v.begin(), v.end(), v.begin(), T(0.0));
      case 12: std::fill(v.begin() + 1, v.end(), v[0]); break;
      case 13: std::nth_element(v.begin(), v.begin() + 1, v.end()); return v[1];
      case 14: std::adjacent_difference(v.begin(), v.end(), v.begin()); break;
      case 15: std::iota(v.begin(), v.end(), v[2]); break;
      case 16: std::replace_if(v.begin(), v.end(), [](const T& e) { return e < 0; }, T(7.0)); break;
      case 17: std::copy_backward(v.begin(), v.begin() + 2, v.end()); break;
      case 18: v[0] = std::max(v[0], v[1]); v[1] = std::min(v[1], v[2]); break;
      default: std::stable_partition(v.begin(), v.end(), [](const T& e) { return e > 0; }); break;
    }
    T r = 0.0; int n = 0; for (auto& e : v) r += e * W[n++ % 3]; return r;
}
enum { NALGO = 19 };
template <template <class...> class C> static void algos(int mode)
{
    RD(x); RD(y); RD(z); RD(s); SXA(x != y && y != z && x != z && x != 0 && y != 0 && z != 0); int k = sx_choice("algorithm", NALGO);
    // reference: doubles for the value, forward differentiation of the double program through its own dual numbers below
    struct D { double v, d[3]; D(double a = 0.0) : v(a), d{0, 0, 0} {} bool operator<(const D& o) const { return v < o.v; } bool operator>(const D& o) const { return v > o.v; }
        D operator+(const D& o) const { D r(v + o.v); for (int i = 0; i < 3; ++i) r.d[i] = d[i] + o.d[i]; return r; } D operator-(const D& o) const { D r(v - o.v); for (int i = 0; i < 3; ++i) r.d[i] = d[i] - o.d[i]; return r; }
        D operator*(const D& o) const { D r(v * o.v); for (int i = 0; i < 3; ++i) r.d[i] = d[i] * o.v + v * o.d[i]; return r; } D& operator+=(const D& o) { return *this = *this + o; } D& operator++() { v += 1; return *this; } };
    C<D> e; e.push_back(D(x)); e.push_back(D(y)); e.push_back(D(z)); { int n = 0; for (auto& q : e) q.d[n++] = 1; }
    D r = algo(k, e);
    if (mode == 0) {
        TP t; C<AD> v; v.push_back(x); v.push_back(y); v.push_back(z); t.registerInputs(v.begin(), v.end()); C<AD> in; std::vector<TP::slot_type> sl; for (auto& q : v) sl.push_back(q.getSlot()); t.newRecording();
        C<AD> c = v; AD w = algo(k, c); t.registerOutput(w); derivative(w) = s; t.computeAdjoints();
        sx_eq(value(w), r.v, "value"); int n = 0; for (auto& q : v) { sx_eq(derivative(q), r.d[n] * s, "derivative"); ++n; }
    } else {
        for (int dir = 0; dir < 3; ++dir) { C<FD> v; v.push_back(FD(x, dir == 0 ? s : 0)); v.push_back(FD(y, dir == 1 ? s : 0)); v.push_back(FD(z, dir == 2 ? s : 0)); FD w = algo(k, v); sx_eq(value(w), r.v, "value"); sx_eq(derivative(w), r.d[dir] * s, "derivative"); }
    }
}
extern "C" void h_std_vector_adj() { algos<std::vector>(0); }
extern "C" void h_std_vector_fwd() { algos<std::vector>(1); }
extern "C" void h_std_deque_adj() { algos<std::deque>(0); }
// containers: insertion and removal keep the dependence of every element
extern "C" void h_std_vector_ops()
{
    RD(x); RD(y); RD(s); int k = sx_choice("op", 9); TP t; AD a = x, b = y; t.registerInput(a); t.registerInput(b); t.newRecording();
    std::vector<AD> v; v.push_back(a); v.push_back(b); v.push_back(a * b); double da = 0, db = 0;   // weights 1, 2, 3
    switch (k) {
      case 0: v.insert(v.begin(), b * 4.0); da = 2 + 4 * y; db = 4 + 3 + 4 * x; break;   // 4b, a, b, ab
      case 1: v.erase(v.begin()); da = 2 * y; db = 1 + 2 * x; break;
      case 2: v.erase(v.begin() + 1); da = 1 + 2 * y; db = 2 * x; break;
      case 3: v.reserve(64); v.push_back(v[0]); da = 1 + 3 * y + 4; db = 2 + 3 * x; break;
      case 4: v.resize(2); v.shrink_to_fit(); da = 1; db = 2; break;
      case 5: v.resize(4, a); da = 1 + 3 * y + 4; db = 2 + 3 * x; break;
      case 6: { std::vector<AD> w(2, b); v.swap(w); da = 0; db = 3; break; }
      case 7: { std::vector<AD> w = v; v.assign(w.begin() + 1, w.end()); w.clear(); da = 2 * y; db = 1 + 2 * x; break; }
      default: v.emplace(v.begin() + 1, a - b); da = 1 + 2 + 4 * y; db = -2 + 3 + 4 * x; break;   // a, a-b, b, ab
    }
    AD r = 0.0; for (std::size_t n = 0; n < v.size(); ++n) r += v[n] * double(n + 1);
    t.registerOutput(r); derivative(r) = s; t.computeAdjoints(); sx_eq(derivative(a), da * s, "derivative"); sx_eq(derivative(b), db * s, "derivative");
    sx_check(t.getNumVariables() == 3 + v.size(), "number of variables");
}
extern "C" void h_std_list_pair()
{
    RD(x); RD(y); RD(s); TP t; AD a = x, b = y; t.registerInput(a); t.registerInput(b); t.newRecording(); int k = sx_choice("op", 5); AD r;
    std::list<AD> l; l.push_back(a * 2.0); l.push_front(b); double da, db;
    switch (k) { case 0: r = l.front() * 3.0 + l.back(); da = 2; db = 3; break; case 1: l.pop_front(); r = l.front(); da = 2; db = 0; break; case 2: l.insert(++l.begin(), a * b); r = *++l.begin(); da = y; db = x; break;
      case 3: { std::pair<AD, AD> p(a, b), q; q = std::make_pair(p.second, p.first); std::swap(p, q); r = p.first - q.first * 2.0; da = -2; db = 1; break; }
      default: { std::array<AD, 2> p{{a, b}}, q = p; p[0] = q[1] * q[0]; q.swap(p); r = q[0] + p[0] * 5.0; da = y + 5; db = x; } }
    t.registerOutput(r); derivative(r) = s; t.computeAdjoints(); sx_eq(derivative(a), da * s, "derivative"); sx_eq(derivative(b), db * s, "derivative");
}
extern "C" void h_std_function()
{
    RD(x); RD(s); TP t; AD a = x; t.registerInput(a); t.newRecording(); std::function<AD(const AD&)> f = [](const AD& q) -> AD { return q * q; }, g = [f, a](const AD& q) -> AD { return f(q) * a; }; AD r = g(f(a)); f = nullptr; g = nullptr; t.registerOutput(r); derivative(r) = s; t.computeAdjoints(); sx_eq(value(r), x * x * x * x * x, "value"); sx_eq(derivative(a), 5 * x * x * x * x * s, "derivative");
}
// ---- hash
template <class T> static std::size_t hs(const T& a) { return std::hash<T>()(a); }
extern "C" void h_hash_ieee() { RD(x); RD(y); SXA(x == x); AD a = x; FD c(x, y); std::size_t e = std::hash<double>()(x); int k = sx_choice("kind", 6); switch (k) { case 0: sx_check(hs(a) == e, "hash"); break; case 1: sx_check(hs(c) == e, "hash"); break; case 2: { SXA(x == y); AD b = y; sx_check(a == b && hs(a) == hs(b), "equal keys have equal hashes"); break; } case 3: { TP t; t.registerInput(a); t.newRecording(); auto n = t.getPosition(); sx_check(hs(a) == e && t.getPosition() == n, "hash of a recorded variable"); break; } case 4: { FAD h = x; FFD g = x; sx_check(hs(h) == e && hs(g) == e, "hash of nested types"); break; } default: { FD d(x, 1.0); sx_check(hs(c) == hs(d), "derivative is not part of the key"); } } }
extern "C" void h_hashf_ieee() { float x = sx_realf("x"); SXA(x == x); ADf a = x; FDf c(x, 2.0f); std::size_t e = std::hash<float>()(x); sx_check(hs(a) == e, "hash"); sx_check(hs(c) == e, "hash"); }
// ---- conversions
template <class I, class E> static bool to(const E& e, double x) { return static_cast<I>(e) == static_cast<I>(x); }
template <class E> static void conv(const E& e, double x)
{
    int k = sx_choice("type", 10);
    switch (k) { case 0: SXA(x > -1e9 && x < 1e9); sx_check(to<int>(e, x), "int"); break; case 1: SXA(x > -0.5 && x < 4e9); sx_check(to<unsigned>(e, x), "unsigned"); break; case 2: SXA(x > -9e18 && x < 9e18); sx_check(to<long>(e, x), "long"); break; case 3: SXA(x > -0.5 && x < 1.8e19); sx_check(to<unsigned long>(e, x), "unsigned long"); break; case 4: SXA(x > -9e18 && x < 9e18); sx_check(to<long long>(e, x), "long long"); break;
      case 5: SXA(x > -30000 && x < 30000); sx_check(to<short>(e, x), "short"); break; case 6: SXA(x > -0.5 && x < 65535); sx_check(to<unsigned short>(e, x), "unsigned short"); break; case 7: SXA(x > -127 && x < 127); sx_check(to<char>(e, x) && to<signed char>(e, x), "char"); break; case 8: SXA(x > -0.5 && x < 255); sx_check(to<unsigned char>(e, x), "unsigned char"); break; default: sx_check(static_cast<bool>(e) == static_cast<bool>(x), "bool"); sx_check((!e) == (!x), "not"); }
}
extern "C" void h_conv_ieee() { RD(x); int k = sx_choice("kind", 4); AD a = x; FD c = x; if (k == 0) conv(a, x); else if (k == 1) conv(c, x); else if (k == 2) conv(a * 2.0, x * 2.0); else conv(-c, -x); }
extern "C" void h_fromint_ieee() { int n = sx_int("n", -2147483647, 2147483647); long m = sx_long("m", -4611686018427387904L, 4611686018427387904L); int k = sx_choice("kind", 6); switch (k) { case 0: sx_same(value(AD(n)), (double)n, "int"); break; case 1: sx_same(value(FD(n)), (double)n, "int"); break; case 2: sx_same(value(AD(m)), (double)m, "long"); break; case 3: { AD a; a = m; sx_same(value(a), (double)m, "assigned"); break; } case 4: { FD c(1.0, 2.0); c = n; sx_same(value(c), (double)n, "assigned"); sx_same(derivative(c), 0.0, "derivative"); break; } default: { AD a = 1.5; a += n; a *= 2; sx_same(value(a), (1.5 + n) * 2, "compound"); } } }
extern "C" void h_round_ieee() { RD(x); SXA(x > -9e18 && x < 9e18); AD a = x; FD c = x; int k = sx_choice("fn", 4); switch (k) { case 0: sx_check(std::lround(a) == std::lround(x) && std::lround(c) == std::lround(x), "lround"); break; case 1: sx_check(std::llround(a) == std::llround(x) && std::llround(-c) == std::llround(-x), "llround"); break; case 2: sx_check(std::ilogb(a) == std::ilogb(x) && std::ilogb(c * 2.0) == std::ilogb(x * 2.0), "ilogb"); break; default: sx_check(std::lround(-a) == std::lround(-x), "lround"); } }
// ---- limits and traits
template <class T, class R> static void limits()
{
    typedef std::numeric_limits<T> L; typedef std::numeric_limits<R> M;
    sx_check(L::is_specialized && L::is_signed == M::is_signed && L::is_integer == M::is_integer && L::is_exact == M::is_exact && L::has_infinity == M::has_infinity && L::has_quiet_NaN == M::has_quiet_NaN && L::is_iec559 == M::is_iec559 && L::is_bounded == M::is_bounded && L::digits == M::digits && L::digits10 == M::digits10 && L::max_digits10 == M::max_digits10 && L::radix == M::radix && L::min_exponent == M::min_exponent && L::max_exponent == M::max_exponent && L::round_style == M::round_style && L::traps == M::traps, "constants");
    T a = (L::max)(), b = (L::min)(), c = L::lowest(), d = L::epsilon(), e = L::infinity(), f = L::denorm_min(), g = L::round_error(), h = L::quiet_NaN();
    sx_check(a == (M::max)() && b == (M::min)() && c == M::lowest() && d == M::epsilon() && e == M::infinity() && f == M::denorm_min() && g == M::round_error() && std::isnan(h) && std::isinf(e), "values");
    sx_check(std::is_floating_point<T>::value && std::is_arithmetic<T>::value && std::is_signed<T>::value && !std::is_pod<T>::value && !std::is_fundamental<T>::value && !std::is_scalar<T>::value && std::is_compound<T>::value, "type traits");
}
extern "C" void h_limits_ieee() { limits<AD, double>(); limits<FD, double>(); limits<ADf, float>(); limits<FDf, float>(); limits<FAD, double>(); limits<FFD, double>(); limits<AFD, double>(); limits<AAD, double>(); }
// ---- value() and derivative() of anything
extern "C" void h_global_fun()
{
    RD(x); RD(s); double p = x; const double cp = x; int i = 3; xad::value(p) = s; sx_eq(p, s, "value of a passive variable is assignable"); sx_eq(xad::value(cp), x, "value of a passive constant"); sx_check(xad::value(i) == 3, "value of an int"); sx_check(xad::derivative(cp) == 0.0 && xad::derivative(p) == 0.0 && xad::derivative(i) == 0, "derivative of a passive value");
    FD a(x, s); const FD b = a; value(a) = 4.0; derivative(a) = 5.0; sx_check(value(a) == 4.0 && derivative(a) == 5.0 && a.getValue() == 4.0 && a.getDerivative() == 5.0 && a.value() == 4.0 && a.derivative() == 5.0, "assigned"); a.setDerivative(6.0); sx_check(derivative(a) == 6.0, "setDerivative"); sx_eq(value(b), x, "const value"); sx_eq(derivative(b), s, "const derivative"); sx_eq(value(b * b), x * x, "value of an expression"); sx_eq(derivative(b * b), 2 * x * s, "derivative of an expression");
    TP t; AD c = x; const AD k = x; sx_check(derivative(k) == 0.0 && !k.shouldRecord(), "derivative of an unregistered constant"); t.registerInput(c); t.newRecording(); AD d = c * c; auto pos = t.getPosition(); value(d) = x; sx_check(t.getPosition() == pos, "assigning the value records nothing"); t.registerOutput(d); d.setAdjoint(s); sx_eq(d.getAdjoint(), s, "adjoint"); sx_eq(d.getDerivative(), s, "derivative"); sx_eq(t.getDerivative(d.getSlot()), s, "by slot"); d.setDerivative(2 * s); t.computeAdjoints(); sx_eq(c.getDerivative(), 4 * x * s, "derivative"); sx_check(c.getTape() == &t && c.shouldRecord(), "tape");
    std::complex<AD> z(x, s); sx_eq(value(z.real()), x, "complex"); 
}
extern "C" void h_notape() { RD(x); AD a = x; const AD c = x; int th = 0; try { derivative(a) = 1.0; } catch (const xad::NoTapeException&) { ++th; } try { (void)derivative(c); } catch (const xad::Exception&) { ++th; } try { a.setAdjoint(1.0); } catch (const xad::NoTapeException&) { ++th; } try { (void)c.getDerivative(); } catch (const std::runtime_error&) { ++th; } sx_check(th == 4, "NoTapeException"); sx_check(!a.shouldRecord(), "still passive"); AD b = a * c + 2.0; sx_eq(value(b), x * x + 2, "value without a tape"); }
// ---- interface types
template <class M, class A, class T, class V> static bool iface() { return std::is_same<typename M::active_type, A>::value && std::is_same<typename M::tape_type, T>::value && std::is_same<typename M::value_type, V>::value && std::is_same<typename M::passive_type, V>::value; }
extern "C" void h_interface_ieee() { sx_check(iface<xad::adj<double>, AD, TP, double>() && iface<xad::fwd<double>, FD, void, double>() && iface<xad::fwd_adj<double>, FAD, FTP, double>() && iface<xad::fwd_fwd<double>, FFD, void, double>() && iface<xad::adj_fwd<double>, AFD, TP, double>() && iface<xad::adj<float>, ADf, TPf, float>(), "types"); typedef xad::adj_adj<double> M; sx_check(std::is_same<M::active_type, AAD>::value && std::is_same<M::inner_tape_type, TP>::value && std::is_same<M::outer_tape_type, ATP>::value, "types"); }
