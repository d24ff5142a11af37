// The recording storage: a chunked container behaves like a plain sequence, for every chunk boundary.
#include "ad.hpp"
#include <XAD/ChunkContainer.hpp>
#include <memory>
struct Cnt { static long live; static long bad; double v; Cnt* self; Cnt(double d = 0) : v(d), self(this) { ++live; } Cnt(const Cnt& o) : v(o.v), self(this) { if (o.self != &o) ++bad; ++live; } Cnt& operator=(const Cnt& o) { if (self != this || o.self != &o) ++bad; v = o.v; return *this; } ~Cnt() { if (self != this) ++bad; self = nullptr; --live; } };
long Cnt::live = 0; long Cnt::bad = 0;
static double val(double d) { return d; } static double val(const Cnt& c) { return c.v; }
template <class T> struct IsCnt { static const bool v = false; }; template <> struct IsCnt<Cnt> { static const bool v = true; };
template <class T, int CS> struct H {
    typedef xad::ChunkContainer<T, CS> C; C c; double ref[64]; int n; H() : n(0) {}
    void check(const char* l) {
        sx_check((int)c.size() == n, l); sx_check(c.empty() == (n == 0), l);
        for (int i = 0; i < n; ++i) sx_eq(val(c[i]), ref[i], l);
        const C& cc = c; for (int i = 0; i < n; ++i) sx_eq(val(cc[i]), ref[i], l);
        if (IsCnt<T>::v) sx_check(Cnt::live == n && Cnt::bad == 0, "elements constructed and destroyed exactly once");
    }
    void push() { double d = sx_real("d"); T t(d); c.push_back(t); ref[n++] = d; }
    void emplace() { double d = sx_real("d"); c.emplace_back(d); ref[n++] = d; }
    void append(int k) { double d[8]; for (int i = 0; i < k; ++i) { d[i] = sx_real("d"); ref[n + i] = d[i]; } c.append(d, d + k); n += k; }
    void resize(int s) { double d = sx_real("d"); { T t(d); c.resize(s, t); } for (int i = n; i < s; ++i) ref[i] = d; n = s; }
    void resize0(int s) { c.resize(s); for (int i = n; i < s; ++i) ref[i] = 0; n = s; }
    void assign(int s) { double d = sx_real("d"); { T t(d); c.assign(s, t); } for (int i = 0; i < s; ++i) ref[i] = d; n = s; }
    void clear() { c.clear(); n = 0; }
    void iterate(int from) { if (from >= n) return; auto it = c.iterator_at(from); for (int i = from; i < n; ++i) { sx_eq(val(*it), ref[i], "iteration"); if (i + 1 < n) { if (i & 1) ++it; else it++; } } }
};
template <class T, int CS> static void fill(H<T, CS>& h, int n) { for (int i = 0; i < n; ++i) if (i % 3 == 1) h.emplace(); else h.push(); }
template <class T, int CS> static void push_n() { Cnt::live = Cnt::bad = 0; { H<T, CS> h; int n = sx_choice("n", 3 * CS + 2); for (int i = 0; i < n; ++i) { if (i % 3 == 1) h.emplace(); else h.push(); } h.check("pushed"); h.iterate(sx_choice("from", 4)); } sx_check(Cnt::live == 0, "all destroyed"); }
template <class T, int CS> static void append_n() { Cnt::live = Cnt::bad = 0; { H<T, CS> h; fill(h, sx_choice("pre", 2 * CS + 1)); h.append(sx_choice("k", CS + 1)); h.append(sx_choice("k2", CS + 1)); h.push(); h.check("appended"); } sx_check(Cnt::live == 0, "all destroyed"); }
template <class T, int CS> static void shrink() { Cnt::live = Cnt::bad = 0; { H<T, CS> h; int n = sx_choice("n", 3 * CS + 1); fill(h, n); int s = sx_choice("s", 3 * CS + 1); sx_assume(s <= n); h.resize0(s); h.check("resized down"); int k = sx_choice("push", 3); for (int i = 0; i < k; ++i) h.push(); h.check("pushed after shrinking"); h.append(CS); h.check("appended after shrinking"); } sx_check(Cnt::live == 0, "all destroyed"); }
template <class T, int CS> static void grow() { Cnt::live = Cnt::bad = 0; { H<T, CS> h; int n = sx_choice("n", 2 * CS + 1); fill(h, n); int s = sx_choice("s", 3 * CS + 2); sx_assume(s >= n); h.resize(s); h.check("resized up"); h.push(); h.check("pushed after growing"); } sx_check(Cnt::live == 0, "all destroyed"); }
template <class T, int CS> static void assign_n() { Cnt::live = Cnt::bad = 0; { H<T, CS> h; fill(h, sx_choice("n", 2 * CS + 2)); h.assign(sx_choice("s", 3 * CS + 1)); h.check("assigned"); h.push(); h.check("pushed after assign"); } sx_check(Cnt::live == 0, "all destroyed"); }
template <class T, int CS> static void clear_n() { Cnt::live = Cnt::bad = 0; { H<T, CS> h; fill(h, sx_choice("n", 2 * CS + 2)); h.clear(); h.check("cleared"); fill(h, sx_choice("m", 2 * CS + 2)); h.check("refilled"); h.clear(); h.clear(); h.check("cleared twice"); } sx_check(Cnt::live == 0, "all destroyed"); }
template <class T, int CS> static void reserve_n() { Cnt::live = Cnt::bad = 0; { H<T, CS> h; fill(h, sx_choice("n", CS + 2)); int r = sx_choice("r", 3 * CS + 2); h.c.reserve(r); sx_check((int)h.c.capacity() >= r, "capacity"); h.check("reserved"); fill(h, sx_choice("m", 2 * CS + 1)); h.check("filled"); } sx_check(Cnt::live == 0, "all destroyed"); }
template <class T, int CS> static void move_n()
{
    Cnt::live = Cnt::bad = 0; { H<T, CS> h; int n = sx_choice("n", 2 * CS + 2); fill(h, n); typename H<T, CS>::C d(std::move(h.c)); sx_check((int)d.size() == n, "moved"); for (int i = 0; i < n; ++i) sx_eq(val(d[i]), h.ref[i], "moved"); d.push_back(T(1.5)); sx_eq(val(d[n]), 1.5, "usable after move");
        typename H<T, CS>::C e; int k = sx_choice("k", CS + 1); for (int i = 0; i < k; ++i) e.push_back(T(2.5)); e = std::move(d); sx_check((int)e.size() == n + 1, "move-assigned"); for (int i = 0; i < n; ++i) sx_eq(val(e[i]), h.ref[i], "move-assigned"); } sx_check(Cnt::live == 0 && Cnt::bad == 0, "all destroyed");
}
template <class T, int CS> static void extend_n()
{   // uninitialized_extend makes room for i elements, which are then constructed in place
    H<T, CS> h; fill(h, sx_choice("n", 2 * CS + 1)); int k = sx_choice("k", 2 * CS + 1); h.c.uninitialized_extend(k); sx_check((int)h.c.size() == h.n + k, "size");
    for (int i = 0; i < k; ++i) { double d = sx_real("d"); h.c[h.n] = T(d); h.ref[h.n++] = d; } h.push(); h.check("extended");
}
template <class T, int CS> static void chunks()
{   // chunk iteration sees all elements in order
    H<T, CS> h; int n = sx_choice("n", 3 * CS + 1); fill(h, n); int i = 0; for (auto it = h.c.chunk_begin(); it != h.c.chunk_end() && i < n; ++it) for (int j = 0; j < CS && i < n; ++j, ++i) sx_eq(val((*it)[j]), h.ref[i], "chunk"); sx_check(i == n, "all elements");
    sx_check((int)(h.c.chunk_rend() - h.c.chunk_rbegin()) == (int)(h.c.chunk_end() - h.c.chunk_begin()), "reverse");
}
template <class T, int CS, int K> static void mix()
{
    Cnt::live = Cnt::bad = 0; { H<T, CS> h; fill(h, CS);
        for (int k = 0; k < K; ++k) switch (sx_choice("op", 6)) { case 0: h.push(); break; case 1: h.append(CS); break; case 2: h.resize0(h.n / 2); break; case 3: h.clear(); break; case 4: h.resize(h.n + 1); break; case 5: h.append(CS - 1); break; }
        h.check("after the sequence"); } sx_check(Cnt::live == 0, "all destroyed");
}
#define I(NAME) extern "C" void h_##NAME##_d2() { NAME<double, 2>(); } extern "C" void h_##NAME##_d3() { NAME<double, 3>(); } extern "C" void h_##NAME##_c3() { NAME<Cnt, 3>(); } extern "C" void h_##NAME##_c1() { NAME<Cnt, 1>(); }
I(push_n) I(append_n) I(shrink) I(grow) I(assign_n) I(clear_n) I(reserve_n) I(move_n) I(chunks)
extern "C" void h_extend_n_d2() { extend_n<double, 2>(); } extern "C" void h_extend_n_d3() { extend_n<double, 3>(); }
extern "C" void h_mix_d2() { mix<double, 2, 4>(); } extern "C" void h_mix_c2() { mix<Cnt, 2, 3>(); } extern "C" void h_mix_d3_T() { mix<double, 3, 5>(); }
template <int CS> static void split() { long i = sx_long("i", 0, 4000000000L); typedef xad::ChunkContainer<double, CS> C; sx_check(C::getHighPart(i) * CS + C::getLowPart(i) == (size_t)i && C::getLowPart(i) < CS, "index decomposition"); sx_check(C::getNumElements(C::getNumChunks(i)) >= (size_t)i && (i == 0 || C::getNumElements(C::getNumChunks(i) - 1) < (size_t)i), "number of chunks"); }
extern "C" void h_split_3() { split<3>(); } extern "C" void h_split_4() { split<4>(); }
extern "C" void h_split_default() { long i = sx_long("i", 0, 4000000000L); typedef xad::ChunkContainer<double> C; sx_check(C::getHighPart(i) * C::chunk_size + C::getLowPart(i) == (size_t)i && C::getLowPart(i) < C::chunk_size, "index decomposition"); sx_check(C::getNumElements(C::getNumChunks(i)) >= (size_t)i, "number of chunks"); }
// a failing allocation is reported and leaves the container usable and intact
extern "C" void h_alloc_fail()
{
    typedef xad::ChunkContainer<double, 2> C; int n = sx_choice("n", 7); int k = 1 + sx_choice("fail", 3); int how = sx_choice("how", 3); double ref[16];
    C c; for (int i = 0; i < n; ++i) { ref[i] = sx_real("d"); c.push_back(ref[i]); }
    sx_alloc_fail(k); bool th = false; int m = n;
    try { if (how == 0) for (int i = 0; i < 5; ++i) { c.push_back(1.0 + i); ref[m++] = 1.0 + i; } else if (how == 1) c.reserve(12); else for (int i = 0; i < 5; ++i) { c.emplace_back(1.0 + i); ref[m++] = 1.0 + i; } } catch (const std::bad_alloc&) { th = true; }
    sx_alloc_fail(0);
    sx_check((int)c.size() == m, "size after failure"); for (int i = 0; i < m; ++i) sx_eq(c[i], ref[i], "elements after failure");
    c.push_back(7.0); c.push_back(8.0); sx_eq(c[m], 7, "usable"); sx_eq(c[m + 1], 8, "usable"); sx_check((int)c.size() == m + 2, "usable"); sx_check(th || k > 2 || how < 3, "");
}
