"""Normal form of real terms over algebraic and elementary function applications.

A term is rewritten to a Laurent polynomial over atoms (inputs, applications, opaque sub-terms) and reciprocals of
polynomials.  Square roots and hypot are reduced with r*r = R, sin with sin^2 = 1 - cos^2, hyperbolic functions are
expressed through exp and exp(-x) = 1/exp(x).  Two terms are equal when the difference of their normal forms, after
clearing the reciprocals, is the zero polynomial.  Terms which were cancelled have to be nonzero on the path (those the
expected term `b` divides by itself are exempt: where they vanish nothing is expected), and radicands nonnegative; the
caller asks the solver about both."""
from fractions import Fraction
import z3
CAP = 6000
class GiveUp(Exception): pass

class Alg:
    def __init__(self, dom):
        self.dom = dom
        self.memo = {}; self.idx = {}; self.term = []; self.keep = []
        self.rad = {}; self.sinof = {}; self.qpoly = {}; self.qkey = {}
        self.nz = set(); self.ge = set()
        self.trace = None
    # atoms
    def atom(self, t):
        i = t.get_id()
        k = self.idx.get(i)
        if k is None:
            k = len(self.term); self.idx[i] = k; self.term.append(t); self.keep.append(t)
        return k
    def one(self, c=1): return {(): Fraction(c)} if c else {}
    def mono(self, k, e=1): return {((k, e),): Fraction(1)}
    def add(self, p, q, s=1):
        r = dict(p)
        for m, c in q.items():
            v = r.get(m, 0) + s * c
            if v: r[m] = v
            else: r.pop(m, None)
        if len(r) > CAP: raise GiveUp()
        return r
    def mmul(self, a, b):
        if not a: return b
        if not b: return a
        d = dict(a)
        for k, e in b:
            o = d.get(k, 0); n = o + e
            if o and (o > 0) != (e > 0): self.nz.add(k)
            if n: d[k] = n
            else: d.pop(k, None)
        return tuple(sorted(d.items()))
    def mul(self, p, q):
        if len(p) * len(q) > 40 * CAP: raise GiveUp()
        r = {}; red = False
        for m, c in p.items():
            for n, d in q.items():
                x = self.mmul(m, n)
                v = r.get(x, 0) + c * d
                if v: r[x] = v
                else: r.pop(x, None)
        if len(r) > CAP: raise GiveUp()
        return self.reduce(r)
    def reduce(self, p):
        """degree of radicals and sines below 2"""
        again = True
        while again:
            again = False; out = {}; extra = []
            for m, c in p.items():
                for k, e in m:
                    if e >= 2 and (k in self.rad or k in self.sinof):
                        rest = tuple((kk, ee) for kk, ee in m if kk != k)
                        if k in self.rad:
                            R, t = self.rad[k]
                            if t is not None: self.ge.add(k)
                        else: R = self.add(self.one(), self.mono(self.sinof[k], 2), -1)
                        w = {rest + () if e % 2 == 0 else tuple(sorted(rest + ((k, 1),))): c}
                        f = R
                        for _ in range(e // 2 - 1): f = self.mul(f, R)
                        extra.append(self.rawmul(w, f)); again = True
                        break
                else:
                    v = out.get(m, 0) + c
                    if v: out[m] = v
                    else: out.pop(m, None)
            for x in extra: out = self.add(out, x)
            p = out
        return p
    def rawmul(self, p, q):
        r = {}
        for m, c in p.items():
            for n, d in q.items():
                x = self.mmul(m, n); v = r.get(x, 0) + c * d
                if v: r[x] = v
                else: r.pop(x, None)
        if len(r) > CAP: raise GiveUp()
        return r
    def inv(self, p):
        if not p: raise GiveUp()
        # common monomial
        ms = list(p)
        lo = dict(ms[0])
        for m in ms[1:]:
            d = dict(m)
            for k in list(lo):
                e = min(lo[k], d.get(k, 0)); lo[k] = e
            for k, e in d.items():
                if k not in lo and e < 0: lo[k] = e
        # negative exponents missing elsewhere count as 0
        for k in list(lo):
            if lo[k] > 0 and any(k not in dict(m) for m in ms): lo[k] = 0
            if not lo[k]: del lo[k]
        com = tuple(sorted((k, -e) for k, e in lo.items()))
        save = set(self.nz); q = self.rawmul(p, {com: Fraction(1)}) if com else p; self.nz = save
        r = self.one()
        for k, e in lo.items():
            if e > 0:
                for _ in range(e): r = self.mul(r, self.invatom(k))
            else: r = self.mul(r, self.mono(k, -e))
        lead = max(q); c = q[lead]
        r = {m: v / c for m, v in r.items()}
        if len(q) == 1: return r
        q = {m: v / c for m, v in q.items()}
        key = tuple(sorted(q.items()))
        a = self.qkey.get(key)
        if a is None:
            a = len(self.term); self.term.append(None); self.qkey[key] = a; self.qpoly[a] = q
        self.den.add(a)
        return self.mul(r, self.mono(a))
    def invatom(self, k):
        self.den.add(k)
        if k in self.qpoly:
            self.nz.add(k); return self.qpoly[k]
        if k in self.rad:
            R, t = self.rad[k]
            if t is not None: self.ge.add(k)
            self.nz.add(k)
            return self.mul(self.mono(k), self.inv(R))
        return self.mono(k, -1)
    def nf(self, t):
        i = t.get_id()
        r = self.memo.get(i)
        if r is None:
            r = self.nf1(t); self.memo[i] = r; self.keep.append(t)
        return r
    def nf1(self, t):
        if z3.is_rational_value(t): return self.one(t.as_fraction())
        if z3.is_add(t):
            r = {}
            for x in t.children(): r = self.add(r, self.nf(x))
            return r
        if z3.is_sub(t):
            ch = t.children(); r = self.nf(ch[0])
            for x in ch[1:]: r = self.add(r, self.nf(x), -1)
            return r
        if z3.is_app_of(t, z3.Z3_OP_UMINUS): return self.add({}, self.nf(t.arg(0)), -1)
        if z3.is_mul(t):
            r = self.one()
            for x in t.children(): r = self.mul(r, self.nf(x))
            return r
        if z3.is_div(t): return self.mul(self.nf(t.arg(0)), self.inv(self.nf(t.arg(1))))
        if z3.is_app_of(t, z3.Z3_OP_POWER) and z3.is_rational_value(t.arg(1)) and t.arg(1).denominator_as_long() == 1 and 0 <= t.arg(1).numerator_as_long() < 9:
            b = self.nf(t.arg(0)); r = self.one()
            for _ in range(t.arg(1).numerator_as_long()): r = self.mul(r, b)
            return r
        if z3.is_const(t) and t.decl().name() in self.dom.apps: return self.app(t)
        return self.mono(self.atom(t))
    def app(self, t):
        fn, args, c = self.dom.apps[t.decl().name()]
        A = self.dom.app; half = Fraction(1, 2)
        if fn == 'tan': return self.mul(self.nf(A('sin', [args[0]])), self.inv(self.nf(A('cos', [args[0]]))))
        if fn in ('sinh', 'cosh', 'tanh'):
            e = self.nf(A('exp', [args[0]])); g = self.inv(e)
            s, h = self.add(e, g, -1), self.add(e, g)
            if fn == 'tanh': return self.mul(s, self.inv(h))
            return {m: v * half for m, v in (s if fn == 'sinh' else h).items()}
        if fn == 'exp' and self.dom.negative(args[0]): return self.inv(self.nf(A('exp', [-args[0]])))
        if fn == 'expm1': return self.add(self.nf(A('exp', [args[0]])), self.one(), -1)
        if fn == 'erfc': return self.add(self.one(), self.nf(A('erf', [args[0]])), -1)
        if fn == 'log1p': return self.nf(A('log', [args[0] + 1]))
        k = self.atom(t)
        if fn == 'sqrt' and k not in self.rad: self.rad[k] = (self.nf(args[0]), args[0])
        elif fn == 'hypot' and k not in self.rad: self.rad[k] = (self.add(self.sq(args[0]), self.sq(args[1])), None)
        elif fn == 'sin' and k not in self.sinof: self.sinof[k] = self.atom(A('cos', [args[0]]))
        return self.mono(k)
    def sq(self, x):
        p = self.nf(x); return self.mul(p, p)
    def clear(self, d):
        """multiply by the denominators"""
        for _ in range(30):
            mx = {}
            for m in d:
                for k, e in m:
                    if k in self.qpoly: mx[k] = max(mx.get(k, 0), e)
            if not mx: return d
            k = max(mx); n = mx[k]; q = self.qpoly[k]      # newest first: its polynomial contains older ones only
            pw = [self.one()]
            for _ in range(n): pw.append(self.mul(pw[-1], q))
            by = {}
            for m, c in d.items():
                e = dict(m).get(k, 0)
                by.setdefault(e, {})[tuple(x for x in m if x[0] != k)] = c
            r = {}
            for e, p in by.items(): r = self.add(r, self.mul(p, pw[n - e]))
            self.nz.add(k); d = r
        raise GiveUp()
    def rebuild(self, p):
        r = z3.RealVal(0)
        for m, c in p.items():
            t = z3.RealVal('%d/%d' % (c.numerator, c.denominator))
            for k, e in m:
                x = self.term[k] if self.term[k] is not None else 1 / self.rebuild(self.qpoly[k])
                for _ in range(abs(e)): t = t * x if e > 0 else t / x
            r = r + t
        return r
    def positive(self, k, zero=False):
        t = None if k is None else self.term[k]
        if t is None or not z3.is_const(t): return False
        a = self.dom.apps.get(t.decl().name())
        return a is not None and (a[0] in ('exp', 'exp2') or zero and a[0] in ('sqrt', 'hypot'))
    def equal(self, a, b):
        """None: not shown; else ('eq' | 'tol', nonzero terms, nonnegative terms) to be confirmed"""
        self.nz = set(); self.ge = set(); self.memo = {}; self.rad = {}; self.qpoly = {}; self.qkey = {}
        try:
            self.den = set(); pb = self.nf(b); den = self.den; pa = self.nf(a)
            d = self.add(pa, pb, -1)
            if d: d = self.clear(d)
            kind = 'eq'
            if d:
                # same polynomial up to the rounding of constants
                if all(abs(c) < self.ctol * 1000 for c in d.values()):
                    ca, cb = self.clear(pa), self.clear(pb)
                    if set(ca) == set(cb) and all(abs(ca[m] - cb[m]) <= self.ctol * abs(ca[m]) for m in ca): kind = 'tol'
                    else: return None
                else: return None
            nz = [self.term[k] if self.term[k] is not None else self.rebuild(self.qpoly[k]) for k in self.nz if k not in den and not self.positive(k)]
            ge = [self.rad[k][1] for k in self.ge if not self.positive(self.idx.get(self.rad[k][1].get_id()), True)]
            return kind, nz, ge
        except (GiveUp, RecursionError): return None
