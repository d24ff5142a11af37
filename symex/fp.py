"""Floating-point domains for the symbolic executor.

RealDom : symbolic doubles are z3 Reals (exact arithmetic); libm calls are Ackermannised
          (one Real constant per function and canonical argument) with lazily added axioms.
IeeeDom : symbolic doubles are z3 IEEE-754 terms (round-nearest-even); libm calls are uninterpreted.
Concrete values are Python floats in both domains and follow IEEE semantics.
"""
import math, struct, z3
from fractions import Fraction

class Unsupported(Exception): pass

class Undef:
    def __repr__(s): return 'UNDEF'
UNDEF = Undef()

def f32(x):
    if x != x or math.isinf(x): return x
    try: return struct.unpack('<f', struct.pack('<f', x))[0]
    except OverflowError: return math.copysign(math.inf, x)

def fdiv(a, b):
    if b == 0:
        if a == 0 or a != a: return math.nan
        return math.copysign(math.inf, a) * math.copysign(1.0, b)
    try: return a / b
    except OverflowError: return math.inf

def cmath1(f):
    def g(*a):
        try: return float(f(*a))
        except OverflowError: return math.inf
        except ValueError: return math.nan
    return g

def _log(x):
    if x == 0: return -math.inf
    return math.log(x)
def _pow(a, b):
    try: return math.pow(a, b)
    except OverflowError: return math.inf
    except ValueError: return math.nan if a != 0 else math.inf
def _round(x):
    if not math.isfinite(x): return x
    return math.copysign(math.floor(abs(x) + 0.5), x)
def keepinf(f):
    def g(x):
        if not math.isfinite(x): return x
        return math.copysign(float(f(x)), x)
    return g

CONC = {k: cmath1(getattr(math, k)) for k in ('sin','cos','tan','asin','acos','atan','sinh','cosh','tanh','asinh','acosh','atanh',
        'exp','expm1','log10','log1p','log2','sqrt','erf','erfc','atan2','fmod','hypot','fabs','copysign')}
CONC['log'] = cmath1(_log); CONC['pow'] = _pow
CONC['floor'] = keepinf(math.floor); CONC['ceil'] = keepinf(math.ceil); CONC['trunc'] = keepinf(math.trunc)
CONC['round'] = _round; CONC['rint'] = CONC['nearbyint'] = keepinf(round)
CONC['exp2'] = lambda x: _pow(2.0, x)
CONC['cbrt'] = lambda x: math.copysign(abs(x) ** (1/3), x) if math.isfinite(x) else x
CONC['remainder'] = cmath1(math.remainder)
CONC['nextafter'] = math.nextafter
CONC['fmax'] = lambda a, b: b if a != a else a if b != b else max(a, b)
CONC['fmin'] = lambda a, b: b if a != a else a if b != b else min(a, b)
CONC['fma'] = lambda a, b, c: a * b + c
CONC['fdim'] = lambda a,b: max(a-b,0.0)

def rat(x):
    fr = Fraction(x)
    return z3.RealVal(str(fr.numerator) + '/' + str(fr.denominator)) if fr.denominator != 1 else z3.RealVal(fr.numerator)

FCMP = {'oeq': (lambda c: c == 0, False), 'ogt': (lambda c: c > 0, False), 'oge': (lambda c: c >= 0, False), 'olt': (lambda c: c < 0, False),
        'ole': (lambda c: c <= 0, False), 'one': (lambda c: c != 0, False),
        'ueq': (lambda c: c == 0, True), 'ugt': (lambda c: c > 0, True), 'uge': (lambda c: c >= 0, True), 'ult': (lambda c: c < 0, True),
        'ule': (lambda c: c <= 0, True), 'une': (lambda c: c != 0, True)}

def conc_fcmp(pred, a, b):
    nan = a != a or b != b
    if pred == 'ord': return int(not nan)
    if pred == 'uno': return int(nan)
    if pred == 'false': return 0
    if pred == 'true': return 1
    f, un = FCMP[pred]
    if nan: return int(un)
    return int(f((a > b) - (a < b)))

def monos(t):
    """sum-of-monomials term -> [(factors, Fraction coefficient)] or None"""
    out = []
    for m in (t.children() if z3.is_add(t) else [t]):
        c = Fraction(1); fs = []
        st = [m]
        while st:
            x = st.pop()
            if z3.is_rational_value(x): c *= x.as_fraction()
            elif z3.is_mul(x): st.extend(x.children())
            elif z3.is_app_of(x, z3.Z3_OP_POWER) and z3.is_rational_value(x.arg(1)) and x.arg(1).denominator_as_long() == 1 and 0 < x.arg(1).numerator_as_long() < 9:
                fs += [x.arg(0)] * x.arg(1).numerator_as_long()
            else: fs.append(x)
        out.append((fs, c))
        if len(out) > 64: return None
    return out

class RealDom:
    name = 'real'
    def __init__(self):
        self.apps = {}      # name of const -> (fn, args, const)
        self.key = {}
        self.counter = 0
    def fresh(self, name, w=64): return z3.Real(name)
    def is_sym(self, v): return isinstance(v, z3.ExprRef)
    def lift(self, v):
        if isinstance(v, float):
            if not math.isfinite(v): raise Unsupported('non-finite constant in real arithmetic')
            return rat(v)
        return v
    def canon(self, t):
        return z3.simplify(t, som=True)
    def bin(self, op, a, b, w):
        ca, cb = isinstance(a, float), isinstance(b, float)
        if ca and cb:
            if op == 'fadd': r = a + b
            elif op == 'fsub': r = a - b
            elif op == 'fmul': r = a * b
            elif op == 'fdiv': r = fdiv(a, b)
            else: r = CONC['fmod'](a, b)
            return f32(r) if w == 32 else r
        if ca and not math.isfinite(a) or cb and not math.isfinite(b):
            c = a if ca and not math.isfinite(a) else b
            if c != c: return c
            if op == 'fadd': return c
            if op == 'fsub': return c if c is a else -c
            if op == 'fdiv' and c is b: return 0.0
            raise Unsupported('inf arithmetic with symbolic real')
        if op == 'fadd':
            if ca and a == 0: return b
            if cb and b == 0: return a
            return self.lift(a) + self.lift(b)
        if op == 'fsub':
            if cb and b == 0: return a
            if not ca and not cb and a.eq(b): return 0.0
            return self.lift(a) - self.lift(b)
        if op == 'fmul':
            if ca:
                if a == 1: return b
                if a == 0: return 0.0
            if cb:
                if b == 1: return a
                if b == 0: return 0.0
            return self.lift(a) * self.lift(b)
        if op == 'fdiv':
            if cb:
                if b == 1: return a
                if b == 0: raise Unsupported('symbolic / 0')
                fr = 1 / Fraction(b)
                return a * z3.RealVal('%d/%d' % (fr.numerator, fr.denominator))
            if ca and a == 0: return 0.0
            return self.div(self.lift(a), b)
        if op == 'frem': return self.call('fmod', [a, b], w)
        raise Unsupported(op)
    nonzero = None      # set by the engine: callable deciding that a term cannot be 0 on the current path
    def div(self, a, b):
        """a / b, cancelling b symbolically when it divides a (and is provably nonzero on this path)"""
        if self.nonzero is not None:
            mb = monos(z3.simplify(b, som=True))
            if mb is not None and len(mb) == 1:
                (fb, cb), = mb
                if fb:
                    ma = monos(z3.simplify(a, som=True)); out = []
                    for fa, c in ma or [((), 0)]:
                        rest = list(fa); ok = True
                        for x in fb:
                            for i, y in enumerate(rest):
                                if y.eq(x): del rest[i]; break
                            else: ok = False; break
                        if not ok: break
                        out.append((rest, c / cb))
                    else:
                        if ma and self.nonzero(b):
                            r = None
                            for fs, c in out:
                                t = z3.RealVal(str(c))
                                for x in fs: t = t * x
                                r = t if r is None else r + t
                            return z3.simplify(r, som=True)
        return a / b
    def neg(self, a):
        if isinstance(a, float): return -a
        return -a
    def cmp(self, pred, a, b):
        ca, cb = isinstance(a, float), isinstance(b, float)
        if ca and cb: return conc_fcmp(pred, a, b)
        if pred in ('ord', 'uno'):
            n = ca and a != a or cb and b != b
            return int(n) if pred == 'uno' else int(not n)
        if pred == 'true': return 1
        if pred == 'false': return 0
        for c, o in ((a, 1), (b, -1)):
            if isinstance(c, float) and not math.isfinite(c):
                if c != c: return int(pred[0] == 'u')
                f, _ = FCMP[pred]
                s = (1 if c > 0 else -1) * o
                return int(f(s))
        x, y = self.lift(a), self.lift(b)
        p = pred[1:]
        if p == 'eq': return x == y
        if p == 'ne': return x != y
        if p == 'gt': return x > y
        if p == 'ge': return x >= y
        if p == 'lt': return x < y
        return x <= y
    def ite(self, c, a, b):
        if isinstance(a, float) and isinstance(b, float) and (a == b or (a != a and b != b)): return a
        return z3.If(c, self.lift(a), self.lift(b))
    def cast_w(self, a, w):
        if isinstance(a, float) and w == 32: return f32(a)
        return a
    def from_int(self, v, w, signed):
        if isinstance(v, int):
            if signed and v >> (w-1): v -= 1 << w
            return float(v)
        return z3.ToReal(z3.BV2Int(v, signed))
    def to_int(self, a, w, signed):
        if isinstance(a, float):
            if not math.isfinite(a): return UNDEF
            return int(a) & ((1 << w) - 1)
        t = z3.If(a >= 0, z3.ToInt(a), -z3.ToInt(-a))
        return z3.Int2BV(t, w)
    def eq_term(self, a, b):
        return self.lift(a) == self.lift(b)
    ODD = frozenset(('sin', 'tan', 'sinh', 'tanh', 'asin', 'atan', 'asinh', 'atanh', 'erf', 'cbrt'))
    EVEN = frozenset(('cos', 'cosh'))
    def negative(self, t):
        """canonical choice between t and -t (sign of the first monomial)"""
        m = monos(t)
        return bool(m) and m[0][1] < 0
    def app(self, fn, args):
        cargs = tuple(self.canon(self.lift(x)) for x in args)
        if (fn in self.ODD or fn in self.EVEN) and self.negative(cargs[0]):
            r = self.app(fn, [-cargs[0]])
            return -r if fn in self.ODD else r
        k = (fn,) + tuple(x.get_id() for x in cargs)
        c = self.key.get(k)
        if c is None:
            self.counter += 1
            nm = '%s!%d' % (fn, self.counter)
            c = z3.Real(nm)
            self.key[k] = c
            self.apps[nm] = (fn, cargs, c)
        return c
    def call(self, fn, args, w, st=None):
        if all(isinstance(x, float) for x in args) and fn in CONC:
            r = CONC[fn](*args)
            return f32(r) if w == 32 else r
        L = self.lift
        if fn == 'fabs':
            x = args[0]; return z3.If(x >= 0, x, -x)
        if fn == 'fma': return self.bin('fadd', self.bin('fmul', args[0], args[1], w), args[2], w)
        if any(isinstance(x, float) and not math.isfinite(x) for x in args):
            raise Unsupported('non-finite argument to ' + fn)
        if fn == 'copysign':
            a, b = map(L, args); ab = z3.If(a >= 0, a, -a)
            return z3.If(b >= 0, ab, -ab)
        if fn in ('floor','ceil','trunc','round','rint','nearbyint'):
            x = z3.simplify(L(args[0]), som=True)
            fl = z3.ToReal(z3.ToInt(x))
            if fn == 'floor': return fl
            if fn == 'ceil': return -z3.ToReal(z3.ToInt(-x))
            if fn == 'trunc': return z3.If(x >= 0, fl, -z3.ToReal(z3.ToInt(-x)))
            if fn == 'round':
                h = z3.RealVal('1/2')
                return z3.If(x >= 0, z3.ToReal(z3.ToInt(x + h)), -z3.ToReal(z3.ToInt(-x + h)))
            return self.rne(x)
        if fn == 'hypot':       # hypot(x, 0) = |x|
            for x, y in (args, args[::-1]):
                if isinstance(y, float) and y == 0: return self.call('fabs', [x], w)
        if fn == 'atan2' and isinstance(args[0], float) and args[0] == 0:
            return z3.If(args[1] >= 0, rat(args[0]), rat(math.copysign(math.pi, args[0])))
        if fn == 'fmod':
            a, b = map(L, args); q = self.div(a, b)
            n = z3.If(q >= 0, z3.ToReal(z3.ToInt(q)), -z3.ToReal(z3.ToInt(-q)))
            return a - n * b
        if fn == 'remainder':
            a, b = map(L, args)
            return a - self.rne(self.div(a, b)) * b
        if fn == 'fmax' or fn == 'fmin':
            a, b = map(L, args)
            return z3.If(a >= b, a, b) if fn == 'fmax' else z3.If(a <= b, a, b)
        if fn == 'fdim':
            a, b = map(L, args)
            return z3.If(a > b, a - b, z3.RealVal(0))
        if fn == 'pow':
            a, b = args
            if isinstance(b, float) and b == int(b) and abs(b) <= 8:
                n = int(b); r = 1.0
                for _ in range(abs(n)): r = self.bin('fmul', r, a, w)
                return r if n >= 0 else self.bin('fdiv', 1.0, r, w)
            if isinstance(b, float) and b == 0.5: return self.app('sqrt', [a])
            if isinstance(a, float) and a == 2.0: return self.app('exp2', [b])
        if fn in ('sin','tan','sinh','tanh','asin','atan','asinh','atanh','erf','cbrt','expm1') : pass
        return self.app(fn, args)
    def rne(self, x):
        fl = z3.ToInt(x); d = x - z3.ToReal(fl); h = z3.RealVal('1/2')
        up = z3.Or(d > h, z3.And(d == h, fl % 2 == 1))
        return z3.ToReal(z3.If(up, fl + 1, fl))
    # ---- axioms for applications occurring in terms
    def axioms(self, names, depth=1):
        """axioms for the app constants in `names` (closed over arguments and helper apps)."""
        todo = list(names); seen = set(); ax = []
        R = z3.RealVal
        fresh_helpers = 0
        while todo:
            n = todo.pop()
            if n in seen or n not in self.apps: continue
            seen.add(n)
            fn, a, c = self.apps[n]
            def need(f, *args):
                r = self.app(f, list(args))
                for nm in app_names(r):
                    if nm not in seen: todo.append(nm)
                return r
            for x in a: todo.extend(app_names(x))
            x = a[0]
            if fn == 'sin': ax.append(c*c + need('cos', x)*need('cos', x) == 1)
            elif fn == 'cos': need('sin', x)
            elif fn == 'tan':
                ax.append(c * need('cos', x) == need('sin', x)); ax.append(need('cos', x) != 0)
            elif fn == 'exp':
                ax.append(c > 0)
                i = z3.simplify(-x, som=True)
                k = ('exp', i.get_id())
                if k in self.key: ax.append(c * self.key[k] == 1)
            elif fn in ('exp2',): ax.append(c > 0)
            elif fn == 'expm1': ax.append(c == need('exp', x) - 1)
            elif fn == 'sinh':
                ch = need('cosh', x); ax.append(ch*ch - c*c == 1); ax.append(ch >= 1)
                e = need('exp', x); ax.append(c + ch == e); ax.append((ch - c) * e == 1)
            elif fn == 'cosh': need('sinh', x)
            elif fn == 'tanh':
                ax.append(c * need('cosh', x) == need('sinh', x)); ax.append(c < 1); ax.append(c > -1)
                ax.append(need('cosh',x) >= 1)
            elif fn == 'sqrt': ax.append(z3.Implies(x >= 0, z3.And(c >= 0, c*c == x))); ax.append(z3.Implies(x > 0, c > 0))
            elif fn == 'cbrt': ax.append(c*c*c == x); ax.append(z3.Implies(x != 0, c != 0))
            elif fn == 'hypot': ax.append(c >= 0); ax.append(c*c == x*x + a[1]*a[1])
            elif fn == 'erfc': ax.append(c == 1 - need('erf', x))
            elif fn == 'log1p': ax.append(c == need('log', 1 + x))
            elif fn == 'log':
                ax.append(z3.Implies(x > 1, c > 0)); ax.append(z3.Implies(z3.And(x > 0, x < 1), c < 0)); ax.append(z3.Implies(x == 1, c == 0))
            elif fn == 'log2': ax.append(c * rat(math.log(2)) == need('log', x))
            elif fn == 'log10': ax.append(c * rat(math.log(10)) == need('log', x))
            elif fn == 'acos':
                ax.append(c == rat(math.pi/2) - need('asin', x))
            elif fn == 'pow':
                ax.append(z3.Implies(x > 0, c > 0))
        L = [self.apps[n] for n in seen]
        # pow relations and congruence
        for i in range(len(L)):
            for j in range(i):
                f, a, c = L[i]; g, b, d = L[j]
                if f != g:
                    continue
                if f == 'pow' and a[0].eq(b[0]):
                    k = z3.simplify(a[1] - b[1], som=True)
                    if z3.is_rational_value(k) and k.denominator_as_long() == 1 and abs(k.numerator_as_long()) <= 3:
                        n = k.numerator_as_long()
                        p = R(1)
                        for _ in range(abs(n)): p = p * a[0]
                        ax.append(z3.Implies(a[0] != 0, (c == d * p) if n >= 0 else (c * p == d)))
                        continue
                ax.append(z3.Implies(z3.And(*[x == y for x, y in zip(a, b)]), c == d))
        return ax, seen

_app_cache = {}
def term_consts(t):
    """names of uninterpreted constants in z3 term (cached)"""
    i = t.get_id()
    r = _app_cache.get(i)
    if r is not None: return r[1]
    seen = set(); out = set(); st = [t]
    while st:
        x = st.pop(); k = x.get_id()
        if k in seen: continue
        seen.add(k)
        c = _app_cache.get(k)
        if c is not None: out |= c[1]; continue
        if z3.is_const(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(x.decl().name())
        else: st.extend(x.children())
    out = frozenset(out)
    _app_cache[i] = (t, out)
    return out
def app_names(t): return [n for n in term_consts(t) if '!' in n]

RNE = z3.RNE()
class IeeeDom:
    name = 'ieee'
    S64 = z3.Float64(); S32 = z3.Float32()
    def __init__(self): self.apps = {}; self.funs = {}
    def fresh(self, name, w=64): return z3.FP(name, self.S64 if w == 64 else self.S32)
    def is_sym(self, v): return isinstance(v, z3.ExprRef)
    def lift(self, v, w=64):
        if isinstance(v, float): return z3.FPVal(v, self.S64 if w == 64 else self.S32)
        return v
    def srt(self, *vs):
        for v in vs:
            if not isinstance(v, float): return 64 if v.sort() == self.S64 else 32
        return 64
    def bin(self, op, a, b, w):
        if isinstance(a, float) and isinstance(b, float): return RealDom.bin(self, op, a, b, w)
        # one form for results which are identical apart from the sign of a NaN: commuted operands, moved negations
        if op == 'fsub': op, b = 'fadd', self.neg(b)
        a, b = self.lift(a, w), self.lift(b, w)
        if op in ('fadd', 'fmul') and a.get_id() > b.get_id(): a, b = b, a
        if op == 'fadd': return z3.fpAdd(RNE, a, b)
        if op in ('fmul', 'fdiv'):
            a, s = self.strip(a); b, t = self.strip(b)
            if op == 'fmul' and a.get_id() > b.get_id(): a, b = b, a
            r = z3.fpMul(RNE, a, b) if op == 'fmul' else z3.fpDiv(RNE, a, b)
            return z3.fpNeg(r) if s != t else r
        return self.call('fmod', [a, b], w)
    def strip(self, a):
        if z3.is_app_of(a, z3.Z3_OP_FPA_NEG): return a.arg(0), True
        if isinstance(a, z3.FPNumRef) and not a.isNaN() and a.isNegative(): return z3.simplify(z3.fpNeg(a)), True
        return a, False
    def neg(self, a):
        if isinstance(a, float): return -a
        return a.arg(0) if z3.is_app_of(a, z3.Z3_OP_FPA_NEG) else z3.fpNeg(a)
    def cmp(self, pred, a, b):
        if isinstance(a, float) and isinstance(b, float): return conc_fcmp(pred, a, b)
        w = self.srt(a, b); a, b = self.lift(a, w), self.lift(b, w)
        nan = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
        if pred == 'uno': return z3.simplify(nan)
        if pred == 'ord': return z3.simplify(z3.Not(nan))
        p = pred[1:]
        t = {'eq': lambda: z3.fpEQ(a, b), 'gt': lambda: z3.fpGT(a, b), 'ge': lambda: z3.fpGEQ(a, b), 'lt': lambda: z3.fpLT(a, b), 'le': lambda: z3.fpLEQ(a, b),
             'ne': lambda: z3.And(z3.Not(nan), z3.Not(z3.fpEQ(a, b)))}[p]()
        return z3.simplify(z3.Or(nan, t)) if pred[0] == 'u' else z3.simplify(t)
    def ite(self, c, a, b):
        w = self.srt(a, b); return z3.If(c, self.lift(a, w), self.lift(b, w))
    def cast_w(self, a, w):
        if isinstance(a, float): return f32(a) if w == 32 else a
        return z3.fpFPToFP(RNE, a, self.S64 if w == 64 else self.S32)
    def from_int(self, v, w, signed):
        if isinstance(v, int): return RealDom.from_int(self, v, w, signed)
        return z3.fpSignedToFP(RNE, v, self.S64) if signed else z3.fpUnsignedToFP(RNE, v, self.S64)
    def to_int(self, a, w, signed):
        if isinstance(a, float): return RealDom.to_int(self, a, w, signed)
        return z3.fpToSBV(z3.RTZ(), a, z3.BitVecSort(w)) if signed else z3.fpToUBV(z3.RTZ(), a, z3.BitVecSort(w))
    def eq_term(self, a, b):
        w = self.srt(a, b); a, b = self.lift(a, w), self.lift(b, w)
        return z3.Or(a == b, z3.And(z3.fpIsNaN(a), z3.fpIsNaN(b)))
    def call(self, fn, args, w, st=None):
        if all(isinstance(x, float) for x in args) and fn in CONC:
            r = CONC[fn](*args); return f32(r) if w == 32 else r
        args = [self.lift(x, w) for x in args]
        a = args[0]
        if fn == 'fabs': return z3.fpAbs(a)
        if fn == 'copysign':
            return z3.If(self.signbit(args[1]), z3.fpNeg(z3.fpAbs(a)), z3.fpAbs(a))
        if fn == 'fma': return z3.fpFMA(RNE, *args)
        if fn == 'sqrt': return z3.fpSqrt(RNE, a)
        if fn in ('floor','ceil','trunc','round','rint','nearbyint'):
            m = {'floor': z3.RTN(), 'ceil': z3.RTP(), 'trunc': z3.RTZ(), 'round': z3.RNA(), 'rint': RNE, 'nearbyint': RNE}[fn]
            return z3.fpRoundToIntegral(m, a)
        if fn == 'fmax' or fn == 'fmin':
            b = args[1]; cmp = z3.fpGEQ(a, b) if fn == 'fmax' else z3.fpLEQ(a, b)
            return z3.If(z3.fpIsNaN(a), b, z3.If(z3.fpIsNaN(b), a, z3.If(cmp, a, b)))
        srt = [x.sort() for x in args]
        f = self.funs.get((fn, w, len(args)))
        if f is None:
            f = z3.Function('uf_' + fn, *srt, self.S64 if w == 64 else self.S32)
            self.funs[(fn, w, len(args))] = f
        return f(*args)
    def signbit(self, a):
        return z3.fpIsNegative(a)   # NaN: sign unspecified
    def axioms(self, names, depth=1): return [], set()
