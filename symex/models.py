"""Models of the harness API (sx_*), the C/C++ runtime and compiler intrinsics."""
import math, z3, struct

def register(E):
    model, pattern = E.model, E.pattern
    UNDEF, PathEnd, Unsupported, M64 = E.UNDEF, E.PathEnd, E.Unsupported, E.M64
    UNW = E.Engine.UNWOUND

    # ---------------- harness API
    def name_of(self, st, a): return self.cstr(st, a)
    def fresh_real(self, st, nm, w, kind):
        v = self.dom.fresh('%s@%d' % (nm, len(st.inputs)), w)
        st.inputs.append((nm, kind, v))
        return v
    @model('sx_real')
    def sx_real(self, st, f, i, a): return fresh_real(self, st, name_of(self, st, a[0]), 64, 'real')
    @model('sx_realf')
    def sx_realf(self, st, f, i, a): return fresh_real(self, st, name_of(self, st, a[0]), 32, 'realf')
    @model('sx_int')
    def sx_int(self, st, f, i, a):
        lo, hi = [x - (1 << 32) if x >> 31 else x for x in a[1:3]]
        nm = name_of(self, st, a[0])
        v = z3.BitVec('%s@%d' % (nm, len(st.inputs)), 32)
        st.inputs.append((nm, 'int', v))
        self.add_pc(st, z3.And(v >= lo, v <= hi)); st.model = None
        return v
    @model('sx_long')
    def sx_long(self, st, f, i, a):
        nm = name_of(self, st, a[0])
        v = z3.BitVec('%s@%d' % (nm, len(st.inputs)), 64)
        st.inputs.append((nm, 'int', v))
        lo, hi = [x - (1 << 64) if x >> 63 else x for x in a[1:3]]
        self.add_pc(st, z3.And(v >= lo, v <= hi)); st.model = None
        return v
    @model('sx_choice')
    def sx_choice(self, st, f, i, a):
        n = a[1]; nm = name_of(self, st, a[0])
        if st.forced is None:
            for k in range(n - 1, 0, -1):
                s = self.reexec_fork(st); s.forced = k; s.model = st.model
                self.work.append(s)
            v = 0
        else: v = st.forced; st.forced = None
        st.inputs.append((nm, 'choice', v))
        return v
    @model('sx_conc')
    def sx_conc(self, st, f, i, a):
        v = a[0]
        if isinstance(v, int): return v
        return self.concretize(st, v, 32, 'sx_conc')
    @model('sx_assume')
    def sx_assume(self, st, f, i, a):
        c = a[0]
        if c is UNDEF: raise PathEnd('error', 'assume on uninitialised value')
        if isinstance(c, int):
            if not c: raise PathEnd('assume')
            return None
        c = z3.simplify(c != 0 if isinstance(c, z3.BitVecRef) else c)
        if z3.is_true(c): return None
        if z3.is_false(c): raise PathEnd('assume')
        if not self.feasible(st, c): raise PathEnd('assume')
        st.notes.pop('m', None)
        self.add_pc(st, c)
    @model('sx_check')
    def sx_check(self, st, f, i, a):
        c = a[0]; lab = name_of(self, st, a[1])
        st.reached[lab] = st.reached.get(lab, 0) + 1
        if c is UNDEF: raise PathEnd('error', lab + ': uninitialised value')
        if isinstance(c, int): good = bool(c)
        else: good = c != 0 if isinstance(c, z3.BitVecRef) else c
        ok = self.obligation(st, lab, good)
        if not ok:
            if isinstance(good, bool): raise PathEnd('violated')
            if not self.feasible(st, good): raise PathEnd('violated')
            self.add_pc(st, good)
    def do_eq(self, st, a, b, lab, same):
        st.reached[lab] = st.reached.get(lab, 0) + 1
        if a is UNDEF or b is UNDEF: raise PathEnd('error', lab + ': uninitialised value')
        if isinstance(a, float) and isinstance(b, float):
            if same: good = a == b and math.copysign(1, a) == math.copysign(1, b) or (a != a and b != b)
            else: good = a == b or (a != a and b != b) or abs(a - b) <= self.tolf * (abs(a) + abs(b)) + self.tola
            if not self.obligation(st, lab, bool(good)): raise PathEnd('violated')
            return
        bad = [x for x in (a, b) if isinstance(x, float) and not math.isfinite(x)]
        if bad and self.dom.name == 'real':
            if not self.obligation(st, lab, False): raise PathEnd('violated')
            return
        if self.dom.name == 'real' and not isinstance(a, float) and not isinstance(b, float) and a.eq(b):
            self.obligation(st, lab, True); return
        good = self.dom.eq_term(a, b)
        if not self.obligation(st, lab, good, a, b):
            if not self.feasible(st, good): raise PathEnd('violated')
    @model('sx_eq')
    def sx_eq(self, st, f, i, a): do_eq(self, st, a[0], a[1], name_of(self, st, a[2]), False)
    @model('sx_eqf')
    def sx_eqf(self, st, f, i, a): do_eq(self, st, a[0], a[1], name_of(self, st, a[2]), False)
    @model('sx_same')
    def sx_same(self, st, f, i, a): do_eq(self, st, a[0], a[1], name_of(self, st, a[2]), True)
    @model('sx_reach')
    def sx_reach(self, st, f, i, a):
        lab = name_of(self, st, a[0]); st.reached[lab] = st.reached.get(lab, 0) + 1
        self.st.checks.setdefault('reach:' + lab, 0); self.st.checks['reach:' + lab] += 1
    @model('sx_stop')
    def sx_stop(self, st, f, i, a): raise PathEnd('ok')
    @model('sx_thread')
    def sx_thread(self, st, f, i, a):
        t = a[0]
        if not isinstance(t, int): t = self.concretize(st, t, 32, 'thread')
        st.thread = t
        for n in self.tls:
            for k in self.tls[n]:
                if k not in st.mem: st.mem[k] = self.base_mem[k]
    @model('sx_race')
    def sx_race(self, st, f, i, a):
        for k in [k for k in st.notes if k == 'race' or isinstance(k, tuple) and k[0] == 'acc']: del st.notes[k]
        if a[0]: st.notes['race'] = True
    @model('sx_live')
    def sx_live(self, st, f, i, a): return st.heap & ((1 << 64) - 1)
    @model('sx_alloc_fail')
    def sx_alloc_fail(self, st, f, i, a): st.notes['failalloc'] = a[0]
    @model('sx_isnative')
    def sx_isnative(self, st, f, i, a): return 0
    @model('sx_mod')
    def sx_mod(self, st, f, i, a): return None
    @model('sx_ieee')
    def sx_ieee(self, st, f, i, a): return int(self.dom.name == 'ieee')

    # ---------------- allocation
    def failing(self, st):
        k = st.notes.get('failalloc')
        if k is None or k == 0: return False
        st.notes['failalloc'] = k - 1
        return k == 1
    @model('_Znwm', '_Znam')
    def new(self, st, f, i, a):
        n = a[0]
        if not isinstance(n, int): n = self.concretize(st, n, 64, 'allocation size')
        if n > (1 << 31): return throw_std(self, st, f, i, '_ZTISt9bad_alloc')
        return self.heap_alloc(st, n, 'new')
    @model('_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm')
    def delete(self, st, f, i, a): self.heap_free(st, a[0], 'new')
    @model('malloc')
    def malloc(self, st, f, i, a):
        n = a[0]
        if not isinstance(n, int): n = self.concretize(st, n, 64, 'allocation size')
        return self.heap_alloc(st, n, 'malloc')
    @model('aligned_alloc')
    def aligned_alloc(self, st, f, i, a):
        n = a[1]
        if not isinstance(n, int): n = self.concretize(st, n, 64, 'allocation size')
        if failing(self, st): return 0
        return self.heap_alloc(st, n, 'malloc')
    @model('free')
    def free(self, st, f, i, a): self.heap_free(st, a[0], 'malloc')

    # ---------------- memory
    @pattern(r'llvm\.(memcpy|memmove)\.')
    def memcpy(self, st, f, i, a):
        n = a[2]
        if not isinstance(n, int): n = self.concretize(st, n, 64, 'memcpy size')
        self.memcpy(st, a[0], a[1], n)
    @model('memcpy', 'memmove')
    def memcpy2(self, st, f, i, a):
        memcpy(self, st, f, i, a); return a[0]
    @pattern(r'llvm\.memset\.')
    def memset(self, st, f, i, a):
        n = a[2]
        if not isinstance(n, int): n = self.concretize(st, n, 64, 'memset size')
        v = a[1]
        if not isinstance(v, int): raise Unsupported('symbolic memset')
        self.memset(st, a[0], v, n)
    @model('memset')
    def memset2(self, st, f, i, a): memset(self, st, f, i, a); return a[0]
    @model('memcmp', 'bcmp')
    def memcmp(self, st, f, i, a):
        n = a[2]
        for k in range(n):
            x = self.load(st, a[0]+k, ('i',8)); y = self.load(st, a[1]+k, ('i',8))
            if not (isinstance(x, int) and isinstance(y, int)): raise Unsupported('symbolic memcmp')
            if x != y: return 1 if x > y else (1 << 32) - 1
        return 0
    @model('strlen')
    def strlen(self, st, f, i, a): return len(self.cstr(st, a[0]))
    @pattern(r'llvm\.lifetime\.(start|end)')      # only present in the variants that keep the markers
    def lifetime(self, st, f, i, a):
        if isinstance(a[1], int) and a[1] >> 32 in st.mem and not a[1] & 0xffffffff:
            o = self.wobj(st, a[1] >> 32)
            if o.kind == 'stack': o.alive = i.a[0][1].startswith('llvm.lifetime.start'); o.cells = {}
        return 0
    @pattern(r'llvm\.(dbg|assume|experimental\.noalias|invariant|donothing|prefetch|stackrestore|va_)')
    def nop(self, st, f, i, a): return 0
    @model('llvm.stacksave.p0')
    def ss(self, st, f, i, a): return 0
    @pattern(r'llvm\.expect\.')
    def expect(self, st, f, i, a): return a[0]
    @pattern(r'llvm\.is\.constant')
    def isconst(self, st, f, i, a): return 0
    @pattern(r'llvm\.objectsize')
    def objsize(self, st, f, i, a): return M64
    @pattern(r'llvm\.threadlocal\.address')
    def tlsaddr(self, st, f, i, a):
        return a[0]    # gaddress already selects the current thread's instance
    @pattern(r'llvm\.trap|abort$|llvm\.ubsantrap')
    def trap(self, st, f, i, a): raise PathEnd('error', 'abort/trap')

    # ---------------- integer intrinsics
    @pattern(r'llvm\.(umax|umin|smax|smin)\.i\d+$')
    def minmax(self, st, f, i, a):
        nm = i.a[0][1]; op = nm[5:9]; w = i.ty[1]
        x, y = a
        if x is UNDEF or y is UNDEF: return UNDEF
        pred = {'umax': 'uge', 'umin': 'ule', 'smax': 'sge', 'smin': 'sle'}[op]
        c = self.icmp(pred, x, y, w)
        if isinstance(c, int): return x if c else y
        return z3.simplify(z3.If(c, self.bv(x, w), self.bv(y, w)))
    @pattern(r'llvm\.abs\.i\d+$')
    def iabs(self, st, f, i, a):
        w = i.ty[1]; x = a[0]
        if isinstance(x, int): return ((1 << w) - x) & ((1 << w) - 1) if x >> (w-1) else x
        return z3.simplify(z3.If(x < 0, -x, x))
    @model('abs')
    def abs_(self, st, f, i, a): return iabs(self, st, f, i, a)
    @pattern(r'llvm\.(uadd|usub|umul|sadd|ssub|smul)\.with\.overflow\.i\d+$')
    def ovf(self, st, f, i, a):
        nm = i.a[0][1]; op = nm[5:9]; w = int(nm.rsplit('i', 1)[1]); x, y = a
        if isinstance(x, int) and isinstance(y, int):
            s = lambda v: v - (1 << w) if op[0] == 's' and v >> (w-1) else v
            x, y = s(x), s(y)
            r = {'add': x+y, 'sub': x-y, 'mul': x*y}[op[1:]]
            lo, hi = (-(1 << (w-1)), (1 << (w-1)) - 1) if op[0] == 's' else (0, (1 << w) - 1)
            return (r & ((1 << w) - 1), int(not lo <= r <= hi))
        x, y = self.bv(x, w), self.bv(y, w)
        if op == 'uadd': return (x + y, z3.Not(z3.BVAddNoOverflow(x, y, False)))
        if op == 'usub': return (x - y, z3.ULT(x, y))
        if op == 'umul': return (x * y, z3.Not(z3.BVMulNoOverflow(x, y, False)))
        raise Unsupported(nm)
    @pattern(r'llvm\.(usub|uadd)\.sat\.i\d+$')
    def sat(self, st, f, i, a):
        w = i.ty[1]; nm = i.a[0][1]; x, y = a
        if isinstance(x, int) and isinstance(y, int):
            return max(0, x - y) if 'usub' in nm else min((1 << w) - 1, x + y)
        x, y = self.bv(x, w), self.bv(y, w)
        if 'usub' in nm: return z3.If(z3.ULT(x, y), z3.BitVecVal(0, w), x - y)
        return z3.If(z3.BVAddNoOverflow(x, y, False), x + y, z3.BitVecVal((1 << w) - 1, w))
    @pattern(r'llvm\.(ctlz|cttz|ctpop)\.i\d+$')
    def ctz(self, st, f, i, a):
        w = i.ty[1]; x = a[0]; nm = i.a[0][1]
        if not isinstance(x, int): raise Unsupported(nm)
        if 'ctpop' in nm: return bin(x).count('1')
        if 'ctlz' in nm: return w - x.bit_length()
        return w if x == 0 else (x & -x).bit_length() - 1

    # ---------------- floating point
    @pattern(r'llvm\.is\.fpclass\.f(32|64)$')
    def fpclass(self, st, f, i, a):
        x, mask = a
        if x is UNDEF: return UNDEF
        w = 64 if i.a[0][1].endswith('64') else 32
        if isinstance(x, float):
            mn = 2.2250738585072014e-308 if w == 64 else 1.1754943508222875e-38
            if x != x: b = 3
            elif math.isinf(x): b = 0x200 if x > 0 else 4
            elif x == 0: b = 0x40 if math.copysign(1, x) > 0 else 0x20
            elif abs(x) < mn: b = 0x80 if x > 0 else 0x10
            else: b = 0x100 if x > 0 else 8
            return int(bool(mask & b))
        if self.dom.name == 'real':
            t = []
            if mask & 8: t.append(x < 0)
            if mask & 0x40: t.append(x == 0)
            if mask & 0x100: t.append(x > 0)
            return z3.simplify(z3.Or(*t)) if t else 0
        t = []
        neg = z3.fpIsNegative(x); pos = z3.fpIsPositive(x)
        if mask & 3: t.append(z3.fpIsNaN(x))
        for bn, bp, p in ((4, 0x200, z3.fpIsInf), (8, 0x100, z3.fpIsNormal), (0x10, 0x80, z3.fpIsSubnormal), (0x20, 0x40, z3.fpIsZero)):
            if mask & bn: t.append(z3.And(p(x), neg))
            if mask & bp: t.append(z3.And(p(x), pos))
        return z3.simplify(z3.Or(*t)) if t else 0
    @model('ldexp', 'scalbn', 'scalbln', 'ldexpf', 'scalbnf', 'scalblnf')
    def ldexp(self, st, f, i, a):
        x, n = a
        if x is UNDEF or n is UNDEF: return UNDEF
        w = 64 if i.a[0][1].find('ln') and i.a[0][1] in ('scalbln', 'scalblnf') else 32
        if not isinstance(n, int): n = self.concretize(st, n, w, 'ldexp exponent')
        if n >> (w-1): n -= 1 << w
        if isinstance(x, float):
            try: return math.ldexp(x, n)
            except OverflowError: return math.copysign(math.inf, x)
        if abs(n) > 5000: raise Unsupported('ldexp exponent')
        if self.dom.name == 'real':
            return x * (z3.RealVal(2**n) if n >= 0 else z3.Q(1, 2**-n))
        if -1022 <= n <= 1023 and x.sort() == self.dom.S64: return self.dom.bin('fmul', x, 2.0**n, 64)
        wide = z3.FPSort(15, 64)        # exact there
        return z3.fpFPToFP(z3.RNE(), z3.fpMul(z3.RNE(), z3.fpFPToFP(z3.RNE(), x, wide), z3.fpBVToFP(z3.BitVecVal((n + 16383) << 63, 79), wide)), x.sort())
    @pattern(r'llvm\.ldexp\.')
    def ldexp2(self, st, f, i, a): return ldexp(self, st, f, i, a)
    @model('frexp', 'frexpf')
    def frexp(self, st, f, i, a):
        x, p = a
        m, e = split(self, st, x); self.store(st, p, e, ('i', 32)); return m
    @pattern(r'llvm\.frexp\.')
    def frexp2(self, st, f, i, a): return split(self, st, a[0])
    def split(self, st, x):
        if isinstance(x, float):
            m, e = math.frexp(x); return m, e & 0xffffffff
        if self.dom.name != 'real': raise Unsupported('frexp ieee')
        ax = z3.If(x >= 0, x, -x)
        if self.fork_bool(st, x == 0): return 0.0, 0
        for e in (1, 2, 0, 3, -1, 4, -2, 5):
            lo = z3.RealVal(2)**(e-1) if e >= 1 else z3.RealVal('1/%d' % 2**(1-e))
            hi = lo * 2
            if self.fork_bool(st, z3.And(ax >= lo, ax < hi)):
                return self.dom.bin('fmul', x, 2.0**(-e), 64), e & 0xffffffff
        raise PathEnd('assume', 'frexp range')
    @model('modf', 'modff')
    def modf(self, st, f, i, a):
        x, p = a
        f32 = i.a[0][1] == 'modff'
        if isinstance(x, float):
            if math.isinf(x): fr, ip = math.copysign(0.0, x), x
            else: fr, ip = math.modf(x)
        else:
            ip = self.dom.call('trunc', [x], 64); fr = self.dom.bin('fsub', x, ip, 64)
        self.store(st, p, ip, ('f32',) if f32 else ('f64',)); return fr
    @model('remquo', 'remquof')
    def remquo(self, st, f, i, a):
        x, y, p = a
        if self.dom.name != 'real': raise Unsupported('remquo ieee')
        if isinstance(x, float) and isinstance(y, float):
            n = round(x / y); r = math.remainder(x, y)
            q = (abs(n) & 7) * (1 if x / y >= 0 else -1)
            self.store(st, p, q & 0xffffffff, ('i', 32)); return r
        X, Y = self.dom.lift(x), self.dom.lift(y)
        self.dom.nonzero = lambda b: self.check(st, [b == 0])[0] == E.z3.unsat
        q = self.dom.div(X, Y); self.dom.nonzero = None
        n = self.dom.rne(q)
        # the C library returns at least the low three bits of the quotient with its sign
        for k in range(0, 21):
            for s in ((1, -1) if k else (1,)):
                v = k * s
                if self.fork_bool(st, n == v):
                    self.store(st, p, ((k & 7) * s) & 0xffffffff, ('i', 32))
                    return self.dom.bin('fsub', x, self.dom.bin('fmul', float(v), y, 64), 64)
        raise PathEnd('assume', 'remquo range')
    @model('ilogb', 'ilogbf')
    def ilogb(self, st, f, i, a):
        x = a[0]
        if isinstance(x, float): return (math.frexp(x)[1] - 1) & 0xffffffff
        return z3.Function('ilogb!%s' % x.sort(), x.sort(), z3.BitVecSort(32))(x)
    @model('_ZSt11_Hash_bytesPKvmm')
    def hash_bytes(self, st, f, i, a):
        if a[1] not in (4, 8): raise Unsupported('hash of %s bytes' % a[1])
        v = self.load(st, a[0], ('f64',) if a[1] == 8 else ('f32',))
        if isinstance(v, float): v = self.dom.lift(v) if self.dom.name == 'real' else self.dom.lift(v, 8 * a[1])
        return z3.Function('hash!%s' % v.sort(), v.sort(), z3.BitVecSort(64), z3.BitVecSort(64))(v, self.bv(a[2], 64))
    @model('lround', 'llround', 'lrint', 'llrint')
    def lround(self, st, f, i, a):
        x = a[0]
        if isinstance(x, float): return int(E.CONC['round' if 'round' in i.a[0][1] else 'rint'](x)) & M64
        r = self.dom.call('round' if 'round' in i.a[0][1] else 'rint', [x], 64)
        return self.dom.to_int(r, 64, True)
    @model('__fpclassify', '__fpclassifyf')
    def fpclassify(self, st, f, i, a): raise Unsupported('fpclassify')
    @model('sincos')
    def sincos(self, st, f, i, a):
        self.store(st, a[1], self.dom.call('sin', [a[0]], 64), ('f64',)); self.store(st, a[2], self.dom.call('cos', [a[0]], 64), ('f64',))
    # complex arithmetic helpers of the compiler runtime
    @model('__muldc3')
    def muldc3(self, st, f, i, a):
        B = self.dom.bin; x, y, u, v = a
        return (B('fsub', B('fmul', x, u, 64), B('fmul', y, v, 64), 64), B('fadd', B('fmul', x, v, 64), B('fmul', y, u, 64), 64))
    @model('__divdc3')
    def divdc3(self, st, f, i, a):
        B = self.dom.bin; x, y, u, v = a
        d = B('fadd', B('fmul', u, u, 64), B('fmul', v, v, 64), 64)
        re = B('fadd', B('fmul', x, u, 64), B('fmul', y, v, 64), 64); im = B('fsub', B('fmul', y, u, 64), B('fmul', x, v, 64), 64)
        return (B('fdiv', re, d, 64), B('fdiv', im, d, 64))
    def capp(nm):
        """C99 complex functions on std::complex<double>: principal-value formulas via real libm where simple"""
        def g(self, st, f, i, a):
            x, y = a[0] if isinstance(a[0], tuple) else a; C = lambda fn, *q: self.dom.call(fn, list(q), 64); B = lambda o, p, q: self.dom.bin(o, p, q, 64)
            if nm == 'cexp':
                e = C('exp', x); return (B('fmul', e, C('cos', y)), B('fmul', e, C('sin', y)))
            if nm == 'cabs': return C('hypot', x, y)
            if nm == 'carg': return C('atan2', y, x)
            if nm == 'clog': return (C('log', C('hypot', x, y)), C('atan2', y, x))
            if nm == 'csin': return (B('fmul', C('sin', x), C('cosh', y)), B('fmul', C('cos', x), C('sinh', y)))
            if nm == 'ccos': return (B('fmul', C('cos', x), C('cosh', y)), self.dom.neg(B('fmul', C('sin', x), C('sinh', y))))
            if nm == 'csinh': return (B('fmul', C('sinh', x), C('cos', y)), B('fmul', C('cosh', x), C('sin', y)))
            if nm == 'ccosh': return (B('fmul', C('cosh', x), C('cos', y)), B('fmul', C('sinh', x), C('sin', y)))
            raise Unsupported(nm)
        return g
    for nm in ('cexp','cabs','carg','clog','csin','ccos','csinh','ccosh'): E.MODELS[nm] = E.MODELS[nm + 'f'] = capp(nm)

    # ---------------- C++ runtime
    @model('__cxa_allocate_exception')
    def alloc_exc(self, st, f, i, a):
        p = self.new_obj(st, max(a[0], 16), 'exception'); return p
    @model('__cxa_free_exception')
    def free_exc(self, st, f, i, a): return None
    @model('__cxa_throw')
    def throw(self, st, f, i, a):
        self.cur_unwind = i.a[3]
        self.throw(st, a[0], a[1]); return UNW
    @model('__cxa_begin_catch')
    def begin_catch(self, st, f, i, a):
        st.caught.append(st.exc); return a[0]
    @model('__cxa_end_catch')
    def end_catch(self, st, f, i, a):
        if st.caught: st.caught.pop()
    @model('__cxa_get_exception_ptr')
    def getexc(self, st, f, i, a): return a[0]
    @model('__cxa_rethrow')
    def rethrow(self, st, f, i, a):
        e = st.caught[-1] if st.caught else st.exc
        self.cur_unwind = i.a[3]
        self.throw(st, e[0], e[1]); return UNW
    @model('_Unwind_Resume')
    def uresume(self, st, f, i, a): raise Unsupported('_Unwind_Resume')
    @pattern(r'llvm\.eh\.typeid\.for')
    def typeidfor(self, st, f, i, a): return self.typeid(a[0])
    @model('_ZSt9terminatev', '__clang_call_terminate', '_ZSt10unexpectedv')
    def terminate(self, st, f, i, a): raise PathEnd('error', 'std::terminate called')
    @model('__cxa_call_unexpected')
    def unexp(self, st, f, i, a): raise PathEnd('error', 'std::unexpected called')
    @model('__cxa_pure_virtual')
    def pure(self, st, f, i, a): raise PathEnd('error', 'pure virtual call')
    @model('__assert_fail')
    def assert_fail(self, st, f, i, a): raise PathEnd('error', 'assertion failed: ' + self.cstr(st, a[0]))
    @model('_ZSt21__glibcxx_assert_failPKciS0_S0_')
    def glibcxx_assert(self, st, f, i, a):
        raise PathEnd('error', 'libstdc++ assertion failed: ' + self.cstr(st, a[3]) + ' in ' + self.cstr(st, a[2])[:120])
    @model('__cxa_atexit', '__cxa_thread_atexit')
    def atexit(self, st, f, i, a): return 0
    @model('__cxa_guard_acquire')
    def ga(self, st, f, i, a):
        v = self.load(st, a[0], ('i', 8)); return int(v == 0)
    @model('__cxa_guard_release')
    def gr(self, st, f, i, a): self.store(st, a[0], 1, ('i', 8))
    @model('__cxa_guard_abort')
    def gab(self, st, f, i, a): return None
    def throw_std(self, st, f, i, ti):
        p = self.new_obj(st, 16, 'exception')
        if ti not in self.m.globals: self.m.globals[ti] = 'external constant ptr'
        t = self.gaddress(st, ti)
        self.cur_unwind = i.a[3]
        self.throw(st, p, t); return UNW
    for nm, ti in (('_ZSt17__throw_bad_allocv', '_ZTISt9bad_alloc'), ('_ZSt28__throw_bad_array_new_lengthv', '_ZTISt20bad_array_new_length'),
                   ('_ZSt20__throw_length_errorPKc', '_ZTISt12length_error'), ('_ZSt19__throw_logic_errorPKc', '_ZTISt11logic_error'),
                   ('_ZSt20__throw_out_of_rangePKc', '_ZTISt12out_of_range'), ('_ZSt24__throw_out_of_range_fmtPKcz', '_ZTISt12out_of_range')):
        E.MODELS[nm] = (lambda ti: lambda self, st, f, i, a: throw_std(self, st, f, i, ti))(ti)
    @pattern(r'_ZNSt(13runtime_error|11logic_error|9exception|9bad_alloc|12length_error|12out_of_range|16invalid_argument)[CD][0-2]E')
    def excctor(self, st, f, i, a): return None
    @pattern(r'_ZNKSt(13runtime_error|9exception|9bad_alloc|11logic_error)4whatEv')
    def what(self, st, f, i, a):
        p = self.new_obj(st, 8, 'what'); self.store(st, p, 0x657865, ('i', 64)); return p
    @model('_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE9_M_createERmm')
    def strcreate(self, st, f, i, a):
        n = self.load(st, a[1], ('i', 64))
        if not isinstance(n, int): n = self.concretize(st, n, 64, 'string size')
        return self.heap_alloc(st, n + 1, 'new')
    @pattern(r'_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE10_M_disposeEv')
    def strdispose(self, st, f, i, a):
        p = self.load(st, a[0], E.PTR)
        if p != a[0] + 16: self.heap_free(st, p, 'new')
    @pattern(r'_ZSt16__ostream_insert|_ZNSo|_ZStls|_ZSt4endl|_ZNKSt5ctype')
    def ostream(self, st, f, i, a): return a[0] if a else None
    # doubly linked list primitives of libstdc++ (libstdc++-v3/src/c++98/list.cc)
    P = E.PTR
    @model('_ZNSt8__detail15_List_node_base7_M_hookEPS0_')
    def hook(self, st, f, i, a):
        this, pos = a
        prev = self.load(st, pos + 8, P)
        self.store(st, this, pos, P); self.store(st, this + 8, prev, P)
        self.store(st, prev, this, P); self.store(st, pos + 8, this, P)
    @model('_ZNSt8__detail15_List_node_base9_M_unhookEv')
    def unhook(self, st, f, i, a):
        nx = self.load(st, a[0], P); pv = self.load(st, a[0] + 8, P)
        self.store(st, pv, nx, P); self.store(st, nx + 8, pv, P)
    @model('_ZNSt8__detail15_List_node_base4swapERS0_S1_')
    def lswap(self, st, f, i, a):
        x, y = a
        xn, xp = self.load(st, x, P), self.load(st, x+8, P); yn, yp = self.load(st, y, P), self.load(st, y+8, P)
        xe, ye = xn == x, yn == y
        def put(n, nn, pp, e):
            if e: self.store(st, n, n, P); self.store(st, n+8, n, P)
            else:
                self.store(st, n, nn, P); self.store(st, n+8, pp, P); self.store(st, nn+8, n, P); self.store(st, pp, n, P)
        put(x, yn, yp, ye); put(y, xn, xp, xe)
    @model('_ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_')
    def transfer(self, st, f, i, a):
        this, first, last = a
        if this == last: return
        L = lambda p: self.load(st, p, P)
        S = lambda p, v: self.store(st, p, v, P)
        lastprev = L(last+8); firstprev = L(first+8); thisprev = L(this+8)
        S(lastprev, this); S(firstprev, last); S(thisprev, first)
        S(this+8, lastprev); S(last+8, firstprev); S(first+8, thisprev)
