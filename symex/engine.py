"""Path-based symbolic executor for LLVM IR (see ir.py) over z3."""
import math, struct, time, sys, z3, re
from fractions import Fraction
from ir import Module, PTR, F64, F32
from fp import *
from alg import Alg

sys.setrecursionlimit(100000)
BASE_SHIFT = 32
MASK32 = (1 << 32) - 1
M64 = (1 << 64) - 1

class PathEnd(Exception):
    def __init__(s, status, msg=''): s.status = status; s.msg = msg
class Budget(Exception): pass

class FBits:
    """integer view of a symbolic double/float"""
    __slots__ = ('v', 'w')
    def __init__(s, v, w): s.v = v; s.w = w

class Pair:
    """8 bytes holding two 4-byte cells, at least one of them a symbolic float"""
    __slots__ = ('lo', 'hi')
    def __init__(s, lo, hi): s.lo = lo; s.hi = hi

class Obj:
    __slots__ = ('id', 'size', 'cells', 'alive', 'kind', 'owner', 'fill')
    def __init__(s, id, size, kind): s.id = id; s.size = size; s.kind = kind; s.cells = {}; s.alive = True; s.owner = None; s.fill = None

class Frame:
    __slots__ = ('fn', 'block', 'ip', 'regs', 'allocas', 'ret_dst', 'normal', 'unwind', 'label', 'prev')
    def clone(s):
        f = Frame.__new__(Frame)
        f.fn = s.fn; f.block = s.block; f.ip = s.ip; f.regs = list(s.regs); f.allocas = list(s.allocas)
        f.ret_dst = s.ret_dst; f.normal = s.normal; f.unwind = s.unwind; f.label = s.label; f.prev = s.prev
        return f

class State:
    __slots__ = ('frames', 'mem', 'token', 'pc', 'pcn', 'inputs', 'exc', 'caught', 'thread', 'nobj', 'model', 'steps', 'heap', 'reached', 'depth', 'apps', 'notes', 'forced')
    def fork(s):
        n = State.__new__(State)
        n.frames = [f.clone() for f in s.frames]
        n.mem = dict(s.mem)
        s.token = object(); n.token = object()
        n.pc = list(s.pc); n.pcn = 0
        n.inputs = list(s.inputs); n.exc = s.exc; n.caught = list(s.caught); n.thread = s.thread; n.nobj = s.nobj
        n.model = s.model; n.steps = s.steps; n.heap = s.heap; n.reached = dict(s.reached); n.depth = s.depth + 1
        n.apps = set(s.apps); n.notes = dict(s.notes); n.forced = s.forced
        return n

class Stats: pass

FCLASS = re.compile(r'llvm\.(fabs|sqrt|fma|fmuladd|floor|ceil|trunc|round|rint|nearbyint|copysign|maxnum|minnum|sin|cos|exp|exp2|log|log2|log10|pow|roundeven)\.(f32|f64)$')
LIBM1 = set('sin cos tan asin acos atan sinh cosh tanh asinh acosh atanh exp exp2 expm1 log log10 log1p log2 sqrt cbrt erf erfc fabs floor ceil trunc round rint nearbyint tgamma lgamma logb'.split())
LIBM2 = set('fma pow atan2 fmod hypot fmax fmin copysign remainder nextafter fdim'.split())

def i_tls(e, i):
    n = len(e.tls)
    if e.__dict__.get('tlsn') != n: e.tlsn = n; e.tlsids = {k for v in e.tls.values() for k in v}
    return i in e.tlsids

class Engine:
    def __init__(self, module, dom, opts=None):
        self.m = module; self.dom = dom
        o = opts or {}
        self.max_paths = o.get('max_paths', 100000); self.deadline = o.get('deadline', time.time() + 600)
        self.max_steps = o.get('max_steps', 3_000_000)
        self.prove_to = o.get('prove_ms', 8000); self.tol = o.get('tol', '1/1000000000'); self.tolf = float(Fraction(self.tol)); self.tola = min(self.tolf ** 1.5, 1e-6) if self.tolf > 1e-9 else 1e-13; self.ctol = Fraction(o.get('ctol', '1/1000000000000'))
        self.st = Stats()
        for k in ('instr', 'paths', 'forks', 'feas_q', 'obl', 'obl_syn', 'obl_solver', 'obl_tol', 'undecided', 'sat'): setattr(self.st, k, 0)
        self.st.solver_s = 0.0
        self.st.funcs = {}; self.st.ends = {}; self.st.unsupported = {}; self.st.checks = {}; self.st.undec = []
        self.findings = []
        self.solver = z3.Solver(); self.solver.set('timeout', 1500)
        self.stack = []   # list of pushed constraint asts
        self.gaddr = {}; self.faddr = {}; self.addrf = {}
        self.base_mem = {}
        self.nobj0 = 16
        self.tls = {}
        self.typeids = {}
        self.find_count = {}; self.alg = None
        self.max_find_per_label = o.get('max_find', 3)
        self.stop_on_find = o.get('stop_after', 12)
        self.H = {k[2:]: getattr(self, k) for k in dir(self) if k.startswith('x_')}
        self.X = {k[2:]: getattr(self, k) for k in dir(self) if k.startswith('m_')}
        self.callcache = {}

    # ------------------------------------------------------------ memory
    def new_obj(self, st, size, kind):
        i = st.nobj; st.nobj += 1
        o = Obj(i, size, kind); o.owner = st.token
        st.mem[i] = o
        return i << BASE_SHIFT
    def wobj(self, st, i):
        o = st.mem[i]
        if o.owner is not st.token:
            n = Obj(o.id, o.size, o.kind); n.cells = dict(o.cells); n.alive = o.alive; n.owner = st.token; n.fill = o.fill
            st.mem[i] = n
            return n
        return o
    def find(self, st, addr, size, what):
        i = addr >> BASE_SHIFT
        o = st.mem.get(i)
        off = addr & MASK32
        if o is None:
            o = self.base_mem.get(i)      # global reached only through another global's initialiser on this path
            if o is not None: st.mem[i] = o
        if o is None:
            raise PathEnd('error', 'invalid %s at address %#x (%s)' % (what, addr, 'null' if addr < (16 << 32) else 'wild'))
        if not o.alive: raise PathEnd('error', 'use after free: %s of %s object' % (what, o.kind))
        if 'race' in st.notes: self.track(st, o, off, size, what)
        if off + size > o.size: raise PathEnd('error', 'out-of-bounds %s: offset %d size %d in %s object of %d bytes' % (what, off - (1<<32 if off > (1<<31) else 0), size, o.kind, o.size))
        return o, off

    def track(self, st, o, off, size, what):
        """sections run by sx_par: bytes accessed by both threads, written by at least one, without synchronisation"""
        t = st.thread
        if t == 0 or i_tls(self, o.id) or o.kind.startswith('global _ZGV'): return
        w = what not in ('read', 'memcpy read')
        for k in range(off, off + min(size, 64)):
            key = ('acc', o.id, k); prev = st.notes.get(key, ())
            if (t, w) not in prev: st.notes[key] = prev + ((t, w),)
            for pt, pw in prev:
                if pt != t and (w or pw):
                    self.record(st, 'data race on %s' % o.kind, [], 'race'); raise PathEnd('violated')
    def bytes_of(self, v, size):
        """split concrete/symbolic value in list of byte values"""
        if v is UNDEF: return [UNDEF] * size
        if isinstance(v, int): return list((v & ((1 << 8*size) - 1)).to_bytes(size, 'little'))
        if isinstance(v, float): return list(struct.pack('<d' if size == 8 else '<f', v))
        if isinstance(v, z3.BitVecRef): return [z3.simplify(z3.Extract(8*k+7, 8*k, v)) for k in range(size)]
        if isinstance(v, z3.FPRef):
            b = z3.fpToIEEEBV(v); return [z3.Extract(8*k+7, 8*k, b) for k in range(size)]
        raise Unsupported('byte access to symbolic real')

    def store_cell(self, o, off, size, v):
        if isinstance(v, FBits): v = v.v
        if isinstance(v, Pair):
            self.store_cell(o, off, 4, v.lo); self.store_cell(o, off + 4, 4, v.hi); return
        cells = o.cells
        c = cells.get(off)
        if c is not None and c[0] == size:
            cells[off] = (size, v); return
        # remove overlapped cells
        for k in range(off - 15, off + size):
            c = cells.get(k)
            if c is None or k + c[0] <= off: continue
            if k >= off and k + c[0] <= off + size: del cells[k]; continue
            bs = self.bytes_of(c[1], c[0]) if not isinstance(c[1], (z3.ArithRef, FBits)) else [UNDEF]*c[0]
            del cells[k]
            for j, b in enumerate(bs):
                p = k + j
                if p < off or p >= off + size:
                    if b is not UNDEF: cells[p] = (1, b)
        cells[off] = (size, v)

    def load_cell(self, o, off, size):
        c = o.cells.get(off)
        if c is not None and c[0] == size: return c[1]
        if c is not None and c[0] > size and c[1] is UNDEF: return UNDEF
        if size == 8 and (c is None or c[0] == 4):
            h = o.cells.get(off + 4)
            if h is not None and h[0] != 4: h = None
            if c is not None and isinstance(c[1], z3.ArithRef) or h is not None and isinstance(h[1], z3.ArithRef):
                if c is None: c = (4, self.load_cell(o, off, 4))
                if h is None: h = (4, self.load_cell(o, off + 4, 4))
                return Pair(c[1], h[1])
        # assemble
        bs = [None] * size; hit = False
        for k in range(off - 15, off + size):
            c = o.cells.get(k)
            if c is None or k + c[0] <= off: continue
            hit = True
            if c[1] is UNDEF: b = [UNDEF] * c[0]
            else: b = self.bytes_of(c[1], c[0])
            for j in range(c[0]):
                if 0 <= k + j - off < size: bs[k + j - off] = b[j]
        if not hit:
            if o.fill is not None: return int.from_bytes(bytes([o.fill]) * size, 'little')
            return UNDEF
        if o.fill is not None: bs = [o.fill if b is None else b for b in bs]
        und = [b is None or b is UNDEF for b in bs]
        if all(und): return UNDEF
        if any(und): bs = [0 if u else b for u, b in zip(und, bs)]   # partially initialised word (padding)
        if all(isinstance(b, int) for b in bs): return int.from_bytes(bytes(bs), 'little')
        return z3.simplify(z3.Concat(*[b if not isinstance(b, int) else z3.BitVecVal(b, 8) for b in reversed(bs)]))

    def to_type(self, v, t):
        """convert a raw cell value to an IR value of scalar type t"""
        if v is UNDEF: return UNDEF
        k = t[0]
        if isinstance(v, Pair):
            if k == 'i' and t[1] == 64 or k == 'ptr': return v
            if k == 'vec' and t[1] == 2: return (self.to_type(v.lo, t[2]), self.to_type(v.hi, t[2]))
            raise Unsupported('pair of floats as ' + k)
        if k == 'f64' or k == 'f32':
            if isinstance(v, float): return v
            if isinstance(v, FBits): return v.v
            if isinstance(v, int):
                return struct.unpack('<d', v.to_bytes(8, 'little'))[0] if k == 'f64' else struct.unpack('<f', v.to_bytes(4, 'little'))[0]
            if isinstance(v, z3.BitVecRef):
                if z3.is_app_of(v, z3.Z3_OP_FPA_TO_IEEE_BV): return v.arg(0)
                if self.dom.name == 'ieee': return z3.fpBVToFP(v, self.dom.S64 if k == 'f64' else self.dom.S32)
                raise Unsupported('symbolic bits to real')
            return v
        if k == 'i' or k == 'ptr':
            if isinstance(v, int):
                return v if k == 'ptr' else v & ((1 << t[1]) - 1)
            if isinstance(v, float): return int.from_bytes(struct.pack('<d' if k == 'ptr' or t[1] == 64 else '<f', v), 'little')
            if isinstance(v, (z3.ArithRef,)): return FBits(v, t[1] if k == 'i' else 64)
            if isinstance(v, z3.FPRef): return z3.fpToIEEEBV(v)
            if isinstance(v, z3.BitVecRef) and k == 'i' and v.size() > t[1]: v = z3.Extract(t[1]-1, 0, v)
            if k == 'i' and t[1] == 1 and isinstance(v, z3.BitVecRef): return z3.simplify(v == 1) if v.size() == 1 else z3.simplify(z3.Extract(0,0,v) == 1)
            return v
        if k == 'f80': return v
        raise Unsupported('load type %r' % (t,))

    def load(self, st, addr, t):
        t = self.m.resolve(t); k = t[0]
        if k in ('struct', 'arr', 'vec'):
            if not isinstance(addr, int): addr = self.concretize(st, addr, 64, 'aggregate load address')
            if k == 'struct': offs = self.m.layout(t)[2]; ts = t[1]
            else: s = self.m.size(t[2]); offs = [s*i for i in range(t[1])]; ts = [t[2]]*t[1]
            return tuple(self.load(st, addr + o, e) for o, e in zip(offs, ts))
        size = self.m.size(t)
        if isinstance(addr, int):
            o, off = self.find(st, addr, size, 'read')
            return self.to_type(self.load_cell(o, off, size), t)
        if addr is UNDEF: raise PathEnd('error', 'read through uninitialised pointer')
        vals = self.resolve(st, addr, size, 'read')
        r = None
        for a, c in vals:
            o, off = self.find(st, a, size, 'read')
            v = self.to_type(self.load_cell(o, off, size), t)
            r = v if r is None else self.mkite(c, v, r, t)
        return r
    def mkite(self, c, a, b, t=None):
        if a is b: return a
        if a is UNDEF or b is UNDEF: raise PathEnd('error', 'symbolic read may hit uninitialised memory')
        if t is not None and t[0] in ('f64', 'f32') : return self.dom.ite(c, a, b)
        if isinstance(a, (float, z3.ArithRef, z3.FPRef)) : return self.dom.ite(c, a, b)
        if isinstance(a, FBits) or isinstance(b, FBits): raise Unsupported('ite bits')
        if isinstance(a, int) and isinstance(b, int) and a == b: return a
        w = t[1] if t is not None and t[0] == 'i' else 64
        if w == 1: return z3.If(c, self.tobool(a), self.tobool(b))
        return z3.If(c, self.bv(a, w), self.bv(b, w))
    def store(self, st, addr, v, t):
        t = self.m.resolve(t); k = t[0]
        if k in ('struct', 'arr', 'vec'):
            if not isinstance(addr, int): addr = self.concretize(st, addr, 64, 'aggregate store address')
            if k == 'struct': offs = self.m.layout(t)[2]; ts = t[1]
            else: s = self.m.size(t[2]); offs = [s*i for i in range(t[1])]; ts = [t[2]]*t[1]
            if v is UNDEF: return
            for o, e, x in zip(offs, ts, v): self.store(st, addr + o, x, e)
            return
        size = self.m.size(t)
        if isinstance(v, z3.BoolRef): v = z3.If(v, z3.BitVecVal(1, 8*size), z3.BitVecVal(0, 8*size))
        elif k == 'i' and isinstance(v, z3.BitVecRef) and v.size() < 8*size: v = z3.ZeroExt(8*size - v.size(), v)
        if k == 'f32' and isinstance(v, float): v = int.from_bytes(struct.pack('<f', v), 'little')
        if isinstance(addr, int):
            o, off = self.find(st, addr, size, 'write')
            o = self.wobj(st, o.id)
            self.store_cell(o, off, size, v)
            return
        if addr is UNDEF: raise PathEnd('error', 'write through uninitialised pointer')
        vals = self.resolve(st, addr, size, 'write')
        if len(vals) == 1:
            return self.store(st, vals[0][0], v, t)
        for a, c in vals:
            o, off = self.find(st, a, size, 'write')
            old = self.to_type(self.load_cell(o, off, size), t)
            o = self.wobj(st, o.id)
            self.store_cell(o, off, size, self.mkite(c, v, old, t))
    def resolve(self, st, addr, size, what, limit=96):
        """all feasible concrete values of a symbolic address, with their conditions"""
        out = []; extra = []
        while True:
            m = self.model(st, extra)
            if m is None: break
            a = m.eval(addr, model_completion=True).as_long()
            c = addr == z3.BitVecVal(a, 64)
            try: self.find(st, a, size, what)
            except PathEnd as e:
                # feasible bad access: fork an error path, keep going on the rest
                if e.status == 'error':
                    self.record(st, 'memory: ' + e.msg, extra + [c], kind='memory')
                    self.add_pc(st, z3.Not(c)); extra.append(z3.Not(c))
                    if len(extra) > limit: raise Unsupported('symbolic address fan-out')
                    continue
                raise
            out.append((a, c)); extra.append(z3.Not(c))
            if len(out) > limit: raise Unsupported('symbolic address fan-out > %d' % limit)
        if not out: raise PathEnd('infeasible', '')
        return out
    def concretize(self, st, v, w, why, limit=64):
        """fork on all feasible values of an integer expression (returns value for current state)"""
        if isinstance(v, int): return v
        if v is UNDEF: raise PathEnd('error', 'uninitialised value used as ' + why)
        v = z3.simplify(v)
        if z3.is_bv_value(v): return v.as_long()
        m = self.model(st, [])
        if m is None: raise PathEnd('infeasible', '')
        a = m.eval(v, model_completion=True).as_long()
        c = v == z3.BitVecVal(a, v.size())
        if self.feasible(st, z3.Not(c)):
            n = self.reexec_fork(st)
            self.add_pc(n, z3.Not(c))
            self.work.append(n)
        self.add_pc(st, c)
        return a
    def reexec_fork(self, st):
        """fork so that the sibling re-executes the current instruction"""
        self.st.forks += 1
        n = st.fork()
        f = n.frames[-1]
        f.ip -= 1
        n.model = None
        return n

    # ------------------------------------------------------------ solver
    def sync(self, st):
        pc = st.pc; S = self.stack
        k = 0; n = min(len(pc), len(S))
        while k < n and pc[k] is S[k]: k += 1
        if k < len(S):
            self.solver.pop(len(S) - k); del S[k:]
        while k < len(pc):
            self.solver.push(); self.solver.add(pc[k]); S.append(pc[k]); k += 1
    def ax_for(self, st, terms):
        names = set()
        for t in terms: names.update(app_names(t))
        if not names: return []
        ax, _ = self.dom.axioms(names)
        return ax
    def check(self, st, extra):
        self.sync(st)
        t = time.time()
        ax = self.ax_for(st, extra) if self.dom.name == 'real' else []
        if extra or ax:
            self.solver.push()
            for e in extra: self.solver.add(e)
            for e in ax: self.solver.add(e)
            r = self.solver.check()
            m = self.solver.model() if r == z3.sat else None
            self.solver.pop()
        else:
            r = self.solver.check()
            m = self.solver.model() if r == z3.sat else None
        self.st.solver_s += time.time() - t; self.st.feas_q += 1
        return r, m
    def feasible(self, st, c):
        if st.model is not None and self.dom.name == 'real' or st.model is not None:
            try:
                v = st.model.eval(c, model_completion=True)
                if z3.is_true(v): return True
            except z3.Z3Exception: pass
        r, m = self.check(st, [c])
        if r == z3.unknown:
            r, m = self.hard_check(st.pc + [c])
        if m is not None: st.notes['m'] = m
        return r != z3.unsat
    def hard_check(self, cs, ms=1500):
        """non-incremental check with axioms (nonlinear / FP)"""
        ax = self.ax_for(None, cs) if self.dom.name == 'real' else []
        s = z3.SolverFor('QF_NRA') if self.dom.name == 'real' and not ax and False else z3.Solver()
        s.set('timeout', ms)
        for c in cs: s.add(c)
        for c in ax: s.add(c)
        t = time.time(); r = s.check(); self.st.solver_s += time.time() - t; self.st.feas_q += 1
        return r, (s.model() if r == z3.sat else None)
    def model(self, st, extra):
        if not extra and st.model is not None: return st.model
        r, m = self.check(st, extra)
        if r == z3.unknown: raise Unsupported('solver unknown in address resolution')
        return m
    def add_pc(self, st, c):
        st.pc.append(c)
        if st.model is not None:
            v = st.model.eval(c, model_completion=True)
            if not z3.is_true(v): st.model = None

    # ------------------------------------------------------------ obligations
    def cone(self, st, goal):
        names = set(term_consts(goal))
        if self.dom.name == 'real':
            for n in list(names):
                if n in self.dom.apps:
                    for x in self.dom.apps[n][1]: names |= term_consts(x)
        pcs = [(c, term_consts(c)) for c in st.pc]
        used = set(); ch = True
        while ch:
            ch = False
            for i, (c, ns) in enumerate(pcs):
                if i in used: continue
                if ns & names: used.add(i); ch = True; names |= ns
                
        return [pcs[i][0] for i in sorted(used)]
    def solve_goal(self, st, neg, ms):
        """is pc /\\ neg satisfiable?  unsat -> proven"""
        cone = self.cone(st, neg)
        cs = cone + [neg]
        ax = self.ax_for(st, cs) if self.dom.name == 'real' else []
        s = z3.Solver(); s.set('timeout', ms)
        for c in cs + ax: s.add(c)
        t = time.time(); r = s.check(); self.st.solver_s += time.time() - t
        if r == z3.unknown and self.dom.name == 'real':
            for tac in ('qfnra-nlsat',):
                try:
                    s2 = z3.Then('simplify', 'purify-arith', 'propagate-values', 'solve-eqs', 'elim-term-ite' , tac).solver()
                    s2.set('timeout', ms)
                    for c in cs + ax: s2.add(c)
                    t = time.time(); r2 = s2.check(); self.st.solver_s += time.time() - t
                    if r2 != z3.unknown: r = r2; s = s2; break
                except z3.Z3Exception as e: pass
        m = None
        if r == z3.sat: m = s.model()
        return r, m, cs, ax

    def obligation(self, st, label, good, a=None, b=None):
        """decide pc => good. returns False if violated (finding recorded)."""
        self.st.obl += 1
        self.st.checks[label] = self.st.checks.get(label, 0) + 1
        if isinstance(good, int) or isinstance(good, bool):
            if good: self.st.obl_syn += 1; return True
            neg = z3.BoolVal(True)
        else:
            if self.dom.name == 'real' and a is not None:
                d = z3.simplify(self.dom.lift(a) - self.dom.lift(b), som=True)
                if z3.is_rational_value(d) and d.numerator_as_long() == 0:
                    self.st.obl_syn += 1; return True
            g = z3.simplify(good)
            if z3.is_true(g): self.st.obl_syn += 1; return True
            if self.dom.name == 'real' and a is not None and self.algebraic(st, a, b): return True
            neg = z3.simplify(z3.Not(good))
        if self.find_count.get(label, 0) >= self.max_find_per_label: return False
        if z3.is_true(neg):
            r, m = self.check(st, [])
            if r == z3.unsat: raise PathEnd('infeasible', '')
            self.record(st, label, [], kind='check', a=a, b=b); return False
        r, m, cs, ax = self.solve_goal(st, neg, self.prove_to)
        if r == z3.unsat: self.st.obl_solver += 1; return True
        if a is not None and self.dom.name == 'real':
            # tolerant query: is there a difference beyond rounding?
            x, y = self.dom.lift(a), self.dom.lift(b)
            ab = lambda t: z3.If(t >= 0, t, -t)
            tol = z3.And(ab(x - y) > z3.RealVal(self.tol) * (1 + ab(x) + ab(y)))
            r2, m2, cs, ax = self.solve_goal(st, tol, self.prove_to)
            if r2 == z3.unsat: self.st.obl_tol += 1; return True
            neg = tol
            if r2 != z3.unknown: r, m = r2, m2
        if r == z3.unknown:
            self.st.undecided += 1
            if len(self.st.undec) < 20: self.st.undec.append(label)
            self.record(st, label, [neg], kind='unknown', a=a, b=b)
            return False
        self.st.sat += 1
        self.record(st, label, [neg], kind='check', a=a, b=b)
        return False

    def algebraic(self, st, a, b):
        """equality by normal forms; the solver confirms that what was cancelled is nonzero on this path"""
        if self.alg is None: self.alg = Alg(self.dom); self.alg.ctol = self.ctol
        t0 = time.time(); r = self.alg.equal(self.dom.lift(a), self.dom.lift(b))
        if r is None: return False
        kind, nz, ge = r
        for g in [t == 0 for t in nz] + [t < 0 for t in ge]:
            if self.check(st, [g])[0] != z3.unsat and self.solve_goal(st, g, 4000)[0] != z3.unsat: return False
        if kind == 'tol': self.st.obl_tol += 1
        else: self.st.obl_syn += 1
        return True

    def record(self, st, label, extra, kind, a=None, b=None):
        n = self.find_count.get(label, 0)
        if n >= self.max_find_per_label: return
        cands = self.candidates(st, extra, label)
        if cands is None:
            return  # infeasible after all
        self.find_count[label] = n + 1
        self.findings.append(dict(label=label, kind=kind, candidates=cands,
              terms=[str(x)[:300] for x in (a, b) if x is not None], reached=dict(st.reached)))

    def candidates(self, st, extra, label, n=10):
        """concrete input vectors: several models of the path condition and negated goal (nice values first)"""
        sym = [(i, x) for i, x in enumerate(st.inputs) if isinstance(x[2], z3.ExprRef)]
        out = []
        if not sym:
            r, m = self.check(st, extra)
            if r == z3.unsat: return None
            return [[x[2] for x in st.inputs]]
        cs = st.pc + list(extra)
        ax = self.ax_for(st, cs) if self.dom.name == 'real' else []
        import random
        rnd = random.Random(12345)
        def attempt(more, ms):
            s = z3.Solver(); s.set('timeout', ms)
            for c in cs + ax + more: s.add(c)
            t = time.time(); r = s.check(); self.st.solver_s += time.time() - t
            if r == z3.sat: return r, self.extract(s.model(), st)
            return r, None
        reals = [x for _, x in sym if x[1] in ('real', 'realf')]
        if self.dom.name == 'real' and reals:
            grid = [1.5, -1.5, 0.5, -0.5, 2.5, 0.75, -0.75, 3.25, -2.25, 0.3125, 1.25, 6.5, -7.0, 11.0]
            # fully fixed nice values
            t_end = time.time() + 12
            for k in range(24):
                if len(out) >= n or time.time() > t_end: break
                more = [x[2] == rat(grid[(k + 3*j + (k*j) % 5) % len(grid)]) for j, x in enumerate(reals)]
                r, v = attempt(more, 1000)
                if v: out.append(v)
            for k in range(6):
                if len(out) >= n + 2 or time.time() > t_end: break
                more = []
                for x in reals:
                    lo = rnd.choice([-8, -4, -2, -1, 0, 0, 1, 2]); more.append(z3.And(x[2] >= lo, x[2] <= lo + rnd.choice([1, 2, 6])))
                r, v = attempt(more, 1500)
                if v: out.append(v)
        r, v = attempt([], self.prove_to)
        if v: out.append(v)
        elif r == z3.unsat and not out: return None
        if not out:
            # undecided: still try plain path models, they are only replay seeds
            s = z3.Solver(); s.set('timeout', 2000)
            for c in st.pc + ax: s.add(c)
            if s.check() == z3.sat: out.append(self.extract(s.model(), st))
        return out
    def extract(self, m, st):
        out = []
        for nm, kind, v in st.inputs:
            if not isinstance(v, z3.ExprRef): out.append(v); continue
            x = m.eval(v, model_completion=True)
            if kind in ('int',):
                k = x.as_long(); w = v.size()
                if k >> (w-1): k -= 1 << w
                out.append(k)
            elif self.dom.name == 'ieee':
                y = z3.simplify(z3.fpToIEEEBV(x)) if not z3.is_fp_value(x) or True else x
                if x.isNaN(): out.append(math.nan)
                else:
                    bits = z3.simplify(z3.fpToIEEEBV(x)).as_long()
                    out.append(struct.unpack('<d', bits.to_bytes(8, 'little'))[0] if v.sort() == self.dom.S64 else struct.unpack('<f', bits.to_bytes(4, 'little'))[0])
            else:
                if z3.is_algebraic_value(x): x = x.approx(30)
                try: f = float(x.as_fraction())
                except OverflowError: f = math.inf
                out.append(f)
        return out

    # ------------------------------------------------------------ values
    def bv(self, v, w):
        if isinstance(v, int): return z3.BitVecVal(v, w)
        if isinstance(v, z3.BoolRef): return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
        if isinstance(v, FBits): raise Unsupported('arith on real bits')
        return v
    def tobool(self, v):
        if isinstance(v, int): return z3.BoolVal(bool(v & 1))
        if isinstance(v, z3.BitVecRef): return v == 1
        return v
    def val(self, st, f, o):
        k = o[0]
        if k == 'r': return f.regs[o[1]]
        if k == 'c': return o[1]
        return self.constval(st, f, o)
    def constval(self, st, f, o):
        k = o[0]
        if k == 'g': return self.gaddress(st, o[1])
        if k == 'undef': return self.undef(o[1])
        if k == 'zero': return self.zero(o[1])
        if k == 'agg': return tuple(self.val(st, f, x) for x in o[1])
        if k == 'gep':
            _, bt, ops = o
            base = self.val(st, f, ops[0][1])
            dummy = None
            off, dyn = self.gepplan(bt, ops[1:])
            return (base + off) & M64
        if k == 'cast':
            v = self.val(st, f, o[3])
            if o[1] in ('ptrtoint', 'inttoptr', 'bitcast'): return v
            if o[1] == 'trunc': return v & ((1 << o[4][1]) - 1)
            return v
        if k == 'bin':
            a = self.val(st, f, o[3]); b = self.val(st, f, o[4]); w = o[2][1] if o[2][0] == 'i' else 64
            return self.binop(o[1], a, b, w)
        raise Unsupported('const ' + k)
    def gepplan(self, bt, ops):
        from ir import Function
        idx = [(t, v) for t, v in ops]
        class D: pass
        d = D(); d.m = self.m
        return Function.gepplan(d, bt, idx)
    def undef(self, t):
        t = self.m.resolve(t)
        if t[0] == 'struct': return tuple(self.undef(e) for e in t[1])
        if t[0] in ('arr', 'vec'): return tuple(self.undef(t[2]) for _ in range(t[1]))
        return UNDEF
    def zero(self, t):
        t = self.m.resolve(t)
        if t[0] == 'struct': return tuple(self.zero(e) for e in t[1])
        if t[0] in ('arr', 'vec'): return tuple(self.zero(t[2]) for _ in range(t[1]))
        if t[0] in ('f64', 'f32', 'f80'): return 0.0
        return 0

    def gaddress(self, st, name):
        while name in self.m.aliases: name = self.m.alias_target(name)
        if name in self.m.fn_src or name in self.m.decls:
            a = self.faddr.get(name)
            if a is None:
                a = 0x1000 + 16*len(self.faddr); self.faddr[name] = a; self.addrf[a] = name
            return a
        key = name
        a = self.gaddr.get(key)
        if a is None:
            a = self.alloc_global(st, name)
        i = a >> BASE_SHIFT
        if name in self.tls: i = self.tls[name][st.thread]; a = i << BASE_SHIFT
        if i not in st.mem: st.mem[i] = self.base_mem[i]
        return a
    def alloc_global(self, st, name):
        if name not in self.m.globals: raise Unsupported('unknown global ' + name)
        t, init, tls, ext = self.m.global_info(name)
        n = 3 if tls else 1
        ids = []
        for k in range(n):
            # ids for globals are taken from a reserved range
            i = (1 << 24) + len(self.base_mem); o = Obj(i, max(self.m.size(t), 1) if not ext else 64, 'global ' + name)
            self.base_mem[i] = o; ids.append(i)
        a = ids[0] << BASE_SHIFT
        self.gaddr[name] = a
        if tls: self.tls[name] = ids
        for i in ids: st.mem[i] = self.base_mem[i]
        if ext:
            return a
        v = self.constval(st, None, init) if init[0] not in ('c',) else init[1]
        class S: pass
        for i in ids:
            o = self.base_mem[i]
            self.init_store(o, 0, v, t)
        return a
    def init_store(self, o, off, v, t):
        t = self.m.resolve(t)
        if v is UNDEF: return
        if t[0] == 'struct':
            for f, e, x in zip(self.m.layout(t)[2], t[1], v): self.init_store(o, off + f, x, e)
        elif t[0] in ('arr', 'vec'):
            s = self.m.size(t[2])
            for i, x in enumerate(v): self.init_store(o, off + i*s, x, t[2])
        else:
            if t[0] == 'f32' and isinstance(v, float): v = int.from_bytes(struct.pack('<f', v), 'little')
            o.cells[off] = (self.m.size(t), v)

    # ------------------------------------------------------------ running
    def new_frame(self, name, args, ret_dst=None, normal=None, unwind=None):
        fn = self.m.function(name)
        self.st.funcs[name] = self.st.funcs.get(name, 0) + 1
        f = Frame.__new__(Frame)
        f.fn = fn; f.regs = [None] * fn.nregs; f.allocas = []
        f.ret_dst = ret_dst; f.normal = normal; f.unwind = unwind
        for (r, t), a in zip(fn.params, args): f.regs[r] = a
        f.label = fn.entry; f.block = fn.blocks[fn.entry]; f.ip = 0; f.prev = None
        return f

    def run(self, name):
        st = State.__new__(State)
        st.mem = {}; st.token = object(); st.pc = []; st.pcn = 0; st.inputs = []; st.exc = None; st.caught = []; st.thread = 0
        st.nobj = self.nobj0; st.model = None; st.steps = 0; st.heap = 0; st.reached = {}; st.depth = 0; st.apps = set(); st.notes = {}; st.forced = None
        st.frames = [self.new_frame(name, [])]
        self.work = [st]
        self.complete = True
        while self.work:
            if time.time() > self.deadline or self.st.paths >= self.max_paths or len(self.findings) >= self.stop_on_find:
                self.complete = False
                self.st.ends['abandoned'] = self.st.ends.get('abandoned', 0) + len(self.work)
                break
            s = self.work.pop()
            try:
                self.run_path(s)
                end = 'ok'; msg = ''
            except PathEnd as e: end = e.status; msg = e.msg
            except Unsupported as e: end = 'unsupported'; msg = str(e)
            self.st.paths += 1
            self.st.ends[end] = self.st.ends.get(end, 0) + 1
            if end == 'error':
                kind = 'memory'
                try: self.record(s, 'error: ' + msg, [], kind)
                except Unsupported: pass
            if end == 'unsupported':
                self.st.unsupported[msg] = self.st.unsupported.get(msg, 0) + 1
                if 'trace' in self.__dict__: print('UNSUP', msg, [f.fn.name for f in s.frames])
            if end == 'budget': self.complete = False
            if end == 'ok' and not self.__dict__.get('witness'):
                r, m = self.check(s, [])
                if r == z3.sat: self.witness = self.extract(m, s)
        return self

    def run_path(self, st):
        H = self.H; n = 0; S = self.st
        try:
            while True:
                f = st.frames[-1]
                ins = f.block[f.ip]
                f.ip += 1
                n += 1
                if n & 4095 == 0:
                    st.steps += 4096
                    if st.steps > self.max_steps: raise PathEnd('budget', 'steps')
                    if time.time() > self.deadline: raise PathEnd('budget', 'time')
                H[ins.op](st, f, ins)
        except StopIteration:
            pass
        finally:
            S.instr += n

    def jump(self, st, f, lab):
        fn = f.fn
        phis = fn.phis[lab]
        if phis:
            old = f.label
            vals = [self.val(st, f, p.a[old]) for p in phis]
            for p, v in zip(phis, vals): f.regs[p.dst] = v
        f.prev = f.label; f.label = lab; f.block = fn.blocks[lab]; f.ip = 0
    def x_jmp(self, st, f, i): self.jump(st, f, i.a)
    def x_br(self, st, f, i):
        c, a, b = i.a
        v = self.val(st, f, c)
        if isinstance(v, int): return self.jump(st, f, a if v & 1 else b)
        if v is UNDEF: raise PathEnd('error', 'branch on uninitialised value in ' + f.fn.name)
        v = self.tobool(v)
        v = z3.simplify(v)
        if z3.is_true(v): return self.jump(st, f, a)
        if z3.is_false(v): return self.jump(st, f, b)
        nv = z3.Not(v)
        # use cached model to learn one feasible side
        t = self.feas2(st, v, nv)
        if t == (True, True):
            self.st.forks += 1
            n = st.fork()
            mt, mf = st.notes.pop('mt', None), st.notes.pop('mf', None)
            n.notes.pop('mt', None); n.notes.pop('mf', None)
            n.pc.append(nv); n.model = mf
            st.pc.append(v); st.model = mt
            self.jump(n, n.frames[-1], b)
            self.work.append(n)
            self.jump(st, f, a)
        elif t[0]: self.jump(st, f, a)
        elif t[1]: self.jump(st, f, b)
        else: raise PathEnd('infeasible', '')
    def feas2(self, st, v, nv):
        mt = mf = None
        if st.model is not None:
            e = st.model.eval(v, model_completion=True)
            if z3.is_true(e): mt = st.model
            elif z3.is_false(e): mf = st.model
        ft = mt is not None; ff = mf is not None
        if not ft:
            r, m = self.check(st, [v])
            if r == z3.unknown: r, m = self.hard_check(st.pc + [v])
            ft = r != z3.unsat; mt = m
        if not ff:
            if not ft: ff = True; mf = None
            else:
                r, m = self.check(st, [nv])
                if r == z3.unknown: r, m = self.hard_check(st.pc + [nv])
                ff = r != z3.unsat; mf = m
        st.notes['mt'] = mt; st.notes['mf'] = mf
        return ft, ff
    def x_switch(self, st, f, i):
        a, d, cases = i.a
        v = self.val(st, f, a)
        if isinstance(v, int):
            for c, l in cases:
                if c == v: return self.jump(st, f, l)
            return self.jump(st, f, d)
        if v is UNDEF: raise PathEnd('error', 'switch on uninitialised value')
        w = i.ty[1]
        v = self.concretize(st, self.bv(v, w), w, 'switch')
        for c, l in cases:
            if c == v: return self.jump(st, f, l)
        return self.jump(st, f, d)

    def x_alloca(self, st, f, i):
        n = self.val(st, f, i.a)
        n = self.concretize(st, n, 64, 'alloca size')
        a = self.new_obj(st, max(1, self.m.size(i.ty) * n), 'stack')
        f.allocas.append(a >> BASE_SHIFT)
        f.regs[i.dst] = a
    def x_load(self, st, f, i): f.regs[i.dst] = self.load(st, self.val(st, f, i.a), i.ty)
    def x_store(self, st, f, i):
        self.store(st, self.val(st, f, i.a[1]), self.val(st, f, i.a[0]), i.ty)
    def x_gep(self, st, f, i):
        base, (off, dyn) = i.a
        b = self.val(st, f, base)
        if b is UNDEF: f.regs[i.dst] = UNDEF; return
        if isinstance(b, int):
            r = b + off
        else: r = b + z3.BitVecVal(off & M64, 64) if off else b
        for sc, w, o in dyn:
            v = self.val(st, f, o)
            if isinstance(v, int):
                if v >> (w-1): v -= 1 << w
                if isinstance(r, int): r += v*sc
                else: r = r + z3.BitVecVal((v*sc) & M64, 64)
            elif v is UNDEF: f.regs[i.dst] = UNDEF; return
            else:
                v = self.bv(v, w)
                if w < 64: v = z3.SignExt(64 - w, v)
                if isinstance(r, int): r = z3.BitVecVal(r & M64, 64)
                r = r + v * z3.BitVecVal(sc, 64)
        if isinstance(r, int): r &= M64
        else:
            r = z3.simplify(r)
            if z3.is_bv_value(r): r = r.as_long()
        f.regs[i.dst] = r
    def x_bin(self, st, f, i):
        op, a, b = i.a
        t = self.m.resolve(i.ty)
        x, y = self.val(st, f, a), self.val(st, f, b)
        if t[0] == 'vec':
            f.regs[i.dst] = tuple(self.binop(op, p, q, t[2][1]) for p, q in zip(x, y)); return
        f.regs[i.dst] = self.binop(op, x, y, t[1], st)
    def binop(self, op, a, b, w, st=None):
        if isinstance(a, int) and isinstance(b, int):
            M = (1 << w) - 1
            if op == 'add': return (a + b) & M
            if op == 'sub': return (a - b) & M
            if op == 'mul': return (a * b) & M
            if op == 'and': return a & b
            if op == 'or': return a | b
            if op == 'xor': return a ^ b
            if op == 'shl': return (a << b) & M if b < w else UNDEF
            if op == 'lshr': return a >> b if b < w else UNDEF
            sa = a - (1 << w) if a >> (w-1) else a
            sb = b - (1 << w) if b >> (w-1) else b
            if op == 'ashr': return (sa >> b) & M if b < w else UNDEF
            if b == 0: raise PathEnd('error', 'integer division by zero')
            if op == 'udiv': return a // b
            if op == 'urem': return a % b
            q = abs(sa) // abs(sb); q = q if (sa < 0) == (sb < 0) else -q
            if op == 'sdiv': return q & M
            return (sa - q*sb) & M
        if a is UNDEF or b is UNDEF:
            if op == 'and' and (a == 0 or b == 0): return 0
            if op == 'mul' and (a == 0 or b == 0): return 0
            return UNDEF
        if isinstance(a, Pair) or isinstance(b, Pair):
            if op == 'lshr' and isinstance(a, Pair) and b == 32: return Pair(a.hi, 0)
            raise Unsupported('arith on real bits')
        if isinstance(a, FBits) or isinstance(b, FBits): return self.fbits_op(op, a, b, w)
        if w == 1:
            x, y = self.tobool(a), self.tobool(b)
            if op == 'and': return z3.simplify(z3.And(x, y))
            if op == 'or': return z3.simplify(z3.Or(x, y))
            if op in ('xor', 'add', 'sub'): return z3.simplify(z3.Xor(x, y))
            raise Unsupported('i1 ' + op)
        if isinstance(b, int):
            if b == 0:
                if op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr'): return a
                if op in ('and', 'mul'): return 0
        x, y = self.bv(a, w), self.bv(b, w)
        if op == 'add': r = x + y
        elif op == 'sub': r = x - y
        elif op == 'mul': r = x * y
        elif op == 'and': r = x & y
        elif op == 'or': r = x | y
        elif op == 'xor': r = x ^ y
        elif op == 'shl': r = x << y
        elif op == 'lshr': r = z3.LShR(x, y)
        elif op == 'ashr': r = x >> y
        elif op == 'udiv': r = z3.UDiv(x, y)
        elif op == 'urem': r = z3.URem(x, y)
        elif op == 'sdiv': r = x / y
        elif op == 'srem': r = z3.SRem(x, y)
        else: raise Unsupported(op)
        r = z3.simplify(r)
        if z3.is_bv_value(r): return r.as_long()
        return r
    def fbits_op(self, op, a, b, w):
        if isinstance(b, FBits) and not isinstance(a, FBits): a, b = b, a
        sign = 1 << (w-1)
        if isinstance(a, FBits) and isinstance(b, int):
            if op == 'and' and b == sign - 1: return FBits(self.dom.call('fabs', [a.v], w), w)
            if op == 'xor' and b == sign: return FBits(self.dom.neg(a.v), w)
            if op == 'or' and b == sign: return FBits(self.dom.neg(self.dom.call('fabs', [a.v], w)), w)
            if op == 'and' and b == sign:
                return z3.If(a.v < 0, z3.BitVecVal(sign, w), z3.BitVecVal(0, w))
            if op in ('lshr',) and b == w-1: return z3.If(a.v < 0, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
        raise Unsupported('bit operation on symbolic real')
    def x_icmp(self, st, f, i):
        pred, a, b = i.a
        t = self.m.resolve(i.ty)
        x, y = self.val(st, f, a), self.val(st, f, b)
        w = t[1] if t[0] == 'i' else 64
        f.regs[i.dst] = self.icmp(pred, x, y, w)
    def icmp(self, pred, x, y, w):
        if isinstance(x, int) and isinstance(y, int):
            if pred[0] == 's':
                if x >> (w-1): x -= 1 << w
                if y >> (w-1): y -= 1 << w
            if pred == 'eq': return int(x == y)
            if pred == 'ne': return int(x != y)
            p = pred[1:]
            return int(x < y if p == 'lt' else x <= y if p == 'le' else x > y if p == 'gt' else x >= y)
        if x is UNDEF or y is UNDEF: return UNDEF
        if isinstance(x, FBits) or isinstance(y, FBits):
            if isinstance(x, FBits) and isinstance(y, int):
                if pred == 'slt' and y == 0: return x.v < 0
                if pred == 'sgt' and y == (1 << w) - 1: return x.v >= 0
                if pred == 'sge' and y == 0: return x.v >= 0
                if pred == 'eq' and y == 0: return x.v == 0
                if pred == 'ne' and y == 0: return x.v != 0
            raise Unsupported('icmp on real bits')
        if w == 1:
            x, y = self.tobool(x), self.tobool(y)
            if pred == 'eq': return z3.simplify(x == y)
            if pred == 'ne': return z3.simplify(x != y)
            x = z3.If(x, z3.BitVecVal(1,1), z3.BitVecVal(0,1)); y = z3.If(y, z3.BitVecVal(1,1), z3.BitVecVal(0,1))
        x, y = self.bv(x, w), self.bv(y, w)
        r = {'eq': lambda: x == y, 'ne': lambda: x != y, 'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y), 'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y),
             'slt': lambda: x < y, 'sle': lambda: x <= y, 'sgt': lambda: x > y, 'sge': lambda: x >= y}[pred]()
        r = z3.simplify(r)
        if z3.is_true(r): return 1
        if z3.is_false(r): return 0
        return r
    def fw(self, t): return 64 if t[0] in ('f64', 'f80') else 32
    def x_fcmp(self, st, f, i):
        pred, a, b = i.a
        x, y = self.val(st, f, a), self.val(st, f, b)
        if x is UNDEF or y is UNDEF: f.regs[i.dst] = UNDEF; return
        r = self.dom.cmp(pred, x, y)
        f.regs[i.dst] = r
    def x_fbin(self, st, f, i):
        op, a, b = i.a
        x, y = self.val(st, f, a), self.val(st, f, b)
        t = self.m.resolve(i.ty)
        if t[0] == 'vec':
            f.regs[i.dst] = tuple(UNDEF if p is UNDEF or q is UNDEF else self.dom.bin(op, p, q, self.fw(t[2])) for p, q in zip(x, y)); return
        if x is UNDEF or y is UNDEF: f.regs[i.dst] = UNDEF; return
        if op == 'fdiv' and self.dom.name == 'real' and self.dom.is_sym(y): self.dom.nonzero = lambda b: self.check(st, [b == 0])[0] == z3.unsat
        f.regs[i.dst] = self.dom.bin(op, x, y, self.fw(t))
        self.dom.nonzero = None
    def x_fneg(self, st, f, i):
        x = self.val(st, f, i.a)
        if isinstance(x, tuple): f.regs[i.dst] = tuple(self.dom.neg(p) for p in x); return
        f.regs[i.dst] = UNDEF if x is UNDEF else self.dom.neg(x)
    def x_select(self, st, f, i):
        c, a, b = i.a
        v = self.val(st, f, c)
        x, y = self.val(st, f, a), self.val(st, f, b)
        if isinstance(v, int): f.regs[i.dst] = x if v & 1 else y; return
        if v is UNDEF: f.regs[i.dst] = UNDEF; return
        v = z3.simplify(self.tobool(v))
        if z3.is_true(v): f.regs[i.dst] = x; return
        if z3.is_false(v): f.regs[i.dst] = y; return
        t = self.m.resolve(i.ty)
        if isinstance(x, (tuple, FBits)) or isinstance(y, (tuple, FBits)) or x is UNDEF or y is UNDEF or t[0] == 'ptr' or (t[0] in ('f64','f32') and any(isinstance(q, float) and not math.isfinite(q) for q in (x, y))):
            # fork
            if isinstance(x, int) and isinstance(y, int) and x == y: f.regs[i.dst] = x; return
            if t == ('i', 1) or t[0]=='i':
                if x is UNDEF: f.regs[i.dst] = y; return
                if y is UNDEF: f.regs[i.dst] = x; return
            nv = z3.Not(v)
            ft, ff = self.feas2(st, v, nv)
            st.notes.pop('mt', None); st.notes.pop('mf', None)
            if ft and ff:
                n = self.reexec_fork(st); n.pc.append(nv); n.model = None; self.work.append(n)
                self.add_pc(st, v); f.regs[i.dst] = x
            else: f.regs[i.dst] = x if ft else y
            # siblings re-evaluate the select under the added constraint
            return
        f.regs[i.dst] = self.mkite(v, x, y, t)
    def x_cast(self, st, f, i):
        op, t, a = i.a
        v = self.val(st, f, a)
        f.regs[i.dst] = self.cast(st, op, self.m.resolve(t), v, self.m.resolve(i.ty))
    def cast(self, st, op, t, v, d):
        if v is UNDEF: return UNDEF
        if op in ('ptrtoint', 'inttoptr'): return v
        if op == 'bitcast':
            if t == d: return v
            return self.to_type(v, d)
        if op == 'trunc':
            if isinstance(v, int): return v & ((1 << d[1]) - 1)
            if isinstance(v, FBits): raise Unsupported('trunc of real bits')
            if isinstance(v, Pair):
                if d[1] == 32: return self.to_type(v.lo, d)
                raise Unsupported('trunc of real bits')
            if v is UNDEF: return UNDEF
            if d[1] == 1: return z3.simplify(z3.Extract(0, 0, self.bv(v, t[1])) == 1)
            r = z3.simplify(z3.Extract(d[1]-1, 0, v)); return r.as_long() if z3.is_bv_value(r) else r
        if op == 'zext':
            if isinstance(v, int): return v
            if isinstance(v, z3.BoolRef): return self.bv(v, d[1])
            return z3.simplify(z3.ZeroExt(d[1] - t[1], v))
        if op == 'sext':
            if isinstance(v, int):
                if v >> (t[1]-1): v |= ((1 << d[1]) - 1) ^ ((1 << t[1]) - 1)
                return v
            if isinstance(v, z3.BoolRef): return z3.If(v, z3.BitVecVal((1 << d[1]) - 1, d[1]), z3.BitVecVal(0, d[1]))
            return z3.simplify(z3.SignExt(d[1] - t[1], v))
        if op in ('fpext', 'fptrunc'): return self.dom.cast_w(v, self.fw(d))
        if op in ('sitofp', 'uitofp'):
            if isinstance(v, z3.BoolRef):
                one = -1.0 if op == 'sitofp' else 1.0
                return self.dom.ite(v, one, 0.0)
            r = self.dom.from_int(v, t[1], op == 'sitofp')
            return f32(r) if isinstance(r, float) and d[0] == 'f32' else r
        if op in ('fptosi', 'fptoui'): return self.dom.to_int(v, d[1], op == 'fptosi')
        raise Unsupported('cast ' + op)
    def x_extractvalue(self, st, f, i):
        v = self.val(st, f, i.a[0])
        for k in i.a[1]: v = v[k] if v is not UNDEF else UNDEF
        f.regs[i.dst] = v
    def x_insertvalue(self, st, f, i):
        v = self.val(st, f, i.a[0]); e = self.val(st, f, i.a[1])
        def ins(v, ix):
            if not ix: return e
            l = list(v); l[ix[0]] = ins(l[ix[0]], ix[1:]); return tuple(l)
        if v is UNDEF: v = self.undef(i.ty)
        f.regs[i.dst] = ins(v, i.a[2])
    def x_extractelement(self, st, f, i):
        v = self.val(st, f, i.a[0]); k = self.val(st, f, i.a[1]); f.regs[i.dst] = v[k]
    def x_insertelement(self, st, f, i):
        v, e, k = (self.val(st, f, x) for x in i.a)
        if v is UNDEF: v = self.undef(i.ty)
        l = list(v); l[k] = e; f.regs[i.dst] = tuple(l)
    def x_shufflevector(self, st, f, i):
        a, b, mt, mk = i.a
        x, y = self.val(st, f, a), self.val(st, f, b); m = self.val(st, f, mk)
        n = self.m.resolve(i.ty)[1]
        if x is UNDEF: x = (UNDEF,)*n
        if y is UNDEF: y = (UNDEF,)*n
        z = tuple(x) + tuple(y)
        f.regs[i.dst] = tuple(UNDEF if k is UNDEF else z[k] for k in m)
    def x_freeze(self, st, f, i):
        v = self.val(st, f, i.a)
        f.regs[i.dst] = v
    def x_unreachable(self, st, f, i): raise PathEnd('error', 'unreachable executed in ' + f.fn.name)
    def x_unsupported(self, st, f, i): raise Unsupported(i.a)
    def pop_frame(self, st):
        f = st.frames.pop()
        for a in f.allocas:
            st.mem.pop(a, None)
        return f
    def x_ret(self, st, f, i):
        v = None if i.a is None else self.val(st, f, i.a)
        fr = self.pop_frame(st)
        if not st.frames: raise StopIteration
        c = st.frames[-1]
        if fr.ret_dst is not None: c.regs[fr.ret_dst] = v
        if fr.normal is not None: self.jump(st, c, fr.normal)
    def x_call(self, st, f, i):
        callee, args, normal, unwind = i.a
        if callee[0] == 'g': name = callee[1]
        else:
            p = self.val(st, f, callee)
            if not isinstance(p, int): p = self.concretize(st, p, 64, 'function pointer') if p is not UNDEF else 0
            name = self.addrf.get(p)
            if name is None: raise PathEnd('error', 'call through invalid function pointer')
        while name in self.m.aliases: name = self.m.alias_target(name)
        model = self.callcache.get(name)
        if model is None:
            model = self.lookup(name); self.callcache[name] = model
        av = []
        for t, a in args:
            v = self.val(st, f, a)
            if t[0] == 'byval':
                n = self.m.size(t[1]); p = self.new_obj(st, n, 'stack'); f.allocas.append(p >> BASE_SHIFT)
                self.memcpy(st, p, v, n); v = p
            av.append(v)
        if model is True:
            st.frames.append(self.new_frame(name, av, i.dst, normal, unwind))
            if len(st.frames) > 400: raise PathEnd('error', 'stack overflow (recursion)')
            return
        r = model(st, f, i, av)
        if r is self.UNWOUND: return
        if i.dst is not None: f.regs[i.dst] = r
        if normal is not None: self.jump(st, f, normal)
    UNWOUND = object()

    def lookup(self, name):
        if name in self.m.fn_src and not name.startswith('_ZNSt12out_of_range') : return True
        if name in MODELS: return MODELS[name].__get__(self)
        m = FCLASS.match(name)
        if m:
            fn = {'maxnum': 'fmax', 'minnum': 'fmin', 'roundeven': 'rint'}.get(m.group(1), m.group(1)); w = 64 if m.group(2) == 'f64' else 32
            return lambda st, f, i, a: self.libm(st, fn, a, w)
        if name in LIBM1 or name in LIBM2: return lambda st, f, i, a: self.libm(st, name, a, 64)
        if name[-1:] == 'f' and (name[:-1] in LIBM1 or name[:-1] in LIBM2): return lambda st, f, i, a: self.libm(st, name[:-1], a, 32)
        for p, fn in PATTERNS:
            if re.match(p, name): return fn.__get__(self)
        def uns(st, f, i, a): raise Unsupported('external function ' + name)
        return uns
    def libm(self, st, fn, a, w):
        if any(x is UNDEF for x in a): return UNDEF
        if fn == 'fmuladd': return self.dom.bin('fadd', self.dom.bin('fmul', a[0], a[1], w), a[2], w)   # not fused on the baseline target
        if fn in ('fmod', 'remainder') and self.dom.name == 'real': self.dom.nonzero = lambda b: self.check(st, [b == 0])[0] == z3.unsat
        if self.dom.name == 'real':
            if fn == 'hypot':       # hypot(x, 0) = |x|
                for x, y in (a, a[::-1]):
                    if isinstance(y, float) and y == 0 and self.dom.is_sym(x): return x if self.fork_bool(st, x >= 0) else self.dom.neg(x)
            if fn == 'atan2' and isinstance(a[0], float) and a[0] == 0 and self.dom.is_sym(a[1]): return a[0] if self.fork_bool(st, a[1] >= 0) else math.copysign(math.pi, a[0])
        r = self.dom.call(fn, a, w, st)
        self.dom.nonzero = None
        return r

    def fork_bool(self, st, cond):
        """decide a z3 Bool by forking at the current instruction (re-execution in the sibling)"""
        c = z3.simplify(cond)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        ft, ff = self.feas2(st, c, z3.Not(c)); st.notes.pop('mt', None); st.notes.pop('mf', None)
        if ft and ff:
            n = self.reexec_fork(st); n.pc.append(z3.Not(c)); self.work.append(n)
            self.add_pc(st, c); return True
        return ft

    # ------------------------------------------------------------ exceptions
    def typename(self, a):
        for g, ad in self.gaddr.items():
            if ad == a: return g
        return hex(a)
    def ti_bases(self, st, a):
        """typeinfo address -> set of typeinfo names incl. bases"""
        name = self.typename(a); out = [name]
        seen = set()
        while name and name not in seen:
            seen.add(name)
            nxt = EXT_TI.get(name)
            if nxt is None and name in self.m.globals:
                t, init, tls, ext = self.m.global_info(name)
                if init is not None and init[0] == 'agg' and len(init[1]) >= 3 and init[1][2][0] == 'g': nxt = init[1][2][1]
            if nxt is None: break
            out.append(nxt); name = nxt
        return out
    def match_clauses(self, st, lp, ti):
        """returns (selector or None, is_cleanup)"""
        cleanup, clauses = lp.a
        names = self.ti_bases(st, ti)
        for kind, c in clauses:
            if kind == 'catch':
                if c == ('c', 0): return self.typeid(0), cleanup
                if c[1] in names: return self.typeid(self.gaddress(st, c[1])), cleanup
            elif kind == 'filter':
                return -1 & MASK32, cleanup   # throw() specification
        return None, cleanup
    def typeid(self, a):
        return self.typeids.setdefault(a, len(self.typeids) + 1)
    def throw(self, st, ptr, ti):
        # search phase
        handler = None
        for k in range(len(st.frames) - 1, -1, -1):
            uw = st.frames[k + 1].unwind if k + 1 < len(st.frames) else self.cur_unwind
            if uw is not None:
                fr = st.frames[k]
                lp = fr.fn.blocks[uw][0]
                assert lp.op == 'landingpad', lp
                sel, cl = self.match_clauses(st, lp, ti)
                if sel is not None: handler = k; break
        if handler is None:
            raise PathEnd('error', 'uncaught exception %s' % self.typename(ti))
        st.exc = (ptr, ti)
        self.unwind(st, self.cur_unwind)
    def unwind(self, st, uw):
        """second phase: go to the innermost landing pad"""
        ptr, ti = st.exc
        while True:
            if uw is not None:
                fr = st.frames[-1]
                lp = fr.fn.blocks[uw][0]
                sel, cl = self.match_clauses(st, lp, ti)
                if sel is not None or cl:
                    phis = fr.fn.phis[uw]
                    self.jump(st, fr, uw)
                    fr.regs[lp.dst] = (ptr, sel or 0)
                    fr.ip = 1
                    return
            f = self.pop_frame(st)
            uw = f.unwind
            if not st.frames: raise PathEnd('error', 'uncaught exception %s' % self.typename(ti))
    def x_landingpad(self, st, f, i): raise PathEnd('error', 'landingpad reached normally')
    def x_resume(self, st, f, i):
        fr = self.pop_frame(st)
        if not st.frames: raise PathEnd('error', 'uncaught exception')
        self.unwind(st, fr.unwind)

    # ------------------------------------------------------------ memory intrinsics
    def memcpy(self, st, d, s, n):
        if n == 0: return
        if not isinstance(d, int): d = self.concretize(st, d, 64, 'memcpy dst')
        if not isinstance(s, int): s = self.concretize(st, s, 64, 'memcpy src')
        so, soff = self.find(st, s, n, 'memcpy read'); do, doff = self.find(st, d, n, 'memcpy write')
        cells = []
        if n <= 4096 or len(so.cells) > n:
            k = soff - 15
            while k < soff + n:
                c = so.cells.get(k)
                if c is not None and k + c[0] > soff:
                    if k >= soff and k + c[0] <= soff + n: cells.append((k - soff, c[0], c[1]))
                    else:
                        bs = self.bytes_of(c[1], c[0])
                        for j, b in enumerate(bs):
                            if soff <= k + j < soff + n: cells.append((k + j - soff, 1, b))
                k += 1
        else:
            for k, c in list(so.cells.items()):
                if k >= soff and k + c[0] <= soff + n: cells.append((k - soff, c[0], c[1]))
                elif k + c[0] > soff and k < soff + n:
                    for j, b in enumerate(self.bytes_of(c[1], c[0])):
                        if soff <= k + j < soff + n: cells.append((k + j - soff, 1, b))
        do = self.wobj(st, do.id)
        self.clear_range(do, doff, n)
        if so.fill is not None:
            covered = set()
            for o, sz, v in cells: covered.update(range(o, o + sz))
            for o in range(n):
                if o not in covered: do.cells[doff + o] = (1, so.fill)
        for o, sz, v in cells: do.cells[doff + o] = (sz, v)
    def clear_range(self, o, off, n):
        if n > 8 * len(o.cells):
            ks = [k for k, c in o.cells.items() if k < off + n and k + c[0] > off]
        else: ks = [k for k in range(off - 15, off + n) if k in o.cells and k + o.cells[k][0] > off]
        for k in ks:
            c = o.cells.pop(k)
            if k < off or k + c[0] > off + n:
                for j, b in enumerate(self.bytes_of(c[1], c[0])):
                    if k + j < off or k + j >= off + n: o.cells[k + j] = (1, b)
        if o.fill is not None:
            raise Unsupported('partial overwrite of filled object') if n < o.size and n > 65536 else None
    def memset(self, st, d, v, n):
        if n == 0: return
        if not isinstance(d, int): d = self.concretize(st, d, 64, 'memset dst')
        o, off = self.find(st, d, n, 'memset')
        o = self.wobj(st, o.id)
        if off == 0 and n == o.size and n > 512:
            o.cells = {}; o.fill = v & 255; return
        f, o.fill = o.fill, None
        self.clear_range(o, off, n)
        o.fill = f
        k = 0; v &= 255
        while k < n:
            if (off + k) % 8 == 0 and n - k >= 8: o.cells[off + k] = (8, int.from_bytes(bytes([v])*8, 'little')); k += 8
            elif (off + k) % 4 == 0 and n - k >= 4: o.cells[off + k] = (4, int.from_bytes(bytes([v])*4, 'little')); k += 4
            else: o.cells[off + k] = (1, v); k += 1
    def cstr(self, st, a):
        s = b''
        while True:
            v = self.load(st, a, ('i', 8))
            if not isinstance(v, int) or v == 0: break
            s += bytes([v]); a += 1
        return s.decode('latin1')
    def heap_alloc(self, st, n, kind='heap'):
        st.heap += 1
        return self.new_obj(st, n, kind)
    def heap_free(self, st, p, kind):
        if p == 0: return
        if not isinstance(p, int): p = self.concretize(st, p, 64, 'free')
        o = st.mem.get(p >> BASE_SHIFT)
        if o is None or p & MASK32: raise PathEnd('error', 'invalid free')
        if not o.alive: raise PathEnd('error', 'double free')
        if o.kind != kind: raise PathEnd('error', 'mismatched deallocation (%s freed as %s)' % (o.kind, kind))
        o = self.wobj(st, o.id); o.alive = False; o.cells = {}
        st.heap -= 1

EXT_TI = {'_ZTISt13runtime_error': '_ZTISt9exception', '_ZTISt11logic_error': '_ZTISt9exception', '_ZTISt12out_of_range': '_ZTISt11logic_error',
  '_ZTISt12length_error': '_ZTISt11logic_error', '_ZTISt9bad_alloc': '_ZTISt9exception', '_ZTISt20bad_array_new_length': '_ZTISt9bad_alloc'}

MODELS = {}
PATTERNS = []
def model(*names):
    def d(f):
        for n in names: MODELS[n] = f
        return f
    return d
def pattern(p):
    def d(f): PATTERNS.append((p, f)); return f
    return d

from models import register
register(sys.modules[__name__])
