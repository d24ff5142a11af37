"""Parser for textual LLVM IR (LLVM 18, opaque pointers). Functions are decoded lazily."""
import re, struct

class IRError(Exception): pass

TOK = re.compile(r'''\s*(?:
  (?P<str>c?"(?:[^"])*")
 |(?P<loc>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 |(?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 |(?P<meta>![-a-zA-Z$._0-9]*)
 |(?P<attr>\#[0-9]+)
 |(?P<num>-?(?:0x[KMLHR]?[0-9A-Fa-f]+|[0-9]+\.[0-9]*(?:[eE][-+]?[0-9]+)?|[0-9]+))
 |(?P<word>[a-zA-Z_$.][-a-zA-Z0-9_$.]*)
 |(?P<dots>\.\.\.)
 |(?P<punc>[=,(){}\[\]<>*:|])
)''', re.X)

def tokenize(s):
    out = []; i = 0; n = len(s)
    m = TOK.match
    while i < n:
        mo = m(s, i)
        if not mo:
            if s[i:].strip() == '' or s[i:].lstrip().startswith(';'): break
            raise IRError('tok: ' + s[i:i+60])
        out.append((mo.lastgroup, mo.group(mo.lastgroup)))
        i = mo.end()
        # comments
    return out

VOID=('void',); PTR=('ptr',); F64=('f64',); F32=('f32',); LABEL=('label',); META=('metadata',); F80=('f80',)

CASTS = {'trunc','zext','sext','fptrunc','fpext','fptoui','fptosi','uitofp','sitofp','ptrtoint','inttoptr','bitcast','addrspacecast'}
BINOPS = {'add','sub','mul','udiv','sdiv','urem','srem','shl','lshr','ashr','and','or','xor'}
FBIN = {'fadd','fsub','fmul','fdiv','frem'}
VALWORDS = {'null','undef','poison','true','false','zeroinitializer','none','getelementptr','asm','blockaddress','splat','icmp','select'} | CASTS | BINOPS

class Module:
    def __init__(self, text):
        self.types = {}; self.fn_src = {}; self.fn_cache = {}; self.globals = {}; self.decls = {}; self.aliases = {}
        self._layout = {}
        lines = text.split('\n'); i = 0; n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('define'):
                j = i
                while lines[j] != '}': j += 1
                name = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', l).group(1).strip('"')
                self.fn_src[name] = (i, j)
                i = j + 1; continue
            if l.startswith('declare'):
                name = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', l).group(1).strip('"')
                self.decls[name] = l
            elif l.startswith('%'):
                k, _, v = l.partition(' = type ')
                self.types[k] = v
            elif l.startswith('@'):
                k, _, v = l.partition(' = ')
                k = k[1:].strip('"')
                if re.search(r'\balias\b', v.split('{')[0].split('"')[0]): self.aliases[k] = v
                else: self.globals[k] = v
            i += 1
        self.lines = lines
        self._tcache = {}

    # ---- types
    def named(self, name):
        t = self._tcache.get(name)
        if t is None:
            src = self.types[name]
            if src.startswith('opaque'): t = ('struct', (), False)
            else: t = P(self, tokenize(src)).type()
            self._tcache[name] = t
        return t

    def size(self, t): return self.layout(t)[0]
    def align(self, t): return self.layout(t)[1]
    def layout(self, t):
        r = self._layout.get(t)
        if r is not None: return r
        k = t[0]
        if k == 'i':
            w = t[1]; s = 1
            while s*8 < w: s *= 2
            r = (s, min(s, 16) , None)
        elif k == 'ptr' or k == 'f64': r = (8,8,None)
        elif k == 'f32': r = (4,4,None)
        elif k == 'f80': r = (16,16,None)
        elif k == 'arr':
            s,a,_ = self.layout(t[2]); r = (s*t[1], a, None)
        elif k == 'vec':
            s,a,_ = self.layout(t[2]); r = (s*t[1], s*t[1], None)
        elif k == 'struct':
            off = 0; al = 1; offs = []
            for e in t[1]:
                s,a,_ = self.layout(e)
                if not t[2]:
                    off = (off + a - 1)//a*a
                    al = max(al, a)
                offs.append(off); off += s
            off = (off + al - 1)//al*al
            r = (off, al, tuple(offs))
        elif k == 'named':
            r = self.layout(self.named(t[1]))
        else: raise IRError('size of %r' % (t,))
        self._layout[t] = r
        return r
    def resolve(self, t):
        while t[0] == 'named': t = self.named(t[1])
        return t

    def alias_target(self, name):
        v = self.aliases[name]
        m = re.search(r'ptr @("[^"]*"|[-a-zA-Z$._0-9]+)\s*(,.*)?$', v)
        if not m: raise IRError('alias ' + v)
        return m.group(1).strip('"')

    def function(self, name):
        f = self.fn_cache.get(name)
        if f is None:
            f = Function(self, name)
            self.fn_cache[name] = f
        return f

    def global_info(self, name):
        """returns (type, init_tokens or None, is_tls, is_external)"""
        v = self.globals[name]
        toks = tokenize(v)
        p = P(self, toks)
        tls = False; ext = False
        while True:
            k, w = p.peek()
            if w in ('global', 'constant'):
                p.next(); break
            if w == 'thread_local':
                tls = True
                p.next()
                if p.peek()[1] == '(': p.parens()
                continue
            if w in ('external', 'extern_weak'): ext = True
            p.next()
            if w == 'addrspace': p.parens()
        t = p.type()
        if ext: return (t, None, tls, True)
        c = p.const(t)
        return (t, c, tls, False)

class P:
    """token-stream parser"""
    def __init__(self, mod, toks):
        self.m = mod; self.t = toks; self.i = 0
    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else ('eof', None)
    def next(self):
        x = self.t[self.i]; self.i += 1; return x
    def accept(self, w):
        if self.i < len(self.t) and self.t[self.i][1] == w:
            self.i += 1; return True
        return False
    def expect(self, w):
        x = self.next()
        if x[1] != w: raise IRError('expected %s got %s in %s' % (w, x[1], ' '.join(str(a[1]) for a in self.t)))
    def parens(self):
        self.expect('('); d = 1
        while d:
            w = self.next()[1]
            if w == '(': d += 1
            elif w == ')': d -= 1
    def type(self):
        k, w = self.next()
        if k == 'word':
            if w[0] == 'i' and w[1:].isdigit(): t = ('i', int(w[1:]))
            elif w == 'ptr': t = PTR
            elif w == 'double': t = F64
            elif w == 'float': t = F32
            elif w == 'void': t = VOID
            elif w == 'label': t = LABEL
            elif w == 'metadata': t = META
            elif w == 'x86_fp80': t = F80
            elif w == 'half': t = ('f16',)
            elif w == 'token': t = ('token',)
            else: raise IRError('type word ' + w)
        elif k == 'loc': t = ('named', w)
        elif w == '[':
            n = int(self.next()[1]); self.expect('x'); e = self.type(); self.expect(']'); t = ('arr', n, e)
        elif w == '{':
            t = ('struct', self._fields('}'), False)
        elif w == '<':
            if self.peek()[1] == '{':
                self.next(); t = ('struct', self._fields('}'), True); self.expect('>')
            else:
                n = int(self.next()[1]); self.expect('x'); e = self.type(); self.expect('>'); t = ('vec', n, e)
        else: raise IRError('type %s' % w)
        # function type suffix
        while self.peek()[1] == '(' :
            self.parens(); t = ('fn', t)
        if self.peek()[1] == 'addrspace':
            self.next(); self.parens()
        return t
    def _fields(self, end):
        fs = []
        if self.accept(end): return ()
        while True:
            fs.append(self.type())
            if self.accept(end): return tuple(fs)
            self.expect(',')
    def skip_attrs(self):
        while True:
            k, w = self.peek()
            if k == 'word' and w not in VALWORDS:
                self.next()
                if w == 'align' and self.peek()[0] == 'num': self.next()
                elif self.peek()[1] == '(': self.parens()
            elif k == 'attr': self.next()
            else: return
    def const(self, t):
        """parse a value of type t; returns operand: ('r',name) | ('c', const)"""
        k, w = self.next()
        if k == 'loc': return ('r', w)
        rt = self.m.resolve(t)
        if k == 'num':
            if rt[0] == 'i': return ('c', int(w) & ((1 << rt[1]) - 1))
            if rt[0] in ('f64', 'f32'):
                if w.startswith('0x'): return ('c', struct.unpack('>d', int(w[2:],16).to_bytes(8,'big'))[0])
                return ('c', float(w))
            if rt[0] == 'f80':
                b = int(w[3:], 16) if w.startswith('0xK') else None
                if b is None: return ('c', float(w))
                e = (b >> 64) & 0x7fff; m = b & ((1<<64)-1); s = -1.0 if b >> 79 else 1.0
                return ('c', s * m * 2.0**(e-16383-63) if e != 0x7fff else s*float('inf'))
            raise IRError('num for %r' % (t,))
        if k == 'glob': return ('g', w[1:].strip('"'))
        if k == 'str':
            s = w[2:-1] if w[0]=='c' else w[1:-1]
            bs = []; i = 0
            while i < len(s):
                if s[i] == '\\':
                    if s[i+1] == '\\': bs.append(92); i += 2
                    else: bs.append(int(s[i+1:i+3],16)); i += 3
                else: bs.append(ord(s[i])); i += 1
            return ('agg', tuple(('c', b) for b in bs))
        if w == 'null': return ('c', 0)
        if w == 'true': return ('c', 1)
        if w == 'false': return ('c', 0)
        if w == 'none': return ('c', None)
        if w in ('undef','poison'): return ('undef', t)
        if w == 'zeroinitializer': return ('zero', t)
        if w in ('{','[','<'):
            close = {'{':'}','[':']','<':'>'}[w]
            packed = False
            if w == '<' and self.peek()[1] == '{':
                self.next(); close='}'; packed = True
            es = []
            if not self.accept(close):
                while True:
                    et = self.type(); self.skip_attrs()
                    es.append(self.const(et))
                    if self.accept(close): break
                    self.expect(',')
            if packed: self.expect('>')
            return ('agg', tuple(es))
        if w == 'getelementptr':
            while self.peek()[1] in ('inbounds','nuw','nusw','inrange'):
                self.next()
                if self.peek()[1] == '(' and self.peek(1)[0]=='num': self.parens()
            self.expect('(')
            bt = self.type(); self.expect(',')
            ops = []
            while True:
                if self.peek()[1] == 'inrange':
                    self.next()
                    if self.peek()[1]=='(' : self.parens()
                ot = self.type(); ops.append((ot, self.const(ot)))
                if self.accept(')'): break
                self.expect(',')
            return ('gep', bt, tuple(ops))
        if w in CASTS:
            self.expect('('); st = self.type(); v = self.const(st); self.expect('to'); dt = self.type(); self.expect(')')
            return ('cast', w, st, v, dt)
        if w in BINOPS:
            while self.peek()[1] in ('nuw','nsw','exact','disjoint'): self.next()
            self.expect('('); a = self.type(); x = self.const(a); self.expect(','); b = self.type(); y = self.const(b); self.expect(')')
            return ('bin', w, a, x, y)
        if w == 'splat':
            self.expect('('); a = self.type(); x = self.const(a); self.expect(')')
            return ('agg', (x,)*rt[1])
        raise IRError('const %s %r' % (w, t))

class Ins:
    __slots__ = ('op','dst','a','ty','text')
    def __init__(s, op, dst, ty, a, text): s.op=op; s.dst=dst; s.ty=ty; s.a=a; s.text=text
    def __repr__(s): return s.text.strip()

class Function:
    def __init__(self, mod, name):
        self.m = mod; self.name = name
        i, j = mod.fn_src[name]
        hdr = mod.lines[i]
        toks = tokenize(hdr)
        p = P(mod, toks)
        while p.peek()[0] != 'glob': p.next()
        # return type precedes: find by scanning back is messy; not needed
        p.next(); p.expect('(')
        self.params = []
        self.regidx = {}
        self.nregs = 0
        self.vararg = False
        n = 0
        if not p.accept(')'):
            while True:
                if p.peek()[1] == '...':
                    p.next(); self.vararg = True
                    p.accept(')'); break
                t = p.type(); byval = False
                while True:
                    k, w = p.peek()
                    if k == 'loc' or w in (',', ')'): break
                    p.next()
                    if w == 'align' and p.peek()[0] == 'num': p.next()
                    elif p.peek()[1] == '(':
                        p.parens()
                    if w == 'byval': byval = True
                if p.peek()[0] == 'loc': nm = p.next()[1]
                else: nm = '%' + str(n)
                n += 1
                self.params.append((self.reg(nm), t))
                if p.accept(')'): break
                p.expect(',')
        rest = hdr[hdr.rfind(')'):]
        self.blocks = {}
        cur = None
        lineno = i + 1
        first = True
        L = mod.lines
        entry_label = None
        k = i + 1
        while k < j:
            l = L[k]
            if not l or l.lstrip().startswith(';'):
                k += 1; continue
            if l[0] != ' ':
                m = re.match(r'("[^"]*"|[-a-zA-Z$._0-9]+):', l)
                lab = '%' + m.group(1)
                cur = []; self.blocks[lab] = cur
                if entry_label is None: entry_label = lab
                k += 1; continue
            if cur is None:
                entry_label = '%' + str(len(self.params)) if True else None
                cur = []; self.blocks[entry_label] = cur
            s = l
            # multi-line: switch, invoke, landingpad
            st = s.lstrip()
            if ('switch ' in st[:9]) and s.rstrip().endswith('['):
                while L[k].strip() != ']':
                    k += 1; s += ' ' + L[k]
            while k + 1 < j and (L[k+1].startswith('          ') ):
                k += 1; s += ' ' + L[k]
            cur.append(self.decode(s))
            k += 1
        self.entry = entry_label
        # split leading phis
        self.phis = {}
        for lab, b in self.blocks.items():
            n = 0
            while n < len(b) and b[n].op == 'phi': n += 1
            if n: self.phis[lab] = b[:n]; self.blocks[lab] = b[n:]
            else: self.phis[lab] = ()

    def reg(self, nm):
        r = self.regidx.get(nm)
        if r is None:
            r = self.nregs; self.regidx[nm] = r; self.nregs += 1
        return r
    def opnd(self, p, t):
        p.skip_attrs()
        c = p.const(t)
        if c[0] == 'r': return ('r', self.reg(c[1]))
        return self.conv(c)
    def conv(self, c):
        if c[0] == 'agg': return ('agg', tuple(self.conv(x) for x in c[1]))
        if c[0] == 'r': return ('r', self.reg(c[1]))
        return c
    def tyval(self, p):
        t = p.type(); return t, self.opnd(p, t)

    def decode(self, s):
        # strip metadata attachments & comments
        q = s.find(', !')
        if q >= 0 and 'metadata' not in s: s2 = s[:q]
        else: s2 = s
        toks = tokenize(s2)
        p = P(self.m, toks)
        dst = None
        if p.peek()[0] == 'loc' and p.peek(1)[1] == '=':
            dst = self.reg(p.next()[1]); p.next()
        k, op = p.next()
        while op in ('tail','musttail','notail'): k, op = p.next()
        I = lambda op, ty, a: Ins(op, dst, ty, a, s)
        if op == 'load':
            while p.peek()[1] in ('volatile','atomic'): p.next()
            t = p.type(); p.expect(','); _, a = self.tyval(p)
            return I('load', t, a)
        if op == 'store':
            while p.peek()[1] in ('volatile','atomic'): p.next()
            t, v = self.tyval(p); p.expect(','); _, a = self.tyval(p)
            return I('store', t, (v, a))
        if op == 'getelementptr':
            while p.peek()[1] in ('inbounds','nuw','nusw'): p.next()
            bt = p.type(); p.expect(',')
            _, base = self.tyval(p); idx = []
            while p.accept(','):
                it, iv = self.tyval(p); idx.append((it, iv))
            return I('gep', bt, (base, self.gepplan(bt, idx)))
        if op == 'br':
            if p.peek()[1] == 'label':
                p.next(); return I('jmp', None, p.next()[1])
            _, c = self.tyval(p); p.expect(','); p.expect('label'); a = p.next()[1]; p.expect(','); p.expect('label'); b = p.next()[1]
            return I('br', None, (c, a, b))
        if op == 'icmp' or op == 'fcmp':
            k, pred = p.next()
            while p.peek()[1] in ('fast','nnan','ninf','nsz','arcp','contract','afn','reassoc','samesign'):
                pass
                p.next()
            while pred in ('fast','nnan','ninf','nsz','arcp','contract','afn','reassoc','samesign'): k, pred = p.next()
            t, a = self.tyval(p); p.expect(','); b = self.opnd(p, t)
            return I(op, t, (pred, a, b))
        if op in BINOPS or op in FBIN:
            while p.peek()[1] in ('nuw','nsw','exact','disjoint','fast','nnan','ninf','nsz','arcp','contract','afn','reassoc'): p.next()
            t, a = self.tyval(p); p.expect(','); b = self.opnd(p, t)
            return I('bin' if op in BINOPS else 'fbin', t, (op, a, b))
        if op == 'fneg':
            while p.peek()[1] in ('fast','nnan','ninf','nsz','arcp','contract','afn','reassoc'): p.next()
            t, a = self.tyval(p)
            return I('fneg', t, a)
        if op in CASTS:
            while p.peek()[1] in ('nuw','nsw','nneg'): p.next()
            t, a = self.tyval(p); p.expect('to'); d = p.type()
            return I('cast', d, (op, t, a))
        if op == 'phi':
            while p.peek()[1] in ('fast','nnan','ninf','nsz','arcp','contract','afn','reassoc'): p.next()
            t = p.type(); inc = {}
            while True:
                p.expect('['); v = self.opnd(p, t); p.expect(','); lab = p.next()[1]; p.expect(']')
                inc[lab] = v
                if not p.accept(','): break
            return I('phi', t, inc)
        if op == 'select':
            while p.peek()[1] in ('fast','nnan','ninf','nsz','arcp','contract','afn','reassoc'): p.next()
            ct, c = self.tyval(p); p.expect(','); t, a = self.tyval(p); p.expect(','); _, b = self.tyval(p)
            return I('select', t, (c, a, b))
        if op == 'alloca':
            p.accept('inalloca')
            t = p.type(); cnt = ('c', 1)
            if p.accept(',') and p.peek()[1] != 'align':
                _, cnt = self.tyval(p)
            return I('alloca', t, cnt)
        if op == 'ret':
            t = p.type()
            if t == VOID: return I('ret', t, None)
            return I('ret', t, self.opnd(p, t))
        if op in ('call','invoke'):
            while p.peek()[1] in ('fast','nnan','ninf','nsz','arcp','contract','afn','reassoc','fastcc','ccc','coldcc'): p.next()
            # return attrs then type
            while True:
                k, w = p.peek()
                if k == 'word' and not (w in ('void','double','float','ptr','metadata','x86_fp80','half','token','label') or (w[0]=='i' and w[1:].isdigit())):
                    p.next()
                    if w == 'align' and p.peek()[0]=='num': p.next()
                    elif p.peek()[1] == '(': p.parens()
                else: break
            t = p.type()
            if t[0] == 'fn': t = t[1]
            callee = p.const(PTR)
            if callee[0] == 'r': callee = ('r', self.reg(callee[1]))
            p.expect('(')
            args = []
            if not p.accept(')'):
                while True:
                    at = p.type()
                    if at == META:
                        # skip metadata operand
                        d = 0
                        while True:
                            w = p.peek()[1]
                            if d == 0 and w in (',', ')'): break
                            if w in ('(','{'): d += 1
                            if w in (')','}'): d -= 1
                            p.next()
                        args.append((at, ('c', 0)))
                    else:
                        byval = None
                        j = p.i
                        while p.t[j][0] == 'word' and p.t[j][1] not in VALWORDS and p.t[j][1] != 'byval':
                            j += 1
                            if p.t[j][0] == 'num': j += 1
                            elif p.t[j][1] == '(':
                                d = 0
                                while True:
                                    if p.t[j][1] == '(': d += 1
                                    if p.t[j][1] == ')': d -= 1
                                    j += 1
                                    if d == 0: break
                        if p.t[j][1] == 'byval':
                            pp = P(self.m, p.t); pp.i = j+2; byval = pp.type()
                        v = self.opnd(p, at)
                        args.append((('byval', byval) if byval else at, v))
                    if p.accept(')'): break
                    p.expect(',')
            if op == 'invoke':
                while p.peek()[1] != 'to': p.next()
                p.next(); p.expect('label'); n = p.next()[1]; p.expect('unwind'); p.expect('label'); u = p.next()[1]
                return I('call', t, (callee, tuple(args), n, u))
            return I('call', t, (callee, tuple(args), None, None))
        if op == 'landingpad':
            t = p.type(); cl = []; cleanup = False
            while p.i < len(p.t):
                k, w = p.next()
                if w == 'cleanup': cleanup = True
                elif w in ('catch','filter'):
                    ct = p.type(); cl.append((w, self.conv(p.const(ct))))
            return I('landingpad', t, (cleanup, tuple(cl)))
        if op == 'resume':
            t, a = self.tyval(p); return I('resume', t, a)
        if op == 'unreachable': return I('unreachable', None, None)
        if op == 'switch':
            t, a = self.tyval(p); p.expect(','); p.expect('label'); d = p.next()[1]; p.expect('[')
            cases = []
            while not p.accept(']'):
                ct, cv = self.tyval(p); p.expect(','); p.expect('label'); cases.append((cv[1], p.next()[1]))
            return I('switch', t, (a, d, tuple(cases)))
        if op == 'extractvalue':
            t, a = self.tyval(p); ix = []
            while p.accept(','): ix.append(int(p.next()[1]))
            return I('extractvalue', t, (a, tuple(ix)))
        if op == 'insertvalue':
            t, a = self.tyval(p); p.expect(','); et, e = self.tyval(p); ix = []
            while p.accept(','): ix.append(int(p.next()[1]))
            return I('insertvalue', t, (a, e, tuple(ix)))
        if op == 'extractelement':
            t, a = self.tyval(p); p.expect(','); _, i = self.tyval(p)
            return I('extractelement', t, (a, i))
        if op == 'insertelement':
            t, a = self.tyval(p); p.expect(','); _, e = self.tyval(p); p.expect(','); _, i = self.tyval(p)
            return I('insertelement', t, (a, e, i))
        if op == 'shufflevector':
            t, a = self.tyval(p); p.expect(','); _, b = self.tyval(p); p.expect(','); mt, m = self.tyval(p)
            return I('shufflevector', t, (a, b, mt, m))
        if op == 'freeze':
            t, a = self.tyval(p); return I('freeze', t, a)
        if op in ('atomicrmw','cmpxchg','fence'):
            return I('unsupported', None, op)
        raise IRError('instr ' + s)

    def gepplan(self, bt, idx):
        """returns (const_offset, [(scale, width, operand)...])"""
        m = self.m; off = 0; dyn = []
        t = bt
        for n, (it, iv) in enumerate(idx):
            if n == 0:
                sc = m.size(t)
            else:
                rt = m.resolve(t)
                if rt[0] == 'struct':
                    f = iv[1]; off += m.layout(rt)[2][f]; t = rt[1][f]; continue
                t = rt[2]; sc = m.size(t)
            if iv[0] == 'c':
                v = iv[1]; w = it[1]
                if v >> (w-1): v -= 1 << w
                off += v*sc
            else: dyn.append((sc, it[1], iv))
        return (off, tuple(dyn))
