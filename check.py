#!/opt/veriftools/pyvenv/bin/python3
"""Solver-based check driver:  check.py <property> [quick|thorough] [--only harness-regex]

Compiles the real sources of /repo (working tree) together with the harnesses of the property to LLVM IR,
executes every harness symbolically, decides each obligation with z3, replays counterexamples natively."""
import sys, os, re, json, time, shutil, subprocess, tempfile, multiprocessing, signal, hashlib, traceback
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V + '/symex'); sys.path.insert(0, V)
REPO = os.environ.get('XAD_REPO', '/repo')
LLVM = '/usr/lib/llvm-18/bin/'
CXX = LLVM + 'clang++'
from plan import PLAN

IRFLAGS = ['-O1', '-fno-builtin', '-fno-vectorize', '-fno-slp-vectorize', '-fno-threadsafe-statics', '-ffp-contract=off',
           '-fno-strict-aliasing', '-D_GLIBCXX_ASSERTIONS', '-DSX_SYMBOLIC', '-Xclang', '-disable-lifetime-markers']
NFLAGS = ['-O1', '-ffp-contract=off', '-fno-strict-aliasing', '-D_GLIBCXX_ASSERTIONS', '-fsanitize=address', '-fno-sanitize-recover=all', '-g0']

VARIANTS = {
    'default': dict(reuse=False, defs=[]),
    'reuse': dict(reuse=True, defs=['-DNDEBUG']),
    'chunk': dict(reuse=False, defs=['-DSX_CHUNK=3', '-include', V + '/harness/smallchunk.hpp']),
    'chunk2': dict(reuse=False, defs=['-DSX_CHUNK=2', '-include', V + '/harness/smallchunk.hpp']),
    'chunkreuse': dict(reuse=True, defs=['-DNDEBUG', '-DSX_CHUNK=3', '-include', V + '/harness/smallchunk.hpp']),
    'reusedbg': dict(reuse=True, defs=[]),
    'life': dict(reuse=False, defs=[], raw=True),       # unoptimised, with the lifetimes of temporaries
    'tsan': dict(reuse=False, defs=[], san='thread'),
    'tsanreuse': dict(reuse=True, defs=['-DNDEBUG'], san='thread'),
}

def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, **kw)

def gen_config(d, reuse):
    os.makedirs(d + '/XAD', exist_ok=True)
    out = []
    on = {'XAD_ALLOW_INT_CONVERSION'} | ({'XAD_TAPE_REUSE_SLOTS'} if reuse else set())
    for l in open(REPO + '/src/XAD/Config.hpp.in'):
        m = re.match(r'\s*#cmakedefine(01)?\s+(\w+)(.*)', l)
        if m:
            l = ('#define %s %s\n' % (m.group(2), '1' if m.group(1) else '')) if m.group(2) in on else ('#define %s 0\n' % m.group(2) if m.group(1) else '\n')
        out.append(l)
    open(d + '/XAD/Config.hpp', 'w').write(''.join(out))
    ver = open(REPO + '/src/XAD/Version.hpp.in').read()
    ver = re.sub(r'(?m)^#cmakedefine.*$', '', ver); ver = re.sub(r'@\w*VERSION\w*@', '1', ver); ver = re.sub(r'@\w+@', '1', ver)
    open(d + '/XAD/Version.hpp', 'w').write(ver)

def lib_sources():
    out = []
    for d, _, fs in os.walk(REPO + '/src'): out += [d + '/' + f for f in fs if f.endswith(('.cpp', '.cc', '.cxx'))]
    return sorted(out)

class BuildError(Exception): pass

class Builder:
    def __init__(self, tmp):
        self.tmp = tmp; self.done = {}
        for r in (False, True): gen_config(self.cfg(r), r)
    def cfg(self, r): return self.tmp + ('/cfg_reuse' if r else '/cfg_default')
    def flags(self, var, sym):
        v = VARIANTS[var]
        return ['-std=c++17', '-w'] + ((IRFLAGS[:-1] + ['-disable-llvm-passes'] if v.get('raw') else IRFLAGS) if sym else [x.replace('=address', '=' + v.get('san', 'address')) for x in NFLAGS]) + ['-I' + self.cfg(v['reuse']), '-I' + REPO + '/src', '-I' + V + '/harness'] + v['defs']
    def tape_bc(self, var):
        os_ = []
        for n, src in enumerate(lib_sources()):
            o = '%s/lib_%s_%d.bc' % (self.tmp, var, n)
            r = sh([CXX] + self.flags(var, True) + ['-c', '-emit-llvm', src, '-o', o])
            if r.returncode: raise BuildError('%s (%s):\n%s' % (src, var, r.stdout[-3000:]))
            os_.append(o)
        return os_
    def harness_bc(self, tu):
        o = '%s/%s.bc' % (self.tmp, tu['key'])
        r = sh([CXX] + self.flags(tu['variant'], True) + tu.get('defs', []) + ['-c', '-emit-llvm', V + '/harness/' + tu['src'], '-o', o])
        if r.returncode: raise BuildError('%s (%s):\n%s' % (tu['src'], tu['variant'], r.stdout[-3000:]))
        return o
    def link(self, tu, hbc, tbc):
        o = '%s/%s.ll' % (self.tmp, tu['key'])
        r = sh([LLVM + 'llvm-link', '-S', hbc] + (tbc or []) + ['-o', o])
        if r.returncode: raise BuildError('llvm-link ' + r.stdout[-2000:])
        return o
    def native_obj(self, name, src, var, extra=()):
        o = '%s/%s.o' % (self.tmp, name)
        r = sh([CXX] + (self.flags(var, False) if var else ['-std=c++17', '-O1', '-w']) + list(extra) + ['-c', src, '-o', o])
        if r.returncode: raise BuildError('native %s: %s' % (src, r.stdout[-2000:]))
        return o
    def native_link(self, name, objs, var='default'):
        o = '%s/%s.exe' % (self.tmp, name)
        r = sh([CXX, '-fsanitize=' + VARIANTS[var].get('san', 'address'), '-rdynamic', '-Wl,--wrap=aligned_alloc'] + objs + ['-o', o, '-ldl', '-lpthread'])
        if r.returncode: raise BuildError('native link: ' + r.stdout[-2000:])
        return o

MODS = {}
def worker(job):
    import engine, fp, ir, z3
    tu, name, opts = job
    t0 = time.time()
    try:
        m = MODS[tu]
        dom = fp.RealDom() if opts['dom'] == 'real' else fp.IeeeDom()
        opts = dict(opts); opts['deadline'] = min(time.time() + opts['limit'], opts['hard_deadline'])
        e = engine.Engine(m, dom, opts)
        e.run(name)
        s = e.st
        return dict(tu=tu, name=name, ok=True, complete=e.complete and not s.unsupported, findings=e.findings, witness=e.__dict__.get('witness'),
                    wall=time.time() - t0, stats={k: v for k, v in vars(s).items()})
    except Exception as ex:
        return dict(tu=tu, name=name, ok=False, error=traceback.format_exc()[-1500:], wall=time.time() - t0)

def fmt(v):
    if isinstance(v, float): return repr(v)
    return str(v)

def run_native(exe, name, inputs, tmp, n, timeout=60):
    p = '%s/in_%s_%d.txt' % (tmp, name, n)
    open(p, 'w').write('\n'.join(fmt(x) for x in inputs) + '\n')
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=86:allocator_may_return_null=1:detect_stack_use_after_return=0')
    try: r = subprocess.run([exe, name, p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout, env=env)
    except subprocess.TimeoutExpired: return 'hang', 'timeout'
    rc = r.returncode
    if rc == 0: st = 'ok'
    elif rc == 1 and 'REPLAY violated' in r.stdout: st = 'violated'
    elif rc in (77, 78, 79): st = 'inapplicable'
    else: st = 'crash'
    return st, r.stdout[:1500] + r.stdout[1500:][-3000:]

def main():
    prop = sys.argv[1]
    if prop == '--selftest':
        import z3; x = z3.Real('x'); s = z3.Solver(); s.add(x * x < 0)
        ok = s.check() == z3.unsat and os.path.exists(CXX) and bool(lib_sources())
        print('selftest', 'ok' if ok else 'FAILED'); return sys.exit(0 if ok else 1)
    tier = sys.argv[2] if len(sys.argv) > 2 and not sys.argv[2].startswith('-') else os.environ.get('VERIF_TIER', 'quick')
    only = None; verbose = '-v' in sys.argv
    if '--only' in sys.argv: only = re.compile(sys.argv[sys.argv.index('--only') + 1])
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    T0 = time.time()
    budget = 600 if tier == 'quick' else 3000
    tmp = tempfile.mkdtemp(prefix='xadv_')
    code = 2
    try: code = check(prop, tier, only, verbose, seed, T0, budget, tmp)
    finally: shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush()
    os._exit(code)

def check(prop, tier, only, verbose, seed, T0, budget, tmp):
    import ir
    plan = PLAN[prop]
    B = Builder(tmp)
    tus = []
    for n, u in enumerate(plan['tus']):
        if u.get('tier', 'quick') == 'thorough' and tier != 'thorough': continue
        for var in u.get('variants', ['default']):
            t = dict(u); t['variant'] = var
            t['defs'] = list(u.get('defs', [])) + (['-DSX_THOROUGH'] if tier == 'thorough' else [])
            t['key'] = '%s_%s_%d' % (re.sub(r'\W', '_', u['src']), var, n)
            tus.append(t)
    ex = ThreadPoolExecutor(8)
    vars_needed = sorted({t['variant'] for t in tus if t.get('tape', True)})
    tape = {v: ex.submit(B.tape_bc, v) for v in vars_needed}
    hb = {t['key']: ex.submit(B.harness_bc, t) for t in tus}
    jobs = []; meta = {}
    try:
        for t in tus:
            ll = B.link(t, hb[t['key']].result(), tape[t['variant']].result() if t.get('tape', True) else None)
            m = ir.Module(open(ll).read()); MODS[t['key']] = m
            names = sorted(n for n in m.fn_src if n.startswith('h_'))
            if t.get('match'): names = [n for n in names if re.search(t['match'], n)]
            if tier != 'thorough': names = [n for n in names if not n.endswith('_T')]
            if only: names = [n for n in names if only.search(n)]
            for n in names:
                dom = 'ieee' if '_ieee' in n or t.get('dom') == 'ieee' else 'real'
                jobs.append((t['key'], n, dict(dom=dom, limit=t.get('limit', 240 if tier == 'quick' else 1200), hard_deadline=T0 + budget, prove_ms=t.get('prove_ms', 8000 if tier == 'quick' else 30000), **{k: t[k] for k in ('tol', 'ctol') if k in t})))
            meta[t['key']] = t
    except BuildError as e:
        print('BUILD ERROR', e); return 2
    print('%s: %d harnesses in %d translation units, build %.1fs' % (prop, len(jobs), len(tus), time.time() - T0)); sys.stdout.flush()
    # native objects in the background (replay + validation of the encoding)
    nat = {}
    robj = {s: ex.submit(B.native_obj, 'rt_' + s, V + '/native/rt.cpp', None, ['-fsanitize=' + s]) for s in {VARIANTS[t['variant']].get('san', 'address') for t in tus}}
    ntape = {v: [ex.submit(B.native_obj, 'nlib_%s_%d' % (v, n), src, v) for n, src in enumerate(lib_sources())] for v in vars_needed}
    for t in tus: nat[t['key']] = ex.submit(B.native_obj, 'n_' + t['key'], V + '/harness/' + t['src'], t['variant'], t['defs'])
    exes = {}
    def exe(k):
        if k not in exes:
            t = meta[k]; objs = [nat[k].result(), robj[VARIANTS[t['variant']].get('san', 'address')].result()] + ([o.result() for o in ntape[t['variant']]] if t.get('tape', True) else [])
            exes[k] = B.native_link('x_' + k, objs, t['variant'])
        return exes[k]
    # longest first by last known cost
    jobs.sort(key=lambda j: (-plan.get('cost', {}).get(j[1], 0), j[1]))
    ctx = multiprocessing.get_context('fork')
    res = []
    with ctx.Pool(8, maxtasksperchild=40) as pool:
        for r in pool.imap_unordered(worker, jobs, chunksize=1 if len(jobs) < 400 else 4):
            res.append(r)
            if verbose:
                if not r['ok']: print('ERR', r['name'], r['error'])
                else:
                    s = r['stats']; print('%-46s %5.1fs paths=%d instr=%d obl=%d syn=%d slv=%d tol=%d und=%d find=%d ends=%s %s' % (r['name'], r['wall'], s['paths'], s['instr'], s['obl'], s['obl_syn'], s['obl_solver'], s['obl_tol'], s['undecided'], len(r['findings']), s['ends'], s['unsupported'] or ''))
                sys.stdout.flush()
    # ---------------- known findings
    known = []
    kf = V + '/known_findings.json'
    if os.path.exists(kf): known = json.load(open(kf))['findings']
    agg = dict(instr=0, paths=0, forks=0, feas_q=0, obl=0, obl_syn=0, obl_solver=0, obl_tol=0, undecided=0, sat=0); solver_s = 0.0
    funcs = {}; incomplete = []; errors = []; unsup = {}; ends = {}; undec = []; vac = []
    violations = []; unconf = []; knownhits = []; samples = []; nval = 0; valbad = []
    for r in res:
        if not r['ok']: errors.append(r['name'] + ': ' + r['error'].strip().split('\n')[-1]); continue
        s = r['stats']
        for k in agg: agg[k] += s[k]
        solver_s += s['solver_s']
        for f, c in s['funcs'].items(): funcs[f] = funcs.get(f, 0) + c
        for k, c in s['unsupported'].items(): unsup[r['name'] + ': ' + k] = c
        for k, c in s['ends'].items(): ends[k] = ends.get(k, 0) + c
        undec += [r['name'] + '/' + u for u in s['undec']]
        if not r['complete']: incomplete.append(r['name'])
        if not s['checks'] and not r['findings']: vac.append(r['name'])
        if len(samples) < 6 and r.get('witness') is not None: samples.append(dict(harness=r['name'], witness=[fmt(x) for x in r['witness']][:12], obligations=s['obl'], paths=s['paths']))
    # ---------------- replay
    nrep = 0
    for r in res:
        if not r['ok']: continue
        for fd in r['findings']:
            conf = None
            for c in fd['candidates']:
                nrep += 1
                st, out = run_native(exe(r['tu']), r['name'], c, tmp, nrep)
                okfor = ('violated', 'crash', 'hang') if fd['kind'] in ('memory',) else ('violated', 'crash')
                if fd['kind'] == 'race': st = 'violated' if 'ThreadSanitizer: data race' in out else 'norace'
                if st in okfor: conf = (st, c, out); break
            rec = dict(harness=r['name'], tu=meta[r['tu']]['src'], variant=meta[r['tu']]['variant'], label=fd['label'], kind=fd['kind'], terms=fd['terms'])
            if conf: rec.update(inputs=conf[1], outcome=conf[0], output=conf[2]); violations.append(rec)
            else: rec.update(candidates=fd['candidates'][:2], native=(st, out[-300:]) if fd['candidates'] else None); unconf.append(rec)
    # ---------------- validate encoding: witness inputs natively must pass
    if not only or verbose:
        def val(r):
            try: return r, run_native(exe(r['tu']), r['name'], r['witness'], tmp, hash(r['name']) & 0xffffff)
            except Exception as e: return r, ('error', str(e))
        ws = [r for r in res if r['ok'] and r.get('witness') is not None and not r['findings']]
        for k in {r['tu'] for r in ws}: exe(k)
        for r, (st, out) in ex.map(val, ws):
            if st == 'ok': nval += 1
            elif st != 'inapplicable': valbad.append(dict(harness=r['name'], witness=[fmt(x) for x in r['witness']], native=st, output=out[-400:]))
    newv = []
    for v in violations:
        hit = None
        for k in known:
            if k['property'] == prop and re.fullmatch(k['harness'], v['harness']) and re.fullmatch(k.get('label', '.*'), v['label']): hit = k; break
        if hit: knownhits.append((hit, v))
        else: newv.append(v)
    seen = set()
    for k, v in knownhits:
        if k['id'] not in seen:
            seen.add(k['id']); print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    rdir = V + '/evidence/replay'; printed = 0
    for n, v in enumerate(newv):
        if printed >= 8: break
        os.makedirs(rdir, exist_ok=True)
        p = '%s/%s_%s_%d.json' % (rdir, prop, v['harness'], n)
        json.dump(dict(property=prop, replay_cmd='python3 %s/replay.py %s' % (V, p), **v), open(p, 'w'), indent=1, default=str)
        print('VIOLATION property=%s replay=%s' % (prop, p)); printed += 1
        print('   harness=%s variant=%s check="%s" inputs=%s outcome=%s' % (v['harness'], v['variant'], v['label'], [fmt(x) for x in v['inputs']], v['outcome']))
    for u in unconf: print('note: solver counterexample not confirmed by the real code (not reported): %s / %s [%s]' % (u['harness'], u['label'], u['kind']) + (' %s %s' % (u['candidates'], u['native']) if verbose else ''))
    for x in incomplete[:20]: print('note: incomplete exploration: ' + x)
    for x in errors[:20]: print('note: engine error: ' + x)
    for x in list(unsup)[:20]: print('note: unsupported: ' + x)
    for x in vac[:20]: print('note: no obligation reached: ' + x)
    for x in valbad[:10]: print('note: native validation differs: %s %s %s %s' % (x['harness'], x['native'], x['witness'], x['output'].strip()[-200:]))
    lib = sorted(f for f in funcs if 'xad' in f)
    try: dem = sh(['c++filt'] + []  , input='\n'.join(lib)).stdout.split('\n') if lib else []
    except Exception: dem = lib
    wall = time.time() - T0
    disch = agg['obl_syn'] + agg['obl_solver'] + agg['obl_tol']
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking',
        coverage=dict(states=agg['paths'], transitions=agg['instr'], traces_validated_against_impl=nval, samples=samples or [dict(note='no witness')],
            harnesses=len(res), obligations=agg['obl'], discharged=disch, discharged_by_term_rewriting=agg['obl_syn'], discharged_by_solver=agg['obl_solver'], discharged_within_rounding_tolerance=agg['obl_tol'],
            undecided=agg['undecided'], undecided_obligations=sorted(set(undec))[:30], path_forks=agg['forks'], feasibility_queries=agg['feas_q'], solver_seconds=round(solver_s, 2), path_ends=ends,
            functions_encoded=len(lib), functions_encoded_sample=[d[:160] for d in dem[:60]], bounds=plan['bounds'], incomplete=sorted(incomplete), unsupported=unsup, engine_errors=errors,
            harnesses_without_obligation=vac, counterexamples_not_reproduced=unconf[:10], native_validation_mismatches=valbad[:10], replays_run=nrep,
            known_findings=[k['id'] for k, _ in knownhits], explanation='states = symbolic paths explored to their end; transitions = LLVM IR instructions executed symbolically; each obligation is decided for all values of the symbolic inputs on its path'),
        assumptions=plan.get('assumptions', []) + COMMON_ASSUMPTIONS, wall_s=round(wall, 2), violations=len(newv))
    os.makedirs(V + '/evidence', exist_ok=True)
    if not only: json.dump(ev, open('%s/evidence/%s.json' % (V, prop), 'w'), indent=1, default=str)
    print('%s: %d harnesses, %d paths, %d obligations (%d rewriting, %d solver, %d tolerance, %d undecided), %d validated natively, %d violations, %.1fs (solver %.1fs)' %
          (prop, len(res), agg['paths'], agg['obl'], agg['obl_syn'], agg['obl_solver'], agg['obl_tol'], agg['undecided'], nval, len(newv), wall, solver_s))
    return 1 if newv else 0

COMMON_ASSUMPTIONS = [
    'clang 18 -O1 IR of the working tree is what is executed; the C/C++ runtime (allocation, exceptions, list node hooks, libm) is modelled (symex/models.py)',
    'real-arithmetic harnesses (names without _ieee) treat floating point as exact reals: rounding, overflow and NaN are outside them',
    'libm functions are uninterpreted up to the listed identities (symex/fp.py axioms)',
]
if __name__ == '__main__': main()
