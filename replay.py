#!/opt/veriftools/pyvenv/bin/python3
"""replay.py FILE: rebuild the harness natively from /repo and run it on the recorded inputs."""
import sys, json, os, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
d = json.load(open(sys.argv[1])); tmp = tempfile.mkdtemp(prefix='xadr_')
try:
    B = check.Builder(tmp)
    u = [t for t in check.PLAN[d['property']]['tus'] if t['src'] == d['tu']][0]
    san = check.VARIANTS[d['variant']].get('san', 'address')
    libs = [B.native_obj('t%d' % n, f, d['variant']) for n, f in enumerate(check.lib_sources())] if u.get('tape', True) else []
    e = B.native_link('x', [B.native_obj('h', check.V + '/harness/' + d['tu'], d['variant'], u.get('defs', [])), B.native_obj('rt', check.V + '/native/rt.cpp', None, ['-fsanitize=' + san])] + libs, d['variant'])
    st, out = check.run_native(e, d['harness'], d['inputs'], tmp, 0)
    print(out); print('outcome:', st)
    sys.exit(0 if st == 'ok' else 1)
finally: shutil.rmtree(tmp, ignore_errors=True)
