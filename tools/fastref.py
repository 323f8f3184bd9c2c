#!/usr/bin/env python3
"""fastref.py [ID...]: only the proofs of functions an edit touches"""
import os, re, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from refactors import REFS
tool = os.environ.get('SORTYVC', '/tmp/sortyvc')
for id in sys.argv[1:] or list(REFS):
    w = f'/tmp/fref-{id}'
    subprocess.run(['rm', '-rf', w]); subprocess.run(['git', 'clone', '-q', '/repo', w], check=True)
    def funcs():
        r = {}
        for f in sorted(os.listdir(w)):
            if f.endswith('.go') and not f.endswith('_test.go'):
                for m in re.finditer(r'^func (\w+)[\[(].*?^}', open(f'{w}/{f}').read(), flags=re.M | re.S):
                    r[m[1]] = m[0]
        return r
    old = funcs()
    for f, o, new in REFS[id][1]:
        f = f'{w}/{f}'; t = open(f).read()
        m = re.fullmatch(r'func (\w+)', o)
        if m:
            t, n = re.subn(rf'^func {m[1]}\(.*?^}}\n', lambda _: new, t, flags=re.M | re.S)
        else:
            n = t.count(o); t = t.replace(o, new)
        assert n == 1, (id, f, n)
        open(f, 'w').write(t)
    subprocess.run(['bash', '-c', f'. /opt/vp/env.sh; cd {w}; gofmt -w *.go; go build . || echo NOBUILD'])
    new = funcs()
    ch = [k for k in new if k in old and old[k] != new[k]]
    # functions that call new helpers count as changed already; callers of changed functions without contract do not
    t0 = time.time()
    try:
        r = subprocess.run(['nice', tool, '-repo', w, '-specs', '/verif/contracts', '-hints', '/verif/contracts/hints.json', '-f', ','.join(ch)], capture_output=True, text=True, timeout=900)
        out = r.stdout + r.stderr
    except subprocess.TimeoutExpired as e:
        out = 'timeout\n' + str(e.stdout)
    ls = [l for l in out.splitlines() if not re.search(r' 0 failed', l)]
    print(f'{id} {ch}: {time.time()-t0:.0f} s', *ls, sep='\n   ', flush=True)
    subprocess.run(['rm', '-rf', w])
