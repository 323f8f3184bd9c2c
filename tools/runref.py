#!/usr/bin/env python3
"""runref.py [ID...]: checks of edits that keep the behaviour. ID:Cxx,Cyy for other properties"""
import os, re, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from refactors import REFS
base, tool = os.environ.get('VBASE', '/tmp/vbase'), os.environ.get('SORTYVC', '/tmp/sortyvc')
for a in sys.argv[1:] or list(REFS):
    id, _, ps = a.partition(':')
    props, edits = REFS[id]
    w = f'/tmp/ref-{id}'
    subprocess.run(['rm', '-rf', w]); subprocess.run(['git', 'clone', '-q', '/repo', w], check=True)
    for f, old, new in edits:
        f = f'{w}/{f}'; t = open(f).read()
        m = re.fullmatch(r'func (\w+)', old)
        if m:
            t, n = re.subn(rf'^func {m[1]}\(.*?^}}\n', lambda _: new, t, flags=re.M | re.S)
        else:
            n = t.count(old); t = t.replace(old, new)
        assert n == 1, (id, f, n)
        open(f, 'w').write(t)
    subprocess.run(['bash', '-c', f'. /opt/vp/env.sh; cd {w}; gofmt -l . ; gofmt -w *.go; go vet . 2>&1 | grep -v "^#" | head -5; go build . || echo NOBUILD'])
    for p in ps.split(',') if ps else props.split():
        t0 = time.time()
        r = subprocess.run([tool, 'check', p, '-repo', w, '-base', base], capture_output=True, text=True)
        open(f'/tmp/ref-{id}-{p}.log', 'w').write(r.stdout + r.stderr)
        v = [l for l in r.stdout.splitlines() if 'VIOLATION' in l or 'failing input' in l]
        print(f'{id} {p}: exit {r.returncode}, {time.time()-t0:.0f} s {"" if r.returncode == 0 else v}', flush=True)
    if not os.environ.get('KEEP'): subprocess.run(['rm', '-rf', w])
