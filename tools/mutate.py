#!/usr/bin/env python3
"""mutate.py FILES [-n N] [-seed S] [-j J]: small changes that the verifier does not reject

Each is one changed token or a removed statement. Survivors are printed; they have to be
equivalent to the original for the properties. Only the function changed is verified (callers
rely on its contract), or all functions of the file with a contract when it has none itself."""
import os, re, subprocess, sys, random, argparse, shutil
from concurrent.futures import ThreadPoolExecutor
ap = argparse.ArgumentParser()
ap.add_argument('files', nargs='+'); ap.add_argument('-n', type=int, default=100)
ap.add_argument('-seed', type=int, default=1); ap.add_argument('-j', type=int, default=3)
ap.add_argument('-func', default='.'); ap.add_argument('-how', default='1')
a = ap.parse_args()
tool = os.environ.get('SORTYVC', '/tmp/sortyvc')
spec = set()
for f in os.listdir('/verif/contracts'):
    if f.endswith('.spec'):
        spec |= set(re.findall(r'^func ([\w$]+)', open('/verif/contracts/' + f).read(), flags=re.M))
spec = {s.replace('$X', x) for s in spec for x in 'I4 I8 U4 U8 F4 F8 S B LenS LenB'.split()}
ops = [(r'(?<![<>=!\-:+&|])<(?![<=\-])', ['<=', '>', '>=']), (r'<=', ['<', '>']), (r'(?<![<>\-=])>(?![>=])', ['>=', '<']), (r'>=', ['>', '<']),
       (r'==', ['!=']), (r'!=', ['==']), (r'&&', ['||']), (r'\|\|', ['&&']), (r'\+\+', ['--']), (r'--', ['++']),
       (r'(?<![+\w])\+(?![+=])|(?<=\w)\+(?=\w)', ['-']), (r'(?<=\w)-(?=\w)', ['+']), (r'>>', ['<<']), (r'\+=', ['-=']), (r'-=', ['+=']),
       (r'(?<![\w.])\d+(?![\w.])', ['+1', '-1']), (r'(?<=[ (])!(?=[\w(])', ['']), (r'\bgo (?=\w)', ['']), (r'\bdefer ', ['']),
       (r'\bl\b', ['h', 'l+1', 'l-1']), (r'\bh\b', ['l', 'h+1', 'h-1']), (r'\bi\b', ['k', 'i+1']), (r'\bk\b', ['i', 'k-1']), (r'\bpv\b', ['pv+1']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']),
       (r'\[:', ['[1:']), (r'(?<=\w):\]', [':len(ar)-1]'])]
muts = []
for f in a.files:
    ls = open('/repo/' + f).read().split('\n')
    fn = ''
    for n, l in enumerate(ls):
        m = re.match(r'func (\w+)', l)
        if m: fn = m[1]; continue
        if l.startswith('}'): fn = ''
        if not fn or not re.search(a.func, fn): continue
        code = l.split('//')[0]
        if not code.strip(): continue
        for p, rs in ops:
            for m in re.finditer(p, code):
                for r in rs:
                    if r in ('+1', '-1') and p.startswith('(?<![\\w.])'): r = str(int(m[0]) + int(r))
                    muts.append((f, fn, n, code[:m.start()] + r + code[m.end():]))
        if re.match(r'\t+[\w\[\], .*+]+( =|\+\+|--|\(|\+=|-=| <-)', code) and ':=' not in code and not code.rstrip().endswith('{'):
            muts.append((f, fn, n, ''))
        m = re.match(r'(\t+\w.*?\()([^(),]+), ([^(),]+)(.*)', code)
        if m: muts.append((f, fn, n, m[1] + m[3] + ', ' + m[2] + m[4]))
        m = re.match(r'(\t+)([^ =]+), ([^ =]+) = ([^ =]+), ([^ =]+)$', code.rstrip())
        if m: muts += [(f, fn, n, f'{m[1]}{m[2]} = {m[4]}'), (f, fn, n, f'{m[1]}{m[3]} = {m[5]}')]
random.Random(a.seed).shuffle(muts)
print(len(muts), 'changes', flush=True)
stat = dict(nobuild=0, rejected=0, survived=0, timeout=0)
def one(x):
    i, (f, fn, n, new) = x
    w = f'/tmp/mut/{os.getpid()}-{i}'
    os.makedirs(w)
    for g in os.listdir('/repo'):
        if g.endswith('.go') and not g.endswith('_test.go') or g.startswith('go.'): shutil.copy('/repo/' + g, w)
    ls = open(f'{w}/{f}').read().split('\n'); old = ls[n]; ls[n] = new
    open(f'{w}/{f}', 'w').write('\n'.join(ls))
    try:
        r = subprocess.run(['bash', '-c', f'. /opt/vp/env.sh; cd {w}; go build .'], capture_output=True)
        if r.returncode:
            stat['nobuild'] += 1; return
        fs = [fn]
        if fn not in spec: # helpers belong to their callers
            t = open('/repo/' + f).read()
            fs = [g for g in re.findall(r'^func (\w+)', t, flags=re.M) if g in spec]
        assert fs
        cfgs = [[]]
        if f == 'sortyLsw.go': cfgs.append(['-weak'])
        out = ''
        for c in cfgs:
            r = subprocess.run(['nice', tool, *c, '-how', a.how, '-repo', w, '-specs', '/verif/contracts', '-hints', '/verif/contracts/hints.json', '-f', ','.join(fs)], capture_output=True, text=True, timeout=300)
            out += r.stdout + r.stderr
            if 'proved' not in r.stdout or re.search(r' [1-9]\d* failed|rejected|error|unsupported', r.stdout + r.stderr):
                stat['rejected'] += 1; return
        stat['survived'] += 1
        print(f'SURVIVED {f}:{n+1} {fn}:\n  - {old.strip()}\n  + {new.strip()}', flush=True)
    except subprocess.TimeoutExpired:
        stat['timeout'] += 1; print(f'TIMEOUT {f}:{n+1} {old.strip()} -> {new.strip()}', flush=True)
    finally:
        shutil.rmtree(w)
with ThreadPoolExecutor(a.j) as ex:
    list(ex.map(one, enumerate(muts[:a.n])))
print(stat)
