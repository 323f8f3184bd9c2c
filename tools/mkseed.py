#!/usr/bin/env python3
"""writes /verif/seeded/<id>/ from the descriptions in tools/seeds.py"""
import json, os, subprocess, shutil, sys
sys.path.insert(0, os.path.dirname(__file__))
from seeds import SEEDS
base = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'seeded')
only = sys.argv[1:]
for s in SEEDS:
    if only and s['id'] not in only: continue
    w = '/tmp/mkseed'
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(['git', 'clone', '-q', '/repo', w], check=True)
    for f, old, new, *n in s['edits']:
        p = os.path.join(w, f); t = open(p).read()
        k = n[0] if n else 0
        want = n[1] if len(n) > 1 else None
        c = t.count(old)
        if c == 0 or (not n and c != 1): sys.exit(f"{s['id']}: {c} matches in {f}: {old!r}")
        i = -1
        for _ in range(k + 1): i = t.index(old, i + 1)
        t = t[:i] + new + t[i + len(old):]
        open(p, 'w').write(t)
    d = os.path.join(base, s['id']); os.makedirs(d, exist_ok=True)
    diff = subprocess.run(['git', '-C', w, 'diff'], capture_output=True, text=True).stdout
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/meta.json', 'w').write(json.dumps({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, indent=1) + '\n')
    open(d + '/demo_test.go.txt', 'w').write(s['demo'])
    sh = '''#!/bin/bash
# exit 0 when the property holds for the demonstrated inputs. Run in the repository.
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod
d=$(cd "$(dirname "$0")" && pwd)
o=$(mktemp -d) || exit 3
trap 'rm -rf "$o"' EXIT
printf '{"Replace":{"%s/zz_demo_test.go":"%s/demo_test.go.txt"}}' "$PWD" "$d" > "$o/overlay.json"
'''
    sh += f'''{s.get('env','')} go test -vet=off -count=1 -timeout 250s -overlay "$o/overlay.json" {s.get('args','')} -run '^TestDemo$' .\n'''
    open(d + '/demo.sh', 'w').write(sh); os.chmod(d + '/demo.sh', 0o755)
shutil.rmtree('/tmp/mkseed', ignore_errors=True)
