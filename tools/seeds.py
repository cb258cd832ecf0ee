#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the table below; verify.sh checks them.
S(id, property, [(file, old, new)...], needs, breaks, demo body)"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(HERE, '..', 'seeded')
BASE = '81290c0'
SEEDS = []
def S(id, prop, edits, needs, breaks, demo, extra=()):
    SEEDS.append((id, prop, edits, needs, breaks, demo, extra))

exec(open(os.path.join(HERE, 'seedlist.py')).read())

def write(id, prop, edits, needs, breaks, demo, extra):
    d = os.path.join(OUT, id)
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp()
    try:
        by = {}
        for f, o, n in edits:
            p = 'McCalib/' + f if not f.startswith('apps/') else f
            s = by.get(p) or open('/repo/' + p).read()
            assert s.count(o) == 1, (id, p, s.count(o), o)
            by[p] = s.replace(o, n)
        patch = ''
        for p, s in by.items():
            a = os.path.join(t, 'a', p); b = os.path.join(t, 'b', p)
            os.makedirs(os.path.dirname(a), exist_ok=True); os.makedirs(os.path.dirname(b), exist_ok=True)
            shutil.copy('/repo/' + p, a); open(b, 'w').write(s)
            r = subprocess.run(['diff', '-u', 'a/' + p, 'b/' + p], cwd=t, capture_output=True, text=True)
            lines = r.stdout.split('\n')
            patch += '--- a/%s\n+++ b/%s\n' % (p, p) + '\n'.join(lines[2:])
            base = subprocess.run(['git', '-C', '/repo', 'show', BASE + ':' + p], capture_output=True, text=True).stdout.split('\n')
            rem = [l[1:] for l in lines[2:] if l.startswith('-')]
            if not any(l in base for l in rem): print('WARN', id, 'touches no original line in', p, rem)
        open(os.path.join(d, 'patch.diff'), 'w').write(patch)
    finally:
        shutil.rmtree(t)
    src = demo if demo.lstrip().startswith('#') or 'int main' in demo else 'int main() {\n%s\n  return 0;\n}\n' % demo.strip('\n')
    if '#include "demo.h"' not in src: src = '#include "demo.h"\n' + src
    open(os.path.join(d, 'demo.cpp'), 'w').write(src)
    shutil.copy(os.path.join(HERE, 'demo.h'), d); shutil.copy(os.path.join(HERE, 'demo.sh'), d)
    for f, body in extra: open(os.path.join(d, f), 'w').write(body)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)

want = sys.argv[1:]
for s in SEEDS:
    if not want or s[0] in want: write(*s)
print(len(SEEDS), 'seeds')
