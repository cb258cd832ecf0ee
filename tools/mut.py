#!/usr/bin/env python3
"""mut.py FILE [ids]: run the quick check of a property on small source changes, in a private copy of /repo.
FILE defines M = [(id, property, file under McCalib, old text, new text), ...]"""
import os, subprocess, sys, time, re
if not os.environ.get('MUT_INNER'):
    w = subprocess.run(['mktemp', '-d', '/tmp/mut.XXXX'], capture_output=True, text=True).stdout.strip()
    subprocess.run(['cp', '-a', '/repo', w + '/repo'])
    rc = subprocess.run(['unshare', '-Urm', sys.executable] + sys.argv, env=dict(os.environ, MUT_INNER='1', MUT_W=w)).returncode
    subprocess.run(['rm', '-r', w]); sys.exit(rc)
w = os.environ['MUT_W']; subprocess.run(['mount', '--bind', w + '/repo', '/repo'], check=True)
subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
ns = {}; exec(open(sys.argv[1]).read(), ns); ids = sys.argv[2:]
for m in ns['M']:
    i, props, f, old, new = m[:5]
    if ids and i not in ids: continue
    p = '/repo/McCalib/' + f; s = open(p).read()
    if s.count(old) < 1: print(i, 'TEXT NOT FOUND', flush=True); continue
    open(p, 'w').write(s.replace(old, new, 1) if len(m) < 6 else s.replace(old, new))
    for pr in props.split():
        t = time.time(); r = subprocess.run(['timeout', '900', 'python3', '/verif/check.py', pr, 'quick'], capture_output=True, text=True)
        v = re.search(r'VIOLATION.*', r.stdout); lab = [l for l in r.stdout.splitlines() if 'VIOLATION' in l]
        err = (r.stdout + r.stderr)[-200:].replace('\n', ' ') if r.returncode == 2 else ''
        rp = v and re.search(r'replay=(\S+)', v.group(0)); det = ''
        if rp and os.path.exists(rp.group(1)): 
            x = open(rp.group(1)).read(); d = re.search(r'"(?:label|why)": "([^"]*)"', x); det = d.group(1)[:90] if d else ''
        print('%-22s %s rc=%d %3ds %s %s' % (i, pr, r.returncode, time.time() - t, det, err), flush=True)
    open(p, 'w').write(s)
