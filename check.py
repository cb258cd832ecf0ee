#!/usr/bin/env python3
"""check.py <property> [quick|thorough]     decide one property on /repo's current tree
check.py --replay <file>                    re-run a recorded counterexample natively
check.py --setup                            build the engine, precompile everything"""
import json, os, sys, time, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import sxlib
from sxlib import V, B
from props import PROPS
KF = V + '/KNOWN_FINDINGS.txt'

def known(pid):
    out = []
    if os.path.exists(KF):
        for l in open(KF):
            if l.startswith('known: '):
                d = dict(x.split('=', 1) for x in l[7:].split(' :: ')[0].split(' ; '))
                if d.get('property') == pid: out.append((d, l.split(' :: ', 1)[1].strip()))
    return out

def recompose(path):
    h = {}
    for l in open(path):
        if l.startswith('# '):
            k, v = l[2:].rstrip('\n').split('=', 1); h[k] = v
    return h

def replay_file(path):
    h = recompose(path)
    ok, text = sxlib.replay(h['harness'], json.loads(h['defs']), h['entry'], {'kind': h['kind']}, path)
    print(('CONFIRMED ' if ok else 'not confirmed: ') + text)
    return 1 if ok else 0

def run(pid, tier):
    P = PROPS[pid]; t0 = time.time()
    budget = P.get('budget', {}).get(tier, 800 if tier == 'quick' else 7200)
    tot = dict.fromkeys('paths done err pruned queries sat unsat unknown obligations proved trivial failed undecided insts forks timeouts unsup'.split(), 0)
    solver = 0.0; funcs = {}; notes = []; runs = []; samples = []; validated = 0; viols = []; kf = []; kfs = known(pid)
    rdir = B + '/replay/' + pid; shutil.rmtree(rdir, ignore_errors=True); os.makedirs(rdir)
    n = 0
    for job in P[tier] if tier in P else P['quick']:
        entry, defs, tmo = job['entry'], job.get('defs', []), job.get('timeout', 120)
        left = budget - (time.time() - t0)
        if left < 15: notes.append('%s: not run, time budget used up' % entry); continue
        harness = job.get('harness', P.get('harness'))
        try:
            bc = sxlib.bitcode(harness, defs, [entry])
        except sxlib.BuildError as e:
            print('BUILD-ERROR', e); return 2, None
        try:
            res, log = sxlib.run_sx(bc, entry, min(tmo, left - 10), job.get('flags', []))
        except sxlib.BuildError as e:
            # the executor itself gave up: no verdict about the code
            notes.append('%s: executor failed (%s)' % (entry, str(e)[-300:])); continue
        s = [x for x in res if x['t'] == 'sum'][0]
        for k in tot: tot[k] += s.get(k, 0)
        solver += s['solver_s']
        for f, w in s['functions']:
            if '/McCalib/' in w and w.startswith(sxlib.REPO): funcs[f] = w.replace(sxlib.REPO + '/', '')
        reached = {}
        for x in res:
            if x['t'] == 'reach': reached.setdefault(x['label'], x)
            elif x['t'] in ('unsup', 'bound'):
                m = '%s: %s: %s' % (entry, x['t'], x.get('why'))
                if x.get('at'): m += ' at ' + str(x['at'])[:200]
                if m not in notes and len(notes) < 60: notes.append(m)
            elif x['t'] == 'undec':
                m = '%s: undecided: %s' % (entry, x.get('label'))
                if m not in notes: notes.append(m)
        for want in job.get('reach', []):
            if want not in reached: notes.append('%s: expected situation "%s" not reached' % (entry, want))
        def write(kind, label, model):
            nonlocal n
            n += 1; p = '%s/%s-%d.txt' % (rdir, entry, n)
            with open(p, 'w') as f:
                f.write('# property=%s\n# harness=%s\n# defs=%s\n# entry=%s\n# kind=%s\n# label=%s\n' % (pid, harness, json.dumps(defs), entry, kind, label))
                for k, v in model or []: f.write('%s\t%s\n' % (k, v))
            return p
        per = {}
        jv = [x for x in res if x['t'] == 'viol']
        for x in jv:
            c = per.setdefault(x['label'], [0, False])
            if c[1] or c[0] >= 3: continue
            c[0] += 1
            p = write(x['kind'], x['label'], x.get('model'))
            try:
                ok, text = sxlib.replay(harness, defs, entry, x, p, tmo=25)
            except sxlib.BuildError as e:
                print('BUILD-ERROR', e); return 2, None
            if not ok:
                notes.append('%s: candidate "%s" (%s) not confirmed natively: %s' % (entry, x['label'], x.get('detail', '')[:120], text[:160])); continue
            c[1] = True
            hit = [d for d, w in kfs if d.get('entry', entry) == entry and d.get('label') == x['label']]
            (kf if hit else viols).append(dict(label=x['label'], entry=entry, detail=x.get('detail', '')[:300], at=x.get('at', '')[:200], native=text[:400], replay=p, model=x.get('model')))
        if not jv or True:
            for label, x in list(reached.items())[:job.get('validate', 3)]:
                p = write('assert', 'reach:' + label, x.get('model'))
                try: ok, text = sxlib.replay(harness, defs, entry, dict(kind='assert'), p, tmo=60)
                except sxlib.BuildError as e: print('BUILD-ERROR', e); return 2, None
                if not ok and text.startswith('exit 0'): validated += 1; samples.append(dict(entry=entry, situation=label, inputs=dict(x.get('model') or []) if len(x.get('model') or []) <= 40 else dict((x.get('model') or [])[:40])))
                else: notes.append('%s: path witness "%s" replays natively as: %s' % (entry, label, text[:200]))
        runs.append(dict(entry=entry, defs=defs, flags=job.get('flags', []), bounds=job.get('bounds', ''), wall_s=round(s['wall_s'], 2), paths=s['paths'], obligations=s['obligations'], proved=s['proved'], queries=s['queries'], solver_s=s['solver_s'], undecided=s['undecided'], unsupported=s['unsup'], timeouts=s['timeouts'], situations=sorted(reached)))
        print('%s %s: paths=%d obligations=%d proved=%d undecided=%d unsup=%d timeouts=%d queries=%d solver=%.1fs wall=%.1fs' % (pid, entry, s['paths'], s['obligations'], s['proved'], s['undecided'], s['unsup'], s['timeouts'], s['queries'], s['solver_s'], s['wall_s']), flush=True)
        if viols: break
    complete = not notes and not tot['undecided'] and not tot['unsup'] and not tot['timeouts']
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='model_checking',
              coverage=dict(states=tot['paths'], transitions=tot['forks'], traces_validated_against_impl=validated, samples=samples[:6] or [dict(note='no path witness')],
                            obligations=tot['obligations'], discharged=tot['proved'], queries=tot['queries'], queries_sat=tot['sat'], queries_unsat=tot['unsat'], queries_unknown=tot['unknown'],
                            solver_s=round(solver, 3), instructions=tot['insts'], undecided=tot['undecided'], unsupported_paths=tot['unsup'], timeouts=tot['timeouts'], faulting_paths=tot['err'],
                            functions_encoded=sorted('%s (%s)' % kv for kv in funcs.items()), runs=runs, bounds=[r['bounds'] for r in runs if r['bounds']], complete_within_bounds=complete, notes=notes,
                            meaning='states = symbolic paths executed, transitions = symbolic branches forked, traces validated = path witnesses replayed natively on the compiled code with the same outcome'),
              assumptions=P.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=len(viols))
    os.makedirs(V + '/evidence', exist_ok=True)
    with open(V + '/evidence/%s.json' % pid, 'w') as f: json.dump(ev, f, indent=1)
    for m in notes: print('note:', m)
    for d, w in kfs:
        if any(x['label'] == d.get('label') for x in kf): print('KNOWN-FINDING: property=%s %s' % (pid, w))
    for x in viols: print('  %s | %s | %s | %s' % (x['entry'], x['label'], x['at'], x['native'])); print('  inputs: ' + json.dumps(x['model'])[:1500])
    for x in viols[:1]: print('VIOLATION property=%s replay=%s' % (pid, x['replay']))
    return (1 if viols else 0), ev

def setup():
    import concurrent.futures as cf
    sxlib.engine(); todo, nat = [], set()
    for pid, P in PROPS.items():
        for job in P['quick']:
            h, d = job.get('harness', P.get('harness')), tuple(job.get('defs', []))
            todo.append((h, d, job['entry'])); nat.add((h, d))
    def one(x): return sxlib.bitcode(x[0], list(x[1]), [x[2]]) if len(x) == 3 else sxlib.native(x[0], list(x[1]))
    nat = sorted(nat); one(todo[0]); one(nat[0])
    with cf.ThreadPoolExecutor(sxlib.JOBS) as ex: list(ex.map(one, sorted(set(todo)) + nat))
    return 0

if __name__ == '__main__':
    a = sys.argv[1:]
    if not a: print(__doc__); sys.exit(2)
    if a[0] == '--setup': sys.exit(setup())
    if a[0] == '--replay': sys.exit(replay_file(a[1]))
    tier = a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    try: rc, _ = run(a[0], tier)
    except Exception as e:
        import traceback; traceback.print_exc(); rc = 2
    sys.exit(rc)
