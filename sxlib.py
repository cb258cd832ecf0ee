# Driver library: compile the repository's current sources to LLVM IR, link them
# with models and a harness, run the symbolic executor, replay counterexamples
# natively against the real code, write evidence.
import threading
import concurrent.futures as cf, glob, hashlib, json, os, re, subprocess, sys, time, shutil
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SX_REPO', '/repo')
B = os.path.join(V, 'build')
LLVM = '/usr/lib/llvm-18/bin/'
INC = ['-I' + V + '/shim', '-I' + V + '/harness', '-I' + V + '/models', '-I' + REPO + '/McCalib/include', '-I' + REPO, '-I/usr/include/opencv4', '-I/usr/include/eigen3']
BCF = ['-std=c++17', '-O1', '-Xclang', '-disable-llvm-passes', '-DNDEBUG', '-gline-tables-only', '-ffp-contract=off', '-fno-vectorize', '-fno-slp-vectorize', '-w', '-fno-access-control', '-include', V + '/harness/rng_pre.h', '-emit-llvm', '-c']
MODELS = ['stdmodel', 'minicv', 'arucomodel', 'ceresmodel', 'env']
PASSES = 'internalize,globaldce,function(sroa,early-cse,simplifycfg),cgscc(inline,function(sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>)),globaldce,function(early-cse,simplifycfg,adce)'
JOBS = min(8, os.cpu_count() or 8)

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

class BuildError(Exception):
    pass

def _h(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode()); h.update(b'\0')
    return h.hexdigest()[:24]

def rd(p):
    with open(p, 'rb') as f: return f.read()

def tree_key(repo_only=False):
    fs = sorted(glob.glob(REPO + '/McCalib/include/**/*', recursive=True)) + sorted(glob.glob(V + '/shim/**/*', recursive=True))
    fs += [V + '/harness/sx_api.h', V + '/harness/native_pre.h', V + '/harness/rng_pre.h'] if repo_only else sorted(glob.glob(V + '/harness/*.h')) + sorted(glob.glob(V + '/models/*.h')) + sorted(glob.glob(REPO + '/apps/**/*.[ch]*', recursive=True))
    return _h(*[x for f in fs if os.path.isfile(f) for x in (f, rd(f))])

def engine():
    src = sorted(glob.glob(V + '/engine/*'))
    key = _h(*[rd(f) for f in src]); out = B + '/sx-' + key
    if not os.path.exists(out):
        os.makedirs(B, exist_ok=True)
        r = sh(['bash', V + '/engine/build.sh', out])
        if r.returncode: raise BuildError('engine: ' + r.stdout[-3000:])
    return out

def repo_sources():
    return [f for f in sorted(glob.glob(REPO + '/McCalib/src/**/*.cpp', recursive=True)) if os.path.basename(f) != 'logger.cpp']

def compile_bc(src, defs, tk):
    key = _h(src, rd(src), ' '.join(defs + BCF + INC), tk)
    out = B + '/bc/' + os.path.basename(src) + '.' + key + '.bc'
    if not os.path.exists(out):
        os.makedirs(B + '/bc', exist_ok=True)
        t = out + '.%d.%d' % (os.getpid(), threading.get_ident())
        r = sh(['clang++'] + BCF + defs + INC + [src, '-o', t])
        if r.returncode: raise BuildError(src + '\n' + r.stdout[-4000:])
        os.rename(t, out)
    return out

def bitcode(harness, defs, entries, models=MODELS, app=None):
    tk, tkr = tree_key(), tree_key(True)
    src = [(s, []) for s in repo_sources()] + [(V + '/models/%s.cpp' % m, []) for m in models] + [(V + '/harness/' + harness, defs)]
    if app: src += app
    with cf.ThreadPoolExecutor(JOBS) as ex:
        outs = list(ex.map(lambda s: compile_bc(s[0], s[1], tkr if s[0].startswith(REPO) else tk), src))
    key = _h(*outs, *entries, PASSES); out = B + '/bc/linked-' + key + '.bc'
    if not os.path.exists(out):
        t = out + '.%d.%d' % (os.getpid(), threading.get_ident())
        r = sh([LLVM + 'llvm-link', '-o', t + '.l'] + outs)
        if r.returncode: raise BuildError('link: ' + r.stdout[-3000:])
        r = sh([LLVM + 'opt', '-passes=' + PASSES, '-internalize-public-api-list=' + ','.join(entries), t + '.l', '-o', t])
        if r.returncode: raise BuildError('opt: ' + r.stdout[-3000:])
        os.remove(t + '.l'); os.rename(t, out)
    return out

def run_sx(bc, entry, timeout, flags=()):
    out = B + '/run-%d-%s.jsonl' % (os.getpid(), entry)
    r = sh([engine(), bc, '-o', out, '-t', str(timeout), '-j', str(JOBS), '-e', entry] + list(flags))
    res = []
    if os.path.exists(out):
        for l in open(out):
            try: res.append(json.loads(l))
            except ValueError: pass
        os.remove(out)
    if not any(x.get('t') == 'sum' for x in res):
        raise BuildError('engine run failed: ' + r.stdout[-2000:])
    return res, r.stdout

NF = ['-std=c++17', '-O1', '-g1', '-DNDEBUG', '-w', '-fno-access-control', '-fno-inline', '-ffp-contract=off', '-Dpthread_mutex_lock_=pthread_mutex_lock']
NLIBS = ['-lceres', '-lglog', '-lopencv_calib3d', '-lopencv_aruco', '-lopencv_features2d', '-lopencv_flann', '-lopencv_imgcodecs', '-lopencv_imgproc', '-lopencv_core', '-lboost_system', '-lpthread', '-ldl']
SAN = {'asan': ['-fsanitize=address,bounds,null,signed-integer-overflow,integer-divide-by-zero,float-cast-overflow,return,bool', '-fno-sanitize-recover=all', '-D_GLIBCXX_SANITIZE_VECTOR=1'],
       'plain': [], 'tsan': ['-fsanitize=thread']}

def native(harness, defs, mode='asan', app=None):
    tk, tkr = tree_key(), tree_key(True)
    src = [(s, []) for s in repo_sources()] + [(V + '/models/env.cpp', []), (V + '/harness/sx_native.cpp', []), (V + '/harness/' + harness, defs)] + (app or [])
    fl = NF + SAN[mode] + ['-include', V + '/harness/rng_pre.h']
    def comp(s):
        f = list(fl)
        if os.path.basename(s[0]) != 'sx_native.cpp': f += ['-include', V + '/harness/native_pre.h']
        key = _h(s[0], rd(s[0]), ' '.join(f + s[1] + INC), tkr if s[0].startswith(REPO) else tk)
        out = B + '/nat/' + os.path.basename(s[0]) + '.' + key + '.o'
        if not os.path.exists(out):
            os.makedirs(B + '/nat', exist_ok=True); t = out + '.%d.%d' % (os.getpid(), threading.get_ident())
            r = sh(['clang++'] + f + s[1] + INC + ['-c', s[0], '-o', t])
            if r.returncode: raise BuildError(s[0] + '\n' + r.stdout[-4000:])
            os.rename(t, out)
        return out
    with cf.ThreadPoolExecutor(JOBS) as ex:
        outs = list(ex.map(comp, src))
    key = _h(*outs, mode); exe = B + '/nat/exe-' + key
    if not os.path.exists(exe):
        t = exe + '.%d.%d' % (os.getpid(), threading.get_ident())
        r = sh(['clang++'] + SAN[mode][:1] + ['-rdynamic', '-o', t] + outs + NLIBS)
        if r.returncode: raise BuildError('native link: ' + r.stdout[-3000:])
        os.rename(t, exe)
    return exe

FAULTS = ('oob', 'uaf', 'null', 'badfree', 'doublefree')
def replay(harness, defs, entry, viol, mfile, app=None, tmo=60):
    """returns (confirmed, text)"""
    kind = viol['kind']
    mode = 'plain' if kind == 'uninit' else 'tsan' if kind == 'race' else 'asan'
    exe = native(harness, defs, mode, app)
    env = dict(os.environ, ASAN_OPTIONS='exitcode=99:detect_leaks=0:detect_stack_use_after_return=0:allocator_may_return_null=1:detect_odr_violation=0', UBSAN_OPTIONS='halt_on_error=1:exitcode=98:print_stacktrace=0', TSAN_OPTIONS='exitcode=97:halt_on_error=1')
    cmd = [exe, entry, mfile]
    if mode == 'plain': cmd = ['valgrind', '-q', '--error-exitcode=96', '--exit-on-first-error=yes', '--undef-value-errors=yes'] + cmd
    if mode == 'tsan': env['SX_REAL_THREADS'] = '1'; cmd = ['setarch', '-R'] + cmd
    wd = B + '/wd-%d' % os.getpid(); os.makedirs(wd, exist_ok=True)
    try:
        try: r = sh(cmd, env=env, cwd=wd, timeout=tmo * (5 if mode == 'plain' else 1))
        except subprocess.TimeoutExpired:
            return kind in ('steps', 'deadlock'), 'native run did not finish within %d s' % tmo
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    rc = r.returncode; tail = r.stdout[-1500:]
    m = re.search(r'REPLAY-VIOLATION (.*)', r.stdout)
    if rc == 1 and m: return True, m.group(1)
    if rc in (99, 98, 97, 96):
        return True, 'sanitizer: ' + tail
    if rc < 0 or rc in (134, 139): return True, 'abnormal termination %d: %s' % (rc, tail)
    return False, 'exit %d: %s' % (rc, tail[-300:])
