#!/usr/bin/env python3
"""Runs the monitors of one property against /repo's working tree.

  check.py ID [--tier quick|thorough]      decide a property
  check.py --build                         build every monitor (setup_cmd)
  check.py --replay FILE                   run the failing case of a violation again

Exit 0: held on everything explored. Exit 1 and a VIOLATION line: broken.
Exit 2: no answer (a monitor did not build, or the table below is wrong).
"""
import concurrent.futures as cf, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
sys.path.insert(0, VERIF)
from checks import CHECKS, BINARIES, FLAVOURS

NPROC = 8
SOFT_LIMIT = {'quick': 600, 'thorough': 3300}     # seconds after which no new chunk is started


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


# ---- building ---------------------------------------------------------------------------------------
def tree_hash(dirs):
    h = hashlib.sha256()
    for d in dirs:
        for root, ds, fs in os.walk(d):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(root, f)
                if f.endswith(('.c', '.h', '.hpp', '.cpp', '.cc')):
                    h.update(os.path.relpath(p, d).encode() + b'\0')
                    with open(p, 'rb') as fh:
                        h.update(fh.read() + b'\0')
    return h


class BuildError(Exception):
    pass


def compile_one(args):
    r = sh(args)
    if r.returncode:
        raise BuildError(' '.join(args) + '\n' + r.stdout[:6000])


def build(pairs):
    """pairs: set of (binary, flavour). Returns {(binary, flavour): path}."""
    h = tree_hash([os.path.join(REPO, 'include'), os.path.join(VERIF, 'harness')])
    out, jobs, links = {}, {}, []
    for b, fl in sorted(pairs):
        spec, flv = BINARIES[b], FLAVOURS[fl]
        cc, cxx = flv.get('cc', 'gcc-11'), flv.get('cxx', 'g++-11')
        flags = flv['flags']
        cflags = ['-g', '-march=native', '-pthread', '-w', *flags]
        key = hashlib.sha256(h.hexdigest().encode() + repr((cc, cxx, flags, spec)).encode()).hexdigest()[:16]
        d = os.path.join(BUILD, f'{b}-{fl}-{key}')
        exe = os.path.join(d, b)
        out[(b, fl)] = exe
        if os.path.exists(exe):
            continue
        os.makedirs(d, exist_ok=True)
        objs = []
        inc = ['-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(REPO, 'include/wormhole')]
        ckey = hashlib.sha256(h.hexdigest().encode() + repr((cc, flags)).encode()).hexdigest()[:16]
        for c in spec.get('c', ['kv', 'lib', 'wh', 'wh_int']):
            cd = os.path.join(BUILD, f'c-{fl}-{ckey}')
            os.makedirs(cd, exist_ok=True)
            o = os.path.join(cd, c + '.o')
            objs.append(o)
            if not os.path.exists(o):
                jobs[o] = [cc, *cflags, '-DNDEBUG', *inc, '-c', os.path.join(REPO, 'include/wormhole', c + '.c')]
        for s in spec['src']:
            o = os.path.join(d, s + '.o')
            objs.append(o)
            jobs[o] = [cxx, '-std=c++17', *cflags, *spec.get('defs', []), *inc, '-I' + os.path.join(VERIF, 'harness'),
                       '-c', os.path.join(VERIF, 'harness', s)]
        links.append((exe, [cxx, *flags, '-pthread', *objs, *spec.get('libs', [])]))
    tag = '.tmp%d' % os.getpid()

    def do(o, a):
        compile_one(a + ['-o', o + tag])
        os.rename(o + tag, o)
    with cf.ThreadPoolExecutor(NPROC) as ex:
        for f in [ex.submit(do, o, a) for o, a in jobs.items()]:
            f.result()
        for f in [ex.submit(do, e, a) for e, a in links]:
            f.result()
    return out


# ---- running ----------------------------------------------------------------------------------------
ENV = dict(os.environ,
           ASAN_OPTIONS='abort_on_error=0:exitcode=77:detect_stack_use_after_return=0:allocator_may_return_null=0:detect_leaks=0:'
                        'handle_segv=1:allow_user_segv_handler=0:malloc_context_size=12',
           LSAN_OPTIONS='exitcode=78',
           UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1',
           TSAN_OPTIONS='exitcode=66:halt_on_error=1:history_size=4:second_deadlock_stack=1')


def run_proc(exe, run, a, b, timeout):
    env = dict(ENV)
    if run.get('leaks'):
        env['ASAN_OPTIONS'] = env['ASAN_OPTIONS'].replace('detect_leaks=0', 'detect_leaks=1')
    env.update(run.get('env', {}))
    if 'supp' in run:
        env['TSAN_OPTIONS'] += ':suppressions=' + os.path.join(VERIF, 'harness', run['supp'])

    def pre():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if run['flavour'] in ('plain', 'O0', 'O3'):
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    cmd = [exe, run['mode'], str(a), str(b)]
    if run.get('setarch'):
        cmd = ['setarch', '-R'] + cmd
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, preexec_fn=pre, cwd=BUILD)
    try:
        o, e = p.communicate(timeout=timeout)
        to = False
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        o, e = p.communicate()
        to = True
    return p.returncode, to, o.decode('utf8', 'replace'), e.decode('utf8', 'replace'), cmd


def diagnose(rc, to, o, e):
    """None if the run was clean, else (kind, text)."""
    m = re.search(r'^BAD (.*)$', o, re.M)
    if m:
        return 'oracle', m.group(1)
    if to:
        return 'hang', 'no end within the time limit'
    if rc == 0 and re.search(r'^DONE$', o, re.M):
        return None
    lines = [l for l in e.splitlines() if re.search(r'ERROR: |runtime error|WARNING: ThreadSan|SUMMARY|detected memory leaks|terminate called|Assertion', l)]
    return 'crash', 'exit status %s: %s' % (rc, ' | '.join(lines[:3])[:600] or e[-300:])


def last_seed(e, dflt):
    m = re.findall(r'^@(\d+)$', e, re.M)
    return int(m[-1]) if m else dflt


def decide(pid, tier, seed):
    t0 = time.time()
    chk = CHECKS[pid]
    runs = []
    for r in chk['runs']:
        n = r['cases'][0 if tier == 'quick' else 1]
        if n:
            runs.append(dict(r, n=n))
    try:
        exes = build({(r['bin'], r['flavour']) for r in runs})
    except BuildError as x:
        print('BUILD-ERROR (no answer)\n' + str(x)[:4000])
        return 2
    t_build = time.time() - t0
    stop = threading.Event()
    bad, agg, samples, sigs, cases, nontrivial, slow, skipped = [], {}, [], set(), 0, 0, 0, 0
    lock = threading.Lock()
    per_run = {}

    def chunk(r, a, b):
        nonlocal cases, nontrivial, slow, skipped
        if stop.is_set() or time.time() - t0 > SOFT_LIMIT[tier]:
            with lock:
                skipped += b - a
            return
        exe = exes[(r['bin'], r['flavour'])]
        to_s = r.get('timeout', 120)
        rc, to, o, e, cmd = run_proc(exe, r, a, b, to_s)
        d = diagnose(rc, to, o, e)
        if d and not stop.is_set():
            s = last_seed(e, a)
            if d[0] != 'oracle':
                # once more, alone: a loaded machine must not look like a hang or a crash
                rc2, to2, o2, e2, cmd2 = run_proc(exe, r, s, s + 1, 3 * to_s)
                d2 = diagnose(rc2, to2, o2, e2)
                if d2:
                    d, e, cmd = d2, e2, cmd2
                elif d[0] == 'hang' or rc in (-9, 137):
                    with lock:
                        slow += 1
                    if b > s + 1:
                        chunk(r, s + 1, b)
                    d = None
            if d:
                with lock:
                    bad.append(dict(run=r, seed=s, kind=d[0], text=d[1], stderr=e[-6000:], cmd=cmd))
                stop.set()
        for m in re.finditer(r'^CASE (.*)$', o, re.M):
            try:
                c = json.loads(m.group(1))
            except ValueError:
                continue
            with lock:
                cases += 1
                pr = per_run.setdefault(r['mode'] + '/' + r['flavour'], 0)
                per_run[r['mode'] + '/' + r['flavour']] = pr + 1
                for k, v in c['ev'].items():
                    agg[k] = max(agg.get(k, 0), v) if k.startswith('max_') else agg.get(k, 0) + v
                if any(c['ev'].get(k, 0) for k in chk['nontrivial']):
                    sig = hashlib.md5((r['mode'] + c['desc'] + json.dumps(c['ev'], sort_keys=True)).encode()).digest()
                    if sig not in sigs:
                        sigs.add(sig)
                        nontrivial += 1
                        if len(samples) < 4 and (nontrivial % 37 == 1 or r['n'] < 200):
                            samples.append(dict(mode=r['mode'], flavour=r['flavour'], **c))

    pos, todo = 0, []
    for i, r in enumerate(runs):
        base = seed * 10_000_000 + i * 500_000      # the runs of a property see different cases
        for a in range(0, r['n'], r['chunk']):
            todo.append((a / max(1, r['n']), r, base + a, base + min(r['n'], a + r['chunk'])))
    todo.sort(key=lambda t: t[0])
    serial = [t for t in todo if t[1].get('serial')]
    par = [t for t in todo if not t[1].get('serial')]
    for ts, w in ((par, NPROC), (serial, 1)):
        with cf.ThreadPoolExecutor(w) as ex:
            for f in [ex.submit(chunk, *t[1:]) for t in ts]:
                f.result()

    known = load_known(pid)
    new = []
    for b in bad:
        k = next((k for k in known if re.search(k, b['text'] + '\n' + b['stderr'])), None)
        if k is None:
            new.append(b)
    wall = time.time() - t0
    ev = dict(property=pid, tier=tier, seed=seed, level=chk.get('level', 'exploration'),
              coverage=dict(evaluations=cases, distinct_nontrivial=nontrivial, rule=chk['rule'], samples=samples[:4],
                            observed=dict(sorted(agg.items())), cases_per_monitor=per_run, slow_reruns=slow,
                            cases_not_started=skipped, build_s=round(t_build, 1)),
              assumptions=chk.get('assumptions', []), wall_s=round(wall, 1), violations=len(new))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
    if new:
        b = new[0]
        rp = os.path.join(VERIF, 'evidence', 'replay-%s.json' % pid)
        with open(rp, 'w') as fh:
            json.dump(dict(property=pid, binary=b['run']['bin'], flavour=b['run']['flavour'], mode=b['run']['mode'], seed=b['seed'],
                           run={k: v for k, v in b['run'].items()}, kind=b['kind'], text=b['text'], stderr=b['stderr'], cmd=b['cmd']), fh, indent=1)
        print('%s: %s' % (b['kind'], b['text'][:1500]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    print('%s %s: held on %d cases (%d distinct non-trivial), %.1f s' % (pid, tier, cases, nontrivial, wall))
    if cases == 0:
        print('no case ran')
        return 2
    return 0


def load_known(pid):
    """Open findings: lines 'finding: property=ID match=/regex/ text'. Lines 'fixed: ...' suppress nothing."""
    pats = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) match=/(.*)/ (.*)$', l.strip())
            if m and m.group(1) == pid:
                pats.append(m.group(2))
                print('KNOWN-FINDING: property=%s %s' % (pid, m.group(3)))
    return pats


def main():
    os.makedirs(BUILD, exist_ok=True)
    if sys.argv[1] == '--build':
        try:
            build({(r['bin'], r['flavour']) for c in CHECKS.values() for r in c['runs'] if r['cases'][0]})
        except BuildError as x:
            print(x)
            return 2
        return 0
    if sys.argv[1] == '--replay':
        rp = json.load(open(sys.argv[2]))
        exes = build({(rp['binary'], rp['flavour'])})
        rc, to, o, e, cmd = run_proc(exes[(rp['binary'], rp['flavour'])], rp['run'], rp['seed'], rp['seed'] + 1, 600)
        print(' '.join(cmd)); print(o[-4000:]); print(e[-6000:])
        return 1 if diagnose(rc, to, o, e) else 0
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    return decide(pid, tier, seed)


sys.exit(main())
