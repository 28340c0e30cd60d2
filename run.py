#!/usr/bin/env python3
"""Driver:  run.py check ID [--tier quick|thorough]   run one check against /repo's working tree
            run.py replay FILE                         re-execute a recorded violation
            run.py setup                               sanity check of the tool chain
            run.py manifest                            rewrite MANIFEST.json from checks.py

Exit 0: property held on everything explored, 1: VIOLATION printed, 2: no answer (error of the check)."""
import concurrent.futures, glob, hashlib, json, os, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(HERE, 'build')
EVID = os.path.join(HERE, 'evidence')
sys.path.insert(0, HERE)
import checks  # noqa: E402

class CheckError(Exception):
    pass

class BuildFailed(Exception):
    """compilation of the code under test failed"""

def jobs():
    return max(2, min(8, os.cpu_count() or 2))

def sh(cmd, timeout=600, **kw):
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)
    except subprocess.TimeoutExpired:
        raise CheckError('timeout: ' + ' '.join(cmd)[:300])
    return r.returncode, r.stdout.decode('utf8', 'replace'), r.stderr.decode('utf8', 'replace')

def tree_hash():
    """everything a build can depend on"""
    h = hashlib.sha256()
    for base in ('include', 'filter-design'):
        for f in sorted(glob.glob(os.path.join(REPO, base, '**'), recursive=True)):
            if os.path.isfile(f):
                h.update(os.path.relpath(f, REPO).encode() + b'\0' + open(f, 'rb').read())
    for f in sorted(glob.glob(os.path.join(HERE, 'harness', '**'), recursive=True)) + [os.path.join(HERE, 'checks.py'), os.path.join(HERE, 'run.py')]:
        if os.path.isfile(f):
            h.update(f.encode() + b'\0' + open(f, 'rb').read())
    return h.hexdigest()[:16]

class Builder:
    """compiles the steps of one check in parallel, into build/<check>/<hash>"""
    def __init__(self, cid):
        base = os.path.join(BUILD, cid)
        self.dir = os.path.join(base, tree_hash())
        os.makedirs(base, exist_ok=True)
        for d in os.listdir(base):
            if os.path.join(base, d) != self.dir:
                shutil.rmtree(os.path.join(base, d), ignore_errors=True)
        os.makedirs(self.dir, exist_ok=True)

    def expand(self, s):
        return s.replace('{repo}', REPO).replace('{h}', os.path.join(HERE, 'harness')).replace('{b}', self.dir)

    def step(self, st):
        out = os.path.join(self.dir, st['out'])
        if os.path.exists(out):
            return None
        cmd = [self.expand(a) for a in st['cmd']]
        tmp = out + '.tmp%d' % os.getpid()
        rc, o, e = sh(cmd + ['-o', tmp], timeout=800)
        if rc != 0:
            return '%s\n%s' % (' '.join(cmd), (o + e)[-3000:])
        os.rename(tmp, out)
        return None

    def run(self, steps):
        """steps: list of phases, each a list of steps; returns {out: error} of failed ones"""
        failed = {}
        with concurrent.futures.ThreadPoolExecutor(jobs()) as ex:
            for phase in steps:
                for st, err in zip(phase, ex.map(self.step, phase)):
                    if err:
                        failed[st['out']] = err
                        if not st.get('may_fail'):
                            raise BuildFailed(err)
        return failed

def run_harness(b, binary, tier, extra=(), timeout=840):
    log = os.path.join(b.dir, 'log-' + os.path.basename(binary))
    shutil.rmtree(log, ignore_errors=True)
    os.makedirs(log)
    env = dict(os.environ, LC_ALL='C', VERIF_BUILD=b.dir, VERIF_HERE=HERE, VERIF_REPO=REPO)
    env.setdefault('ASAN_OPTIONS', 'abort_on_error=0:exitcode=77:detect_leaks=0:allocator_may_return_null=1')
    env.setdefault('UBSAN_OPTIONS', 'halt_on_error=1:print_stacktrace=1:exitcode=78')
    rc, o, e = sh([os.path.join(b.dir, binary), '--tier', tier, '--jobs', str(jobs()), '--log', log] + list(extra), timeout=timeout, env=env, cwd=b.dir)
    if rc not in (0, 1):
        raise CheckError('%s: exit %d\n%s%s' % (binary, rc, o[-2000:], e[-2000:]))
    try:
        return json.loads(o)
    except ValueError:
        raise CheckError('%s: unreadable result\n%s\n%s' % (binary, o[-2000:], e[-2000:]))

def merge(a, r):
    for k in ('items', 'traces', 'states', 'transitions', 'evals', 'distinct'):
        a[k] = a.get(k, 0) + r.get(k, 0)
    for k in ('samples', 'notes'):
        a[k] = a.get(k, []) + r.get(k, [])

def confirm(b, binary, tier, v):
    """replay before report: the trace alone, else its whole item"""
    rep = run_harness(b, binary, tier, ['--item', v['item'], '--trace', str(v['trace'])])
    if rep['violation']:
        return dict(rep['violation'], scope='trace')
    rep = run_harness(b, binary, tier, ['--item', v['item']])
    if rep['violation']:
        return dict(rep['violation'], scope='item')
    return None

def check(cid, tier):
    t0 = time.time()
    spec = checks.CHECKS[cid]
    b = Builder(cid)
    steps, binaries = spec['build'](tier)
    acc = {}
    viol = None
    failed = b.run(steps)
    for out, err in failed.items():
        msg = spec['on_build_failure'](out, err)
        if not msg:
            raise CheckError('build failed: ' + err)
        if not viol:
            viol = dict(binary=None, step=out, item='build', trace=0, desc=out, msg=msg, scope='build')
    if not viol:
        for binary in binaries:
            r = run_harness(b, binary, tier)
            merge(acc, r)
            if r['violation']:
                c = confirm(b, binary, tier, r['violation'])
                if c is None:           # may depend on what ran before it in the same process: once more as a whole
                    again = run_harness(b, binary, tier)['violation']
                    if not again:
                        raise CheckError('violation did not reproduce: %s' % json.dumps(r['violation']))
                    c = dict(again, scope='run')
                viol = dict(c, binary=binary)
                break
    wall = time.time() - t0
    write_evidence(cid, tier, spec, acc, viol, wall)
    if viol:
        path = os.path.join(EVID, 'replay-%s.json' % cid)
        with open(path, 'w') as f:
            json.dump(dict(viol, property=cid, tier=tier), f, indent=1)
        print('%s: %s [%s]: %s' % (cid, viol['item'], viol['desc'], viol['msg']))
        print('VIOLATION property=%s replay=%s' % (cid, path))
        return 1
    print('%s %s: %d items, %d traces, %d states, %d transitions, %d evaluations, %d distinct outcomes, %.1f s'
          % (cid, tier, acc['items'], acc['traces'], acc['states'], acc['transitions'], acc['evals'], acc['distinct'], wall))
    return 0

def write_evidence(cid, tier, spec, acc, viol, wall):
    level = spec['level']
    cov = {'samples': acc.get('samples', [])[:12] or ['none (build failure)'], 'items': acc.get('items', 0), 'bounds': spec['bounds']}
    if acc.get('notes'):
        cov['notes'] = acc['notes'][:40]
    if level == 'model_checking':
        cov.update(states=acc.get('states', 0), transitions=acc.get('transitions', 0), traces_validated_against_impl=acc.get('traces', 0),
                   values_compared=acc.get('evals', 0), distinct_outcomes=acc.get('distinct', 0))
    else:
        cov.update(evaluations=acc.get('traces', 0), distinct_nontrivial=acc.get('distinct', 0), rule=spec['rule'], values_compared=acc.get('evals', 0))
    cov['exhaustive'] = viol is None
    os.makedirs(EVID, exist_ok=True)
    ev = dict(property=cid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level=level, coverage=cov,
              assumptions=spec.get('assumptions', []), wall_s=round(wall, 2), violations=1 if viol else 0)
    with open(os.path.join(EVID, cid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)

def replay(path):
    v = json.load(open(path))
    spec = checks.CHECKS[v['property']]
    b = Builder(v['property'])
    steps, _ = spec['build'](v['tier'])
    failed = b.run(steps)
    if v['scope'] == 'build':
        print(failed.get(v['step'], 'builds now'))
        return 1 if v['step'] in failed else 0
    extra = ['--item', v['item']] + (['--trace', str(v['trace'])] if v['scope'] == 'trace' else [])
    if v['scope'] == 'run':
        extra = []
    r = run_harness(b, v['binary'], v['tier'], extra)
    print(json.dumps(r['violation'], indent=1))
    return 1 if r['violation'] else 0

def manifest():
    props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
    m = dict(version=1, setup_cmd='python3 run.py setup', checks=[], not_applicable=[],
             notes='No hooks: all harnesses use the public interface, link-time interposition and compiler instrumentation.')
    for p in props:
        s = checks.CHECKS.get(p['id'])
        if s:
            m['checks'].append(dict(property=p['id'], quick_cmd='python3 run.py check %s --tier quick' % p['id'],
                                    thorough_cmd='python3 run.py check %s --tier thorough' % p['id'],
                                    evidence_file='evidence/%s.json' % p['id'], technique=s['technique'], level=s['level'], level_note=s['note']))
        else:
            m['not_applicable'].append(dict(property=p['id'], reason=checks.NOT_APPLICABLE.get(p['id'], 'check not built yet')))
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')

def setup():
    for t in ('g++', 'clang++'):
        if not shutil.which(t):
            print('missing', t)
            return 2
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    return 0

def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    if a[0] == 'setup':
        return setup()
    if a[0] == 'manifest':
        manifest()
        return 0
    if a[0] == 'replay':
        return replay(a[1])
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    try:
        return check(a[1], tier)
    except (CheckError, BuildFailed) as e:
        print('NO ANSWER for %s: %s' % (a[1], e))
        return 2

sys.exit(main())
