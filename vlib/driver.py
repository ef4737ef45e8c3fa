"""Driver of the property checks (CPython side: Hypothesis, sharding, shrinking, evidence).

A check is a Hypothesis strategy of pure JSON cases and a function that runs in
a PyPy worker on the translated code of /repo's working tree. This side never
imports pykrylov.
"""
import argparse
import hashlib
import importlib
import json
import os
import pickle
import random
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PYPY = '/opt/venv/bin/python'
SHARDS = int(os.environ.get('VERIF_SHARDS', '7'))
CASE_TIMEOUT = 20
HYPOTHESIS = .35          # The share of cases Hypothesis generates.
SHRINK_EVALS = 500
SHRINK_SECONDS = 40


class HarnessError(Exception):
    pass


class Violation(Exception):
    pass


class Enough(KeyboardInterrupt):
    """Ends a Hypothesis run (not caught by it)."""


# --------------------------------------------------------------------------
# Workers

def repo_files():
    out = []
    base = os.path.join(REPO, 'pykrylov')
    for d, dirs, files in os.walk(base):
        dirs[:] = sorted(x for x in dirs if x not in ('tests', '__pycache__', 'build'))
        for f in sorted(files):
            if f.endswith('.py') and f != 'setup.py':
                p = os.path.join(d, f)
                out.append((os.path.getsize(p), os.path.relpath(p, REPO)))
    return out


def split_files(n):
    bins = [[0, []] for _ in range(n)]
    for size, rel in sorted(repo_files(), reverse=True):
        b = min(bins, key=lambda x: x[0])
        b[0] += size + 400
        b[1].append(rel)
    return [b[1] for b in bins]


class Worker(object):
    def __init__(self, scratch, files=()):
        env = {k: v for k, v in os.environ.items()
               if k not in ('PYTHONPATH', 'PYTHONHOME', 'VERIF_SEED', 'VERIF_TIER')}
        env.update(OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', PYTHONHASHSEED='0',
                   PYTHONDONTWRITEBYTECODE='1', LANG='C.UTF-8', LC_ALL='C.UTF-8')
        self.scratch = scratch
        self.p = subprocess.Popen(
            [PYPY, '-W', 'ignore', os.path.join(ROOT, 'vlib', 'worker.py'), ROOT, REPO, scratch] + list(files),
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
            env=env, cwd=scratch)
        self.buf = b''

    def readline(self, timeout):
        end = time.time() + timeout
        fd = self.p.stdout.fileno()
        while b'\n' not in self.buf:
            left = end - time.time()
            if left <= 0:
                return None
            r, _, _ = select.select([fd], [], [], left)
            if not r:
                return None
            chunk = os.read(fd, 1 << 16)
            if not chunk:
                return b''
            self.buf += chunk
        line, self.buf = self.buf.split(b'\n', 1)
        return line

    def say(self, obj):
        try:
            self.p.stdin.write(json.dumps(obj).encode() + b'\n')
            self.p.stdin.flush()
        except (BrokenPipeError, OSError):
            pass

    def expect(self, what, timeout=120):
        line = self.readline(timeout)
        if not line:
            raise HarnessError('worker did not answer (%s)' % what)
        msg = json.loads(line)
        if msg.get('state') != what:
            raise HarnessError('worker: %s' % msg)

    def close(self):
        try:
            self.p.stdin.close()
        except OSError:
            pass
        try:
            self.p.wait(2)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()


class Runner(object):
    """Runs cases, replacing its worker when that one dies or hangs."""

    def __init__(self, worker, pid):
        self.w = worker
        self.pid = pid

    def _fresh(self):
        self.w.close()
        self.w = Worker(self.w.scratch)
        self.w.expect('translated')
        self.w.say({'go': 1})
        self.w.expect('ready')

    def once(self, case, timeout):
        self.w.say({'pid': self.pid, 'case': case, 'timeout': timeout})
        line = self.w.readline(timeout + 15)
        if not line:
            try:
                self.w.p.kill()
            except OSError:
                pass
            return {'dead': 1}
        return json.loads(line)

    def run(self, case):
        r = self.once(case, CASE_TIMEOUT)
        if r.get('dead') or r.get('hang'):
            self._fresh()
            r = self.once(case, 3 * CASE_TIMEOUT)
            if r.get('hang'):
                return {'v': 'does not terminate within %d s' % (3 * CASE_TIMEOUT), 'slow': 1}
            if r.get('dead'):
                self._fresh()
                return {'v': 'kills or blocks the interpreter', 'slow': 1}
        if 'err' in r:
            raise HarnessError(r['err'])
        return r


# --------------------------------------------------------------------------
# One shard

def canon(case):
    return json.dumps(case, sort_keys=True, separators=(',', ':'))


def shard_main(pid, check, tier, seed, shard, nshards, worker, fd, regress, deadline):
    out = {'evals': 0, 'hashes': [], 'labels': {}, 'samples': [], 'skipped': {},
           'violation': None, 'error': None, 'known': [], 'rejected': 0, 'cut': False}
    hashes = set()
    try:
        runner = Runner(worker, pid)

        def evaluate(case):
            r = runner.run(case)
            out['evals'] += 1
            for k in r.get('known', ()):
                if k not in out['known']:
                    out['known'].append(k)
            if 'v' in r:
                return r
            if r.get('skip'):
                out['skipped'][r['skip']] = out['skipped'].get(r['skip'], 0) + 1
            for l in r.get('lab', ()):
                out['labels'][l] = out['labels'].get(l, 0) + 1
            if r.get('nt'):
                h = hashlib.md5(canon(case).encode()).hexdigest()[:16]
                if h not in hashes:
                    hashes.add(h)
                    if len(out['samples']) < 3 and len(canon(case)) < 1500:
                        out['samples'].append(case)
            return r

        best = None
        for path, case in regress:
            r = evaluate(case)
            if 'v' in r:
                best = (case, r['v'], path)
                break

        if best is None:
            best = generate(check, tier, seed, shard, nshards, evaluate, out, deadline)
        if best is not None:
            out['violation'] = {'case': best[0], 'message': best[1], 'from': best[2]}
    except HarnessError as e:
        out['error'] = str(e)
    except Exception:
        out['error'] = traceback.format_exc()
    out['hashes'] = sorted(hashes)
    with os.fdopen(fd, 'wb') as f:
        pickle.dump(out, f)
    try:
        runner.w.close()
    except Exception:
        pass


def generate(check, tier, seed, shard, nshards, evaluate, out, deadline):
    """Cases from Hypothesis (a share of them), then from the uniform sampler; the smallest failure found."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    total = check.quick if tier == 'quick' else check.thorough
    n = (total + nshards - 1) // nshards
    state = {'best': None, 'evals': 0, 't': None}
    seen = set()

    def key(case):
        c = canon(case)
        return (len(c), c)

    def test(case):
        if state['best'] is None and time.time() > deadline:
            out['cut'] = True
            raise Enough()
        if state['best'] is not None:
            state['evals'] += 1
            if state['evals'] > SHRINK_EVALS or time.time() - state['t'] > SHRINK_SECONDS:
                raise Enough()
        else:
            h = hash(canon(case))
            if h in seen:
                return
            seen.add(h)
        r = evaluate(case)
        if 'v' in r:
            if state['best'] is None:
                state['t'] = time.time()
                state['best'] = (case, r['v'], None)
            elif key(case) < key(state['best'][0]):
                state['best'] = (case, r['v'], None)
            if r.get('slow'):
                raise Enough()
            raise Violation(r['v'])

    t = settings(max_examples=max(1, int(n * HYPOTHESIS)), database=None, deadline=None, print_blob=False,
                 report_multiple_bugs=False, suppress_health_check=list(HealthCheck),
                 phases=[Phase.generate, Phase.shrink])(given(check.strategy(tier))(test))
    t = hypothesis.seed(seed * 1000 + shard)(t)
    try:
        t()
    except Enough:
        pass
    except HarnessError:
        raise
    except Violation:
        pass
    except BaseException:
        if state['best'] is None:
            raise
    if state['best'] is None and not out['cut']:
        uniform(check, tier, seed * 1000 + shard, n, seen, test, out)
    return state['best']


def uniform(check, tier, seed, n, seen, test, out):
    from . import gen, spec
    spec.UNIFORM[0] = True
    strategy = check.strategy(tier)
    rnd = random.Random(seed)
    tries = 0
    try:
        while len(seen) < n and tries < 2 * n:
            tries += 1
            case, made = gen.sample(strategy, rnd)
            case = json.loads(canon(case))
            try:
                test(case)
            except Violation:
                def fails(c):
                    try:
                        test(json.loads(canon(c)))
                    except Violation:
                        return True
                    return False
                gen.shrink(strategy, made, fails)
                return
    except Enough:
        pass
    finally:
        spec.UNIFORM[0] = False


# --------------------------------------------------------------------------
# Known findings

def known_findings(pid):
    """Lines  'known: property=<id> sig=<signature> case=<file> <what fails>'."""
    res = []
    path = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path, encoding='utf-8'):
            if line.startswith('known:'):
                fields = line.split(None, 4)
                d = dict(f.split('=', 1) for f in fields[1:4])
                if d['property'] == pid:
                    res.append((d['sig'], os.path.join(ROOT, d['case']), fields[4].strip()))
    return res


# --------------------------------------------------------------------------

def load(pid):
    from props import registry
    return importlib.import_module('props.' + registry.GROUP[pid]).CHECKS[pid]


def start_workers(n, scratch):
    os.makedirs(os.path.join(scratch, 'src'))
    ws = [Worker(scratch, files) for files in split_files(n)]
    for w in ws:
        w.expect('translated')
    shutil.copy(os.path.join(ROOT, 'vlib', 'py2rt.py'), os.path.join(scratch, 'src', '_py2rt.py'))
    known = {}
    for w in ws:
        w.say({'go': 1})
    for w in ws:
        w.expect('ready')
    return ws


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--replay')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args(argv)
    t0 = time.time()
    check = load(a.pid)
    check.quick = int(check.quick * a.scale)
    check.thorough = int(check.thorough * a.scale)
    scratch = tempfile.mkdtemp(prefix='pykv-')
    try:
        if a.replay:
            return replay(a, check, scratch)
        return run(a, check, scratch, t0)
    except HarnessError as e:
        print('HARNESS ERROR property=%s: %s' % (a.pid, e))
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def replay(a, check, scratch):
    ws = start_workers(1, scratch)
    data = json.load(open(a.replay))
    r = Runner(ws[0], a.pid)
    res = r.run(data['case'])
    r.w.close()
    if 'v' in res:
        print(res['v'])
        print('VIOLATION property=%s replay=%s' % (a.pid, a.replay))
        return 1
    print('replay passes: %s' % json.dumps(res))
    return 0


def run(a, check, scratch, t0):
    pid = a.pid
    n = SHARDS
    # Cases of defects found earlier come first, dealt to the shards in turn.
    regdir = os.path.join(ROOT, 'regress', pid)
    regress = []
    if os.path.isdir(regdir):
        for f in sorted(os.listdir(regdir)):
            if f.endswith('.json'):
                regress.append((os.path.join(regdir, f), json.load(open(os.path.join(regdir, f)))['case']))
    known = known_findings(pid)
    for sig, path, what in known:
        regress.append((path, json.load(open(path))['case']))
    try:
        import hypothesis  # noqa: F401  (imported once, before forking)
        check.strategy(a.tier)
    except ImportError as e:
        raise HarnessError(str(e))
    ws = start_workers(n, scratch)
    limit = float(os.environ.get('VERIF_LIMIT', '480' if a.tier == 'quick' else '5400'))
    deadline = t0 + limit
    kids = []
    for i in range(n):
        r, w = os.pipe()
        pid_ = os.fork()
        if pid_ == 0:
            code = 0
            try:
                os.close(r)
                devnull = os.open(os.devnull, os.O_RDWR)
                os.dup2(devnull, 1)
                if not a.v:
                    os.dup2(devnull, 2)
                shard_main(pid, check, a.tier, a.seed, i, n, ws[i], w, regress[i::n], deadline)
            except BaseException:
                code = 3
            finally:
                os._exit(code)
        os.close(w)
        kids.append((pid_, r))
    outs = []
    for pid_, r in kids:
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        os.waitpid(pid_, 0)
        outs.append(pickle.loads(data) if data else {'error': 'shard died'})
    for w in ws:
        w.close()
    errors = [o['error'] for o in outs if o.get('error')]
    viol = [o['violation'] for o in outs if o.get('violation')]
    hashes, labels, skipped, samples = set(), {}, {}, []
    evals = 0
    for o in outs:
        hashes.update(o.get('hashes', ()))
        evals += o.get('evals', 0)
        for d, s in ((labels, o.get('labels', {})), (skipped, o.get('skipped', {}))):
            for k, v in s.items():
                d[k] = d.get(k, 0) + v
    for j in range(3):
        for o in outs:
            if j < len(o.get('samples', ())):
                samples.append(o['samples'][j])
    samples = samples[:6]
    hit = set(k for o in outs for k in o.get('known', ()))
    listed = set(sig for sig, _, _ in known)
    for sig, path, what in known:
        if sig in hit:
            print('KNOWN-FINDING: property=%s %s' % (pid, what))
    for sig in sorted(hit - listed):
        errors.append('unlisted signature %s' % sig)

    ev = {'property': pid, 'tier': a.tier, 'seed': a.seed, 'level': 'exploration',
          'coverage': {'evaluations': evals, 'distinct_nontrivial': len(hashes),
                       'rule': check.rule, 'samples': samples or [{'none': 'no non-trivial case was reached'}],
                       'labels': labels, 'not_applicable_cases': skipped,
                       'regression_cases': len(regress)},
          'assumptions': check.assumptions,
          'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    if any(o.get('cut') for o in outs):
        ev['coverage']['time_limit_reached'] = True
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: %d cases, %d distinct non-trivial, %.1f s' % (pid, a.tier, evals, len(hashes), time.time() - t0))
    if a.v:
        print('labels', json.dumps(labels, sort_keys=True))
        print('skipped', json.dumps(skipped, sort_keys=True))
    if viol:
        v = viol[0]
        os.makedirs(os.path.join(ROOT, 'replay'), exist_ok=True)
        rp = os.path.join(ROOT, 'replay', '%s-%s.json' % (pid, hashlib.md5(canon(v['case']).encode()).hexdigest()[:10]))
        with open(rp, 'w') as f:
            json.dump({'property': pid, 'case': v['case'], 'message': v['message'],
                       'seed': a.seed, 'tier': a.tier,
                       'how': 'python3-vt run.py %s --replay %s' % (pid, rp)}, f, indent=1)
        print(v['message'])
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    if errors:
        print('HARNESS ERROR property=%s: %s' % (pid, errors[0]))
        return 2
    return 0
