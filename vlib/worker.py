"""PyPy worker: translates its share of /repo, then runs cases sent as JSON lines."""
import sys
sys.dont_write_bytecode = True
import io
import json
import os
import re
import signal
import traceback
import warnings

warnings.simplefilter('ignore')
ROOT, REPO, SCRATCH = sys.argv[1:4]
FILES = sys.argv[4:]
SRC = os.path.join(SCRATCH, 'src')

chan = os.fdopen(os.dup(1), 'wb', 0)
null = os.open(os.devnull, os.O_RDWR)
os.dup2(null, 1)


def send(obj):
    chan.write(json.dumps(obj).encode() + b'\n')


def translate(files):
    sys.path.insert(0, os.path.join(ROOT, 'vlib'))
    from lib2to3.refactor import RefactoringTool, get_fixers_from_package
    tool = RefactoringTool(get_fixers_from_package('lib2to3.fixes') + ['fix_classic_div'])
    sys.path.pop(0)
    for rel in files:
        src, dst = os.path.join(REPO, rel), os.path.join(SRC, rel)
        raw, _ = tool._read_python_source(src)
        if raw and not raw.endswith('\n'):
            raw += '\n'
        text = str(tool.refactor_string(raw, src)) if raw.strip() else raw
        compile(text, src, 'exec', dont_inherit=True)
        text = re.sub(r'(?m)\A((?:#.*\n)?)(#.*coding[:=]\s*)[-\w.]+', r'\1\2utf-8', text)
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        tmp = dst + '.tmp'
        with open(tmp, 'w', encoding='utf-8') as f:
            f.write(text)
        os.rename(tmp, dst)


try:
    if FILES:
        translate(FILES)
    send({'state': 'translated'})
except BaseException:
    send({'state': 'failed', 'trace': traceback.format_exc()})
    sys.exit(1)

line = sys.stdin.readline()
if not line:
    sys.exit(0)
try:
    sys.path.insert(0, ROOT)
    sys.path.insert(0, SRC)
    import importlib
    import numpy as np
    np.seterr(all='ignore')
    import pykrylov.linop, pykrylov.cg, pykrylov.cgs, pykrylov.tfqmr, pykrylov.bicgstab
    import pykrylov.minres, pykrylov.symmlq, pykrylov.lls, pykrylov.tools, pykrylov.gallery
    assert os.path.realpath(pykrylov.__file__).startswith(os.path.realpath(SRC)), pykrylov.__file__
    from props import registry
    from vlib import wl
    send({'state': 'ready'})
except BaseException:
    send({'state': 'failed', 'trace': traceback.format_exc()})
    sys.exit(1)

CHECKS = {}


class Hang(BaseException):
    pass


def alarm(sig, frame):
    raise Hang()


signal.signal(signal.SIGALRM, alarm)


class Sink(io.TextIOBase):
    def write(self, s):
        return len(s)


def run(pid, case):
    if pid not in CHECKS:
        CHECKS[pid] = importlib.import_module('props.' + registry.GROUP[pid]).CHECKS[pid]
    np.random.seed(12345)
    ctx = wl.Ctx()
    sys.stdout = Sink()
    try:
        CHECKS[pid].check(case, ctx)
    except wl.Fail as e:
        return {'v': str(e), 'known': ctx.known}
    except wl.Skip as e:
        return {'ok': 1, 'nt': False, 'skip': str(e), 'lab': ctx.labels, 'known': ctx.known}
    except (MemoryError, wl.Harness):
        return {'err': traceback.format_exc()}
    except wl.Runaway as e:
        return {'v': 'runaway: %s' % e, 'known': ctx.known}
    except Exception as e:
        tb = traceback.format_exc().strip().splitlines()
        return {'v': 'unexpected %s: %s\n  %s' % (type(e).__name__, e, '\n  '.join(tb[-7:-1])), 'known': ctx.known}
    finally:
        sys.stdout = sys.__stdout__
    return {'ok': 1, 'nt': bool(ctx.nontrivial), 'lab': ctx.labels, 'known': ctx.known}


while True:
    line = sys.stdin.readline()
    if not line:
        break
    msg = json.loads(line)
    try:
        signal.alarm(int(msg.get('timeout', 20)))
        try:
            r = run(msg['pid'], msg['case'])
        finally:
            signal.alarm(0)
    except Hang:
        r = {'hang': 1}
    send(r)
