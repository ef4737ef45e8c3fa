"""X01-X06: metamorphic and stateful checks of all the solvers."""
import io
import logging
import sys

import numpy as np
from vlib import wl, prob
from vlib.check import Check
from vlib.prob import ALL, SHORT, SYMM, LLS
from vlib.spec import st_
from props import lls

CHECKS = {}
FAMS = {'CG': ('spd', 'spd', 'dist'), 'CGS': ('near', 'normal', 'spd'), 'TFQMR': ('near', 'normal', 'spd'), 'BICGSTAB': ('near', 'normal', 'spd'),
        'MINRES': ('indef', 'spd', 'idist', 'bip'), 'SYMMLQ': ('indef', 'spd', 'idist', 'bip')}
WILD = {'CG': ('indef', 'sing', 'diagint'), 'CGS': ('gen', 'skew', 'indef'), 'TFQMR': ('gen', 'skew', 'indef'), 'BICGSTAB': ('gen', 'skew', 'indef'),
        'MINRES': ('sing', 'psd', 'diagint', 'intsym'), 'SYMMLQ': ('sing', 'intsym', 'diagint')}
HIST = {'CG': ('store_resids', 'store_iterates'), 'MINRES': ('store_resids', 'store_iterates'), 'SYMMLQ': ('store_iterates',),
        'LSQR': ('store_resids', 'store_iterates'), 'LSMR': ('store_resids', 'store_iterates'), 'CRAIG': ('store_resids', 'store_iterates'),
        'CRAIGMR': ('store_resids', 'store_iterates')}


def draw_job(draw, st, nmax, kinds=ALL, wild=False, scales=True, conds=(2., 5., 10.), pres=True, guess=True, long=40):
    """A solver, a system for it and options."""
    kind = draw(st.sampled_from(kinds))
    c = {'kind': kind}
    if kind in LLS:
        ps = (None, None, 'diag', 'spd') if pres else (None,)
        if kind in ('LSQR', 'LSMR'):
            c['d'] = lls.draw_lls(draw, st, nmax, pres=ps, conds=conds, scales=scales, fams=None if wild else ('gen', 'gen', 'dist'),
                                  rhs=('rand', 'rand', 'range', 'sing') + (('ortho',) if wild else ()), nmin=draw(st.sampled_from((1, min(2, nmax), min(3, nmax)))), long=long)
        else:
            c['d'] = lls.draw_sqd(draw, st, nmax, draw(st.sampled_from((1, min(2, nmax), min(3, nmax)))), ('rand', 'rand', 'range', 'sing') + (('ortho',) if wild else ()), long)
            if not pres:
                c['d']['pm'] = c['d']['pn'] = None
                c['d']['ea'] = draw(st.sampled_from((0, 1, -2)))
    else:
        fams = FAMS[kind] + (WILD[kind] if wild else ())
        sym = kind in SYMM + ('CG',)
        ps = ((None, None, 'diag', 'spd', 'eye') if sym else (None, None, 'diag', 'gen', 'spd')) if pres else (None,)
        gs = (None, None, 'rand', 'near', 'zero') if kind in SHORT and guess else (None,)
        c['d'] = prob.draw_square(draw, st, fams, nmax, ps, gs, scales=scales, conds=conds, long=long)
        if not scales:
            c['d']['ea'] = c['d']['eb'] = c['d']['em'] = 0
    c['o'] = draw_options(draw, st, kind, wild)
    return c


def draw_options(draw, st, kind, wild=False):
    o = {'budget': draw(st.sampled_from((None, None, None, 1, 2, 3, 5)))}
    if kind in SHORT:
        o['reltol'] = draw(st.sampled_from((None, 1e-10, 1e-6, 1e-3)))
        o['abstol'] = 0.
    elif kind in SYMM:
        o['rtol'] = draw(st.sampled_from((None, 1e-10, 1e-6, 1e-3)))
        o['shift'] = draw(st.sampled_from((0., 0., 0., .37, -.5)))
        if kind == 'MINRES':
            o['etol'] = draw(st.sampled_from((0., 0., 1e-3)))
    else:
        o['atol'] = draw(st.sampled_from((None, 1e-10, 1e-6, 1e-3)))
        o['btol'] = draw(st.sampled_from((None, 1e-10, 1e-6, 1e-3)))
        o['conlim'] = draw(st.sampled_from((None, 0., 1e12) + ((5.,) if wild else ())))
        o['etol'] = draw(st.sampled_from((0., 0., 1e-3)))
        o['wantvar'] = kind == 'LSQR' and draw(st.booleans())
    if kind == 'MINRES' or kind in LLS:
        o['window'] = draw(st.sampled_from((None, None, 1, 2)))
    for h in HIST.get(kind, ()):
        o[h] = draw(st.booleans())
    return o


class Job(object):
    """The matrices of a case and a way to solve it, possibly changed."""

    def __init__(self, c):
        self.kind, self.o, self.c = c['kind'], c['o'], c
        self.lls = self.kind in LLS
        d = c['d']
        if self.lls:
            S = lls.LSys(d, unit=self.kind in ('CRAIG', 'CRAIGMR'))
            self.A, self.b, self.pre, self.x0 = S.A, S.b, [S.Mi, S.Ni], None
            self.damp = S.damp if self.kind in ('LSQR', 'LSMR') else 0.
            self.sym = False
        else:
            S = prob.Sys(d)
            self.A, self.b, self.pre, self.x0 = S.A, S.b, [S.M], S.x0
            self.damp = 0.
            self.sym = S.symmetric
        self.S = S
        self.nrm = float(np.linalg.norm(self.A, 2))
        self.presym = [p is not None and np.array_equal(p, p.T) for p in self.pre]
        self.shift = self.o.get('shift', 0.) * self.nrm

    def precons(self, pre=None):
        out = []
        for p, s in zip(self.pre if pre is None else pre, self.presym):
            out.append(None if p is None else wl.L.linop_from_ndarray(p, symmetric=s))
        return out

    def options(self, **over):
        o = dict(self.o)
        o.update(over)
        kw = dict((k, v) for k, v in o.items() if v is not None and k not in ('budget', 'reltol', 'abstol', 'shift', 'wantvar') and v is not False)
        if o.get('shift'):
            kw['shift'] = self.shift
        if o.get('wantvar'):
            kw['wantvar'] = True
        for k in ('show', 'check'):
            if k in over:
                kw[k] = over[k]
        kw.update(prob.budget_kw(self.kind, o['budget']))
        return kw

    def solver(self, op=None, pre=None, **ctor):
        if op is None:
            op = wl.L.linop_from_ndarray(self.A, symmetric=self.sym)
        if self.kind in SHORT:
            for k in ('reltol', 'abstol'):
                if self.o[k] is not None:
                    ctor.setdefault(k, self.o[k])
        if not self.lls:
            p = self.precons()[0] if pre is None else pre[0]
            if p is not None:
                ctor['precon'] = p
        return prob.cls(self.kind)(op, **ctor)

    def solve(self, s, b=None, x0=None, pre=None, damp=None, shift=None, **over):
        kw = self.options(**over)
        if shift is not None:
            kw['shift'] = shift
        x0 = self.x0 if x0 is None else x0
        if x0 is not None:
            kw['guess'] = x0
        if self.lls:
            P = self.precons() if pre is None else pre
            for k, p in zip('MN', P):
                if p is not None:
                    kw[k] = p
            damp = self.damp if damp is None else damp
            if damp:
                kw['damp'] = damp
        if self.kind == 'MINRES':
            kw.setdefault('show', False)
            kw.setdefault('check', False)
        s.solve(self.b if b is None else b, **kw)
        return s

    def run(self, **kw):
        ctor = kw.pop('ctor', {})
        op, pre = kw.pop('op', None), kw.get('pre')
        return self.solve(self.solver(op, pre, **ctor), **kw)

    def snap(self, s):
        return prob.snapshot(self.kind, s)

    def steps(self, s):
        return int(s.nMatvec) if self.kind in SHORT + ('SYMMLQ',) else int(s.itn)

    def code(self, s):
        return int(bool(s.converged)) if self.kind in SHORT else int(s.istop)


def same(a, b):
    """Identical values, not-a-number included."""
    if a is None or b is None:
        return a is b
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    x, y = np.asarray(a), np.asarray(b)
    if x.shape != y.shape:
        return False
    return bool(np.all((x == y) | ((x != x) & (y != y))))


def compare(ctx, got, want, what, leave=()):
    for k in sorted(want):
        if k not in leave:
            ctx.ensure(same(got[k], want[k]), '%s: %s is %s instead of %s', what, k, wl.short(got[k]), wl.short(want[k]))


# ---------------------------------------------------------------- X01
def s_x01(tier):
    st = st_()

    @st.composite
    def case(draw):
        c = draw_job(draw, st, 6 if tier == 'quick' else 14, wild=True, conds=(2., 10., 100.))
        c['seq'] = [draw_step(draw, st, c['kind']) for _ in range(draw(st.integers(1, 3 if tier == 'quick' else 6)))]
        for t in c['seq']:      # Preconditioner, metrics, shift and damping belong to one solve.
            t['pre'] = draw(st.sampled_from(('keep', 'keep', 'given', 'none')))
            t['plain'] = not draw(st.integers(0, 3))
        c['buf'] = draw(st.booleans())      # The caller keeps one right-hand side and one guess and changes their entries.
        c['grow'] = draw(st.sampled_from((None, None, 'A', 'pre', 'both')))      # Data behind the operators changed before the last solve but one.
        return c
    return case()


def draw_step(draw, st, kind):
    return {'rhs': draw(st.sampled_from(('same', 'other', 'zero', 'eigen', 'neg'))), 's': draw(st.integers(0, 999)),
            'guess': draw(st.sampled_from((None, 'rand', 'zero'))) if kind in SHORT else None, 'o': draw_options(draw, st, kind, True),
            'check': draw(st.booleans())}


def behind(A, sym):
    """An operator that reads the entries of A at every product."""
    return wl.L.LinearOperator(A.shape[1], A.shape[0], lambda v: np.dot(A, v), matvec_transp=lambda v: np.dot(A.T, v), symmetric=sym, dtype=A.dtype)


def refill(bufs, key, v):
    """The entries of v in the array that holds all vectors of this role."""
    if v is None:
        return None
    if key not in bufs or bufs[key].dtype != v.dtype:
        bufs[key] = v.copy()
    bufs[key][:] = v
    return bufs[key]


def step_args(J, step):
    r = wl.rng(step['s'])
    m = J.A.shape[0]
    b = {'same': lambda: J.b.copy(), 'other': lambda: r.randn(m) * 2. ** (step['s'] % 5), 'zero': lambda: np.zeros(m),
         'neg': lambda: -3. * J.b, 'eigen': lambda: np.linalg.svd(J.A)[0][:, 0].copy()}[step['rhs']]()
    over = dict((k, v) for k, v in step['o'].items() if k not in ('reltol', 'abstol', 'shift'))
    if J.kind == 'MINRES':
        over['check'] = step['check']
    if J.kind == 'SYMMLQ' and step['check']:
        over['check'] = True
    if J.kind == 'CG' and step['check']:
        over['check_symmetric'] = True
    x0 = None
    if step['guess']:
        x0 = r.randn(J.A.shape[1]) if step['guess'] == 'rand' else np.zeros(J.A.shape[1])
    pre = None
    if J.lls:
        if step.get('pre') == 'none':
            pre = [None] * len(J.pre)
        elif step.get('pre') == 'given':
            pre = [behind(np.diag(2. ** r.randint(-2, 3, k)), True) for k in J.A.shape]
        if step.get('plain'):
            over['damp'] = 0.
    else:
        if step.get('pre') == 'given' and J.kind == 'MINRES':
            over['precon'] = behind(np.diag(2. ** r.randint(-2, 3, m)), True)
        if step.get('plain'):
            over['shift'] = 0.
    return b, x0, over, pre


def c_x01(c, ctx):
    J = Job(c)
    J.x0 = J.x0 if J.kind in SHORT else None
    A0, pre0 = J.A.copy(), [None if p is None else p.copy() for p in J.pre]
    first = J.x0
    op = behind(J.A, J.sym)
    P = [None if p is None else behind(p, q) for p, q in zip(J.pre, J.presym)]
    s = J.solver(op, P)
    steps = [(J.b, first, {}, None)] + [step_args(J, t) for t in c['seq']]
    steps.append((J.b, first, {}, None))
    bufs = {}
    grow = c.get('grow')
    if grow:
        steps.append((J.b, first, {}, None))
    for i, (b, x0, over, pre) in enumerate(steps):
        if c.get('buf'):
            b, x0 = refill(bufs, 'b', b), refill(bufs, 'x', x0)
        if grow and i == len(steps) - 1:
            if grow in ('A', 'both'):
                J.A *= .75
            if grow in ('pre', 'both'):
                for p in J.pre:
                    if p is not None:
                        p *= 1.25
            A0, pre0 = J.A.copy(), [None if p is None else p.copy() for p in J.pre]
        b0 = b.copy()
        g0 = None if x0 is None else x0.copy()
        J.x0 = None
        J.solve(s, b=b, x0=x0, pre=P if pre is None else pre, **over)
        got = J.snap(s)
        where = 'solve %d of the same solver' % (i + 1)
        ctx.ensure(same(b, b0), '%s changed the right-hand side', where)
        ctx.ensure(x0 is None or same(x0, g0), '%s changed the guess', where)
        ctx.ensure(same(J.A, A0), '%s changed the operator', where)
        ctx.ensure(all(same(p, q) for p, q in zip(J.pre, pre0)), '%s changed a preconditioner', where)
        f = J.solve(J.solver(behind(J.A, J.sym)), b=b0, x0=g0, pre=pre, **over)
        compare(ctx, got, J.snap(f), where + ' compared with a fresh solver')
        if i % 2 == 0 or i == len(steps) - 1:
            # Nothing returned is shared with what was passed in, nor with the histories.
            for name in ('x', 'r', 'bestSolution'):
                v = getattr(s, name, None)
                if isinstance(v, np.ndarray) and v.shape:
                    keep = [np.array(w, copy=True) for h in prob.LISTS[J.kind] for w in getattr(s, h)]
                    old = v.copy()
                    v += 1.
                    ctx.ensure(same(b, b0), '%s: the %s returned shares memory with the right-hand side', where, name)
                    ctx.ensure(x0 is None or same(x0, g0), '%s: the %s returned shares memory with the guess', where, name)
                    ctx.ensure(same(J.A, A0) and all(same(p, q) for p, q in zip(J.pre, pre0)), '%s: the %s returned shares memory with an operator', where, name)
                    now = [np.array(w, copy=True) for h in prob.LISTS[J.kind] for w in getattr(s, h)]
                    ctx.ensure(same(keep, now), '%s: the %s returned shares memory with a history', where, name)
                    v[:] = old
            hs = [w for h in prob.LISTS[J.kind] for w in getattr(s, h) if isinstance(w, np.ndarray) and w.shape]
            for j, w in enumerate(hs):
                w += 1. + j
            ctx.ensure(same(b, b0) and (x0 is None or same(x0, g0)) and same(s.x, got['x']), '%s: a history shares memory with the data or solution', where)
            if len(hs) > 1:
                olds = [v for h in prob.LISTS[J.kind] for v in got[h] if np.ndim(v)]
                ctx.ensure(all(np.allclose(w, v + 1. + j, rtol=1e-12, atol=0) for j, (w, v) in enumerate(zip(hs, olds)) if np.all(np.isfinite(v)) and np.max(np.abs(v)) < 1e8),
                           '%s: histories share memory', where)
            for j, w in enumerate(hs):
                w -= 1. + j
        if J.steps(s) > 1 and i:
            ctx.nt()
    ctx.label(J.kind, *['rhs ' + t['rhs'] for t in c['seq']])


CHECKS['X01'] = Check(s_x01, c_x01, 3000, 60000,
    'sequences of three to five solves (thorough to eight) with one solver object and varying right-hand sides, guesses, options, metrics or preconditioner of the solve, shift, damping and histories, each compared bit for bit with a fresh solver, inputs and shared memory verified after each; all ten solvers, systems of sizes to 6 (thorough 14), singular and inconsistent ones included; non-trivial: a later solve of more than one iteration',
    [])


# ---------------------------------------------------------------- X02
def s_x02(tier):
    st = st_()

    @st.composite
    def case(draw):
        what = draw(st.sampled_from(('zero', 'one', 'eigen', 'eigen')))
        c = draw_job(draw, st, 1 if what == 'one' else (7 if tier == 'quick' else 16), wild=what == 'zero', conds=(2., 5., 10., 30.), guess=what == 'one', long=40 if what == 'zero' else 0)
        c['what'] = what
        if what == 'one' and c['kind'] in LLS:
            c['d'][draw(st.sampled_from(('m', 'n')))] = draw(st.integers(1, 6))
        c['o']['budget'] = None if what != 'zero' else c['o']['budget']
        if what != 'zero':
            c['o'].pop('shift', None)
            if c['kind'] in LLS:
                c['o'].update(conlim=0., etol=0.)
            if c['kind'] == 'MINRES':
                c['o']['etol'] = 0.
        else:
            c['abs'] = draw(st.sampled_from((0., 1e-8)))
        c['check'] = draw(st.booleans())
        c['i'] = draw(st.integers(0, 99))
        return c
    return case()


def finite(ctx, J, s, leave=()):
    d = J.snap(s)
    for k in sorted(d):
        v = d[k]
        if k in leave or v is None or isinstance(v, str):
            continue
        for w in (v if isinstance(v, list) else [v]):
            ctx.ensure(bool(np.all(np.isfinite(np.asarray(w, float)))), '%s is not finite: %s', k, wl.short(v))


def c_x02(c, ctx):
    J = Job(c)
    kind = J.kind
    over = {}
    if c['check'] and kind in ('MINRES', 'SYMMLQ'):
        over['check'] = True
    if c['check'] and kind == 'CG':
        over['check_symmetric'] = True
    m, n = J.A.shape
    if c['what'] == 'zero':
        s = J.run(b=np.zeros(m), ctor={'abstol': c['abs']} if kind in SHORT else {}, **over)
        x = ctx.array(s.x, (m if kind == 'CRAIGMR' else n,), 'x')
        ctx.ensure(not np.any(x), 'x = %s', wl.short(x))
        ctx.ensure(same(s.bestSolution, s.x), 'bestSolution is not x')
        if kind == 'CRAIG':
            ctx.ensure(not np.any(ctx.array(s.r, (m,), 'r')), 'r = %s', wl.short(s.r))
        finite(ctx, J, s, ('var',))
        if kind in SHORT:
            ctx.ensure(s.converged, 'convergence is not reported')
            ctx.ensure(s.nMatvec == 0, '%d products were made', s.nMatvec)
            ctx.near(s.residNorm, 0., 0., 'residNorm')
            ctx.near(s.residNorm0, 0., 0., 'residNorm0')
        else:
            ctx.ensure(s.istop == 0 and s.itn == 0, 'code %r after %r iterations', s.istop, s.itn)
            ctx.ensure(bool(s.converged if kind in SYMM else s.optimal), 'success is not reported')
            if kind in LLS:
                ctx.ensure(s.status == 'solution is zero', 'status %r', s.status)
            else:
                ctx.near(s.residNorm, 0., 0., 'residNorm')
        ctx.nt()
        ctx.label(kind, 'zero')
        return
    b = J.b
    if J.lls:
        S = J.S
        U, sv, V = np.linalg.svd(J.A)
        if c['what'] == 'eigen':
            if any(p is not None for p in J.pre):
                J.pre = [None if p is None else np.eye(len(p)) for p in J.pre]
                if J.damp:
                    J.damp = S.damp = c['d']['damp'] * float(sv[0])
            if kind in ('CRAIG', 'CRAIGMR') and sv[0] > 1e3:
                ctx.skip('ill-conditioned')
            i = c['i'] % min(m, n)
            if sv[i] < 1e-3 * sv[0]:
                ctx.skip('rank deficient')
            b = U[:, i] * 2. ** c['d']['eb']
        elif not np.any(b) or not np.any(J.A):
            ctx.skip('b = 0 or A = 0')
        if kind == 'CRAIGMR':        # By default one too few for right-hand sides out of the range.
            over['budget'] = min(m, n) + 1
        s = J.run(b=b, **over)
        S.h = np.dot(S.Lm.T, b)
        if any(p is not None for p in J.pre) and c['what'] == 'eigen':
            S.Lm, S.Ln, S.H, S.h, S.pc, S.nrm = np.eye(m), np.eye(n), J.A, b, 1., float(sv[0])
        x = np.dot(S.Ln, S.solution())
        if kind == 'CRAIGMR':
            x = np.dot(S.Lm, np.linalg.solve(np.eye(m) + np.dot(S.H, S.H.T), S.h))
        steps, limit = J.steps(s), {'LSQR': 1, 'LSMR': 1}.get(kind, 99)
    else:
        if c['what'] == 'eigen':
            if J.S.M is not None:
                J.pre = [np.eye(n) * 2. ** c['d']['em']]
                J.presym = [True]
            lam, V = np.linalg.eig(J.A) if not J.sym else np.linalg.eigh(J.A)
            real = [k for k in range(n) if abs(np.imag(lam[k])) < 1e-12 * J.nrm]
            if not real:
                ctx.skip('no real eigenvalue')
            k = real[c['i'] % len(real)]
            v = np.real(V[:, k])
            b = v / np.linalg.norm(v) * 2. ** c['d']['eb']
        elif not np.any(b):
            ctx.skip('b = 0')
        s = J.run(b=b, **over)
        x = np.linalg.solve(J.A, b)
        steps = J.steps(s)
        limit = {'CG': 1, 'MINRES': 2, 'SYMMLQ': 4}.get(kind, 2) + (J.x0 is not None)
        ok = s.converged
        ctx.ensure(bool(ok), 'convergence is not reported')
        ctx.ensure(s.istop in (-1, 1, 2, 3) if kind in SYMM else True, 'code %r', getattr(s, 'istop', None))
    ctx.array(s.x, x.shape, 'x')
    tol = {'CG': 1e-9, 'CGS': 1e-9}.get(kind, 1e-9)
    big = np.max(np.abs(x)) if np.any(x) else np.max(np.abs(b))
    if J.lls:
        for k in ('atol', 'btol'):
            tol = max(tol, 30 * (J.o[k] or 1e-9))
        tol *= S.pc ** 2
    elif J.x0 is not None:
        tol = max(tol, 1e-10 + 30 * (J.o.get('reltol') or 1e-6) * (1 + np.max(np.abs(J.x0)) / big))
    if tol < 1e-2:
        ctx.close(s.x, x, tol * big * (1 if c['what'] == 'one' else 10), 'x')
    ctx.atmost(steps, limit, 'number of steps')
    ctx.nt()
    ctx.label(kind, c['what'], 'precon' if any(p is not None for p in J.pre) else 'plain')


CHECKS['X02'] = Check(s_x02, c_x02, 8000, 120000,
    'all ten solvers with a zero right-hand side (any system, options, preconditioner), with one unknown or one row, and with eigenvectors or singular vectors as right-hand sides, compared with the known solution and number of steps; every case that ran is non-trivial',
    ['Eigenvector cases use preconditioners that are multiples of the identity'])


# ---------------------------------------------------------------- X03
def noise(J, ctx, eps=1e-13):
    """The reference solve, how far one with slightly perturbed data is from it, and whether tolerances were met only just."""
    r = wl.rng(J.c['d']['s'] + 5)
    ref = J.run()
    A = J.A
    G = r.uniform(-1., 1., A.shape)
    if J.sym:
        G = .5 * (G + G.T)
    worst = wobble = 0.
    for i in range(4):
        op = wl.L.linop_from_ndarray(A * (1 + (-eps, eps, -10 * eps, eps / 10)[i] * G), symmetric=J.sym)
        over = {}
        f = (.999, 1.001, .99, 1.01)[i]
        for k in ('rtol', 'atol', 'btol', 'etol'):
            if k in J.o:
                v = J.o[k]
                if v is None:
                    v = 1e-12 if J.kind == 'MINRES' else 1e-9
                over[k] = v * f
        ctor = {'reltol': (J.o['reltol'] or 1e-6) * f} if J.kind in SHORT else {}
        s = J.solve(J.solver(op, None, **ctor), **over)
        if J.steps(s) != J.steps(ref) or J.code(s) != J.code(ref):
            ctx.skip('sensitive number of steps')
        if i < 2:
            worst = max(worst, float(np.max(np.abs(s.x - ref.x))))
        if J.kind in SHORT:
            wobble = max(wobble, abs(float(s.residNorm) - float(ref.residNorm)))
    if J.kind in SHORT:
        t, v = (J.o['reltol'] or 1e-6) * float(ref.residNorm0), float(ref.residNorm)
        if abs(v - t) <= 30 * wobble and v > 1e-3 * t:
            ctx.skip('the final residual is made of rounding errors and close to the threshold')
    return ref, worst


def same_steps(J, ctx, s, ref, what):
    """The same number of steps and stop code; give or take one step where the solution is exact up to rounding."""
    long = max(J.steps(ref), J.steps(s)) > 14          # Rounding errors grow with lost orthogonality.
    if long or exact(J, ref) or exact(J, s):
        d = abs(J.steps(s) - J.steps(ref))
        ctx.ensure(d <= 2 + (J.steps(ref) // 8 if long else 0), '%d steps instead of %d %s (exact solution)', J.steps(s), J.steps(ref), what)
        ok = J.code(s) == J.code(ref) or d + max(J.steps(s), J.steps(ref)) >= (J.o['budget'] or np.inf)
        if not ok and J.kind not in SHORT:
            ok = bool(s.optimal) == bool(ref.optimal) if J.lls else J.code(s) in SUCCESS[J.kind] and J.code(ref) in SUCCESS[J.kind]
        ctx.ensure(ok, 'stop code %r instead of %r %s (exact solution)', J.code(s), J.code(ref), what)
        ctx.label('exact solution')
        return
    ctx.ensure(J.steps(s) == J.steps(ref), '%d steps instead of %d %s', J.steps(s), J.steps(ref), what)
    ctx.ensure(J.code(s) == J.code(ref), 'stop code %r instead of %r %s', J.code(s), J.code(ref), what)


SUCCESS = {'MINRES': (-1, 0, 1, 2, 3, 4), 'SYMMLQ': (-1, 0, 1, 2, 3)}


def exact(J, s):
    if not np.all(np.isfinite(s.x)):
        return False
    per = {'CGS': 2, 'TFQMR': 2, 'BICGSTAB': 2}.get(J.kind, 1)
    if J.steps(s) >= per * min(J.A.shape):     # Finite termination, at a residual made of rounding errors.
        return True
    if J.lls:
        sv = np.linalg.svd(J.S.H)[1]               # As many steps as there are different singular values.
        return J.steps(s) >= 1 + np.sum(sv[1:] < sv[:-1] * (1 - 1e-8)) - int(sv[-1] < 1e-10 * sv[0])
    A = J.A - J.shift * np.eye(len(J.A))
    r = np.linalg.norm(J.b - np.dot(A, s.x))
    return r <= 1e-13 * (np.linalg.norm(J.b) + J.nrm * np.linalg.norm(s.x))


def s_x03(tier):
    st = st_()

    @st.composite
    def case(draw):
        c = draw_job(draw, st, 7 if tier == 'quick' else 16, conds=(2., 5., 10., 30.))
        e = st.sampled_from((0, 0, 1, 2, -4, 10, -10, 24, -24, 60, -60, 120, -120, 200, -200))
        c['ka'], c['kb'], c['kp'], c['kq'] = draw(e), draw(e), draw(e), draw(e)
        for k in ('ea', 'eb', 'em', 'en'):
            if c['kind'] not in ('CRAIG', 'CRAIGMR'):
                c['d'][k] = 0
        return c
    return case()


def c_x03(c, ctx):
    J = Job(c)
    kind = J.kind
    if not np.any(J.b) or (J.lls and J.S.zero()):
        ctx.skip('zero solution')
    if J.lls and J.S.tiny():
        ctx.skip('right-hand side nearly orthogonal to the range')
    if kind in ('CRAIG', 'CRAIGMR') and J.S.nrm > 1e3:
        ctx.skip('ill-conditioned')
    k = [c['ka'], c['kb'], c['kp'], c['kq']]
    while sum(map(abs, k)) > 240:      # Squares of products must not overflow.
        k = [int(v / 2.) for v in k]
    a, b = 2. ** k[0], 2. ** k[1]
    p, q = 4. ** (k[2] // 2), 4. ** (k[3] // 2)
    if kind in ('CRAIG', 'CRAIGMR'):
        # The whole system scales with A when both metrics do.
        if J.pre[0] is None or J.pre[1] is None:
            a = p = q = 1.
        else:
            p = q = 1. / a
    elif J.pre[0] is None:
        p = 1.
    if J.lls and J.pre[1] is None:
        q = 1.
    if not J.lls:
        q = 1.
    ref, delta = noise(J, ctx)
    scaled = [None if M is None else M * f for M, f in zip(J.pre, (p, q))]
    pre = J.precons(scaled)
    kw = {'b': J.b * b, 'pre': pre, 'op': wl.L.linop_from_ndarray(J.A * a, symmetric=J.sym)}
    if J.x0 is not None:
        kw['x0'] = J.x0 * (b / a)
    if kind in ('LSQR', 'LSMR') and J.damp:
        kw['damp'] = J.damp * a * np.sqrt(p) * np.sqrt(q)
    if kind in SYMM and J.shift:
        kw['shift'] = J.shift * a
    s = J.run(**kw)
    f = b / a
    if kind == 'CRAIGMR':
        f = b * p
    if J.lls and kind not in ('CRAIG', 'CRAIGMR'):
        f = b / a
    big = float(np.max(np.abs(ref.x)))
    same_steps(J, ctx, s, ref, 'after scaling')
    if J.steps(s) != J.steps(ref) and J.steps(ref) > 14:
        ctx.skip('long run of another length')
    ctx.close(np.asarray(s.x) / f, ref.x, 100 * delta + 1e-9 * big, 'scaled solution')
    if kind == 'CRAIG':
        ctx.close(np.asarray(s.r) / (b * p), ref.r, 1e3 * delta * (1 + J.S.nrm) * (1 + np.max(np.abs(ref.r)) / big) + 1e-9 * np.max(np.abs(ref.r)), 'scaled dual solution')
    if kind in SHORT:
        ctx.near(s.residNorm / b / (np.sqrt(p) if kind == 'CG' else 1.), float(ref.residNorm), 1e-6 * ref.residNorm + (100 * delta + 1e-9 * big) * J.nrm * 10, 'scaled residNorm')
    if J.steps(ref) > 1 and (a, b, p, q) != (1., 1., 1., 1.):
        ctx.nt()
    ctx.label(kind, 'A scaled' if a != 1 else 'A kept', 'metric scaled' if (p, q) != (1., 1.) else 'metric kept')


CHECKS['X03'] = Check(s_x03, c_x03, 5000, 80000,
    'the same system with operator, right-hand side and preconditioners or metrics multiplied by powers of two from 2^-200 to 2^200 (shifts, damping and guesses accordingly), same relative tolerances and limits: scaled solution, same number of steps and stop code; all ten solvers, sizes to 7 (thorough 16); non-trivial: more than one step and a scale other than one',
    ['Cases whose number of steps changes under relative perturbations to 1e-12 of the operator and 1e-2 of the tolerances are left out'])


# ---------------------------------------------------------------- X04
REPS = ('array', 'func', 'alias', 'coord', 'coordsym', 'block', 'sum', 'product', 'quotient', 'transpose', 'reduced', 'sparse', 'adjoint', 'power', 'perm', 'permrows')


def s_x04(tier):
    st = st_()

    @st.composite
    def case(draw):
        c = draw_job(draw, st, 7 if tier == 'quick' else 16, conds=(2., 5., 10., 30.), scales=False)
        c['rep'] = draw(st.sampled_from(REPS))
        c['pre'] = draw(st.sampled_from(('array', 'func', 'alias', 'sum', 'block', 'precon')))
        c['ps'] = draw(st.integers(0, 999))
        c['lay'] = draw(st.sampled_from((None,) + LAYOUTS))
        return c
    return case()


LAYOUTS = ('strided', 'back', 'readonly', 'column', 'part')


def layout(v, how):
    """The same vector stored otherwise."""
    n = len(v)
    if how == 'strided':
        w = np.full(3 * n, np.nan)[::3]
    elif how == 'back':
        w = np.full(n, np.nan)[::-1]
    elif how == 'column':
        w = np.full((n, 3), np.nan)[:, 1]
    elif how == 'part':
        w = np.full(n + 4, np.nan)[2:n + 2]
    else:
        w = v.copy()
    w[:] = v
    if how == 'readonly':
        w.setflags(write=False)
    return w


class Sparse(object):
    """Stands for a sparse matrix of the kind PysparseLinearOperator wraps."""

    def __init__(self, A, sym):
        self.A, self.shape, self.issym = A, A.shape, sym

    def matvec(self, x, y):
        y[:] = np.dot(self.A, x)

    def matvec_transp(self, x, y):
        y[:] = np.dot(self.A.T, x)


def represent(rep, A, sym, r):
    """An operator for A."""
    L = wl.L
    m, n = A.shape
    arr = lambda B, s=False: L.linop_from_ndarray(B, symmetric=s)
    if rep == 'func':
        f = lambda x: np.dot(A, x)
        return L.LinearOperator(n, m, f, matvec_transp=None if sym else (lambda x: np.dot(A.T, x)), symmetric=sym)
    if rep == 'alias':       # The products are views of an array that belongs to the operator.
        buf, tbuf = np.zeros((2, m)), np.zeros((2, n))

        def mul(x, B=A, w=buf):
            w[0, :] = np.dot(B, x)
            return w[0]
        return L.LinearOperator(n, m, mul, matvec_transp=None if sym else (lambda x: mul(x, A.T, tbuf)), symmetric=sym)
    if rep in ('coord', 'coordsym'):
        ij = [(i, j) for i in range(m) for j in range(n)]
        if rep == 'coordsym' and sym:
            ij = [(i, j) for i, j in ij if i >= j]
        vals = np.array([A[i, j] for i, j in ij])
        return L.CoordLinearOperator(vals, np.array([i for i, j in ij]), np.array([j for i, j in ij]), nargin=n, nargout=m, symmetric=rep == 'coordsym' and sym)
    if rep == 'block' and m > 1 and n > 1:
        i, j = 1 + r.randint(0, m - 1), 1 + r.randint(0, n - 1)
        if sym:
            j = i
            return L.BlockLinearOperator([[arr(A[:i, :j], True), arr(A[:i, j:])], [arr(A[i:, j:], True)]], symmetric=True)
        return L.BlockLinearOperator([[arr(A[:i, :j]), arr(A[:i, j:])], [arr(A[i:, :j]), arr(A[i:, j:])]])
    if rep == 'sum':
        B = np.tril(A) if not sym else np.diag(np.diag(A))
        return arr(B, sym) + arr(A - B, sym)
    if rep == 'product':
        return arr(A * .5, sym) * L.IdentityOperator(n) * 2
    if rep == 'quotient':
        return -(arr(-A * 4., sym) / 4.)
    if rep == 'transpose':
        return arr(np.array(A.T), sym).T if m != n or r.randint(0, 2) else arr(A, sym).T.T
    if rep == 'adjoint':
        return arr(np.array(A.T), sym).H
    if rep == 'power':
        return arr(A, sym) ** 1 if m == n else arr(A) * (L.IdentityOperator(n) ** 0)
    if rep == 'reduced':
        B = np.zeros((m + 2, n + 2))
        B[1:m + 1, 1:n + 1] = A
        B[0, :] = 7.
        B[:, 0] = 7.
        o = arr(B)
        if sym:
            return L.SymmetricallyReducedLinearOperator(arr(B, True), range(1, n + 1))
        return L.ReducedLinearOperator(o, range(1, m + 1), range(1, n + 1))
    if rep == 'sparse':
        return L.PysparseLinearOperator(Sparse(A, sym))
    return arr(A, sym)


def represent_pre(rep, P, sym, r):
    L = wl.L
    if P is None:
        return None
    n = len(P)
    if rep == 'block' and (n < 2 or not sym):
        rep = 'func'
    if rep == 'precon' and n > 1:
        D = np.diag(np.diag(P))
        if np.array_equal(D, P):
            return L.BlockDiagonalPreconditioner([L.DiagonalOperator(np.diag(P)[:1]), L.DiagonalOperator(np.diag(P)[1:])])
        return L.BlockPreconditioner([[L.linop_from_ndarray(P[:1, :1], symmetric=True), L.linop_from_ndarray(P[:1, 1:])],
                                      [L.linop_from_ndarray(P[1:, 1:], symmetric=True)]], symmetric=True) if sym else L.linop_from_ndarray(P)
    return represent(rep, P, sym, r)


def c_x04(c, ctx):
    J = Job(c)
    kind, rep = J.kind, c['rep']
    if not np.any(J.b) or (J.lls and (J.S.zero() or J.S.tiny())):
        ctx.skip('zero or tiny solution')
    if kind in ('CRAIG', 'CRAIGMR') and J.S.nrm > 1e3:
        ctx.skip('ill-conditioned')
    r = wl.rng(c['ps'])
    m, n = J.A.shape
    ref, delta = noise(J, ctx)
    if rep in ('perm', 'permrows'):
        pc = np.array(r.permutation(n))
        pr = pc if not J.lls else np.array(r.permutation(m))
        A = J.A[pr, :][:, pc]
        pre = []
        for M, p in zip(J.pre, (pr, pc)):
            pre.append(None if M is None else M[p, :][:, p])
        kw = {'b': J.b[pr].copy(), 'pre': J.precons(pre), 'op': wl.L.linop_from_ndarray(A, symmetric=J.sym)}
        if J.x0 is not None:
            kw['x0'] = J.x0[pc].copy()
        s = J.run(**kw)
        want = ref.x[pr] if kind == 'CRAIGMR' else ref.x[pc]
    else:
        op = represent(rep, J.A, J.sym, r)
        kw = {}
        if c.get('lay'):
            kw['b'] = layout(J.b, c['lay'])
            if J.x0 is not None:
                kw['x0'] = layout(J.x0, c['lay'])
        s = J.run(op=op, **dict(kw, pre=[represent_pre(c['pre'], M, z, r) for M, z in zip(J.pre, J.presym)]))
        want = ref.x
    same_steps(J, ctx, s, ref, 'with this representation')
    if J.steps(s) != J.steps(ref) and J.steps(ref) > 14:
        ctx.skip('long run of another length')
    big = float(np.max(np.abs(ref.x)))
    ctx.close(s.x, want, 100 * delta + 1e-10 * big, 'solution')
    if J.steps(ref) > 1:
        ctx.nt()
    ctx.label(kind, 'operator %s' % rep, 'vectors %s' % c.get('lay'), 'precon %s' % (c['pre'] if J.pre[0] is not None else None))


CHECKS['X04'] = Check(s_x04, c_x04, 5000, 80000,
    'the same system given as an array, a function, a function returning its own buffer, coordinates, blocks, expressions, transposes of transposes, reductions, a sparse matrix wrapper, or with equations and unknowns permuted; preconditioners likewise; right-hand side and guess stored as strided, reversed, read-only or partial views, block preconditioners included: same solution, number of steps and stop code; all ten solvers; non-trivial: more than one step',
    ['Cases whose number of steps changes under relative perturbations to 1e-12 of the operator and 1e-2 of the tolerances are left out'])


# ---------------------------------------------------------------- X05
def s_x05(tier):
    st = st_()

    @st.composite
    def case(draw):
        return draw_job(draw, st, 7 if tier == 'quick' else 16, kinds=tuple(HIST), conds=(2., 5., 10., 30.), wild=True)
    return case()


def c_x05(c, ctx):
    J = Job(c)
    kind = J.kind
    if not np.any(J.b):
        ctx.skip('b = 0')
    hs = HIST[kind]
    on = dict((h, True) for h in hs)
    off = dict((h, False) for h in hs)
    s, t = J.run(**on), J.run(**off)
    lists = prob.LISTS[kind]
    always = ('residHistory',) if kind in ('CG', 'MINRES') else ()
    always += tuple(h for h in lists if h.startswith('dir_errors'))
    d, e = J.snap(s), J.snap(t)
    compare(ctx, e, d, 'without histories', tuple(h for h in lists if h not in always) + (('residHistory',) if kind == 'MINRES' else ()))
    for h in lists:
        if h not in always:
            ctx.ensure(len(e[h]) == 0, '%s holds %d entries without being asked for', h, len(e[h]))
    for h in hs:      # One history alone.
        u = J.snap(J.run(**dict(off, **{h: True})))
        compare(ctx, u, d, 'with %s only' % h, lists)
        for l in lists:
            if l not in always:
                ctx.ensure(len(u[l]) == 0 or same(u[l], d[l]), '%s differs when only %s is asked for', l, h)
                own = (l.startswith('iterates')) == (h == 'store_iterates')
                ctx.ensure(own or len(u[l]) == 0, '%s is stored with %s only', l, h)
                ctx.ensure(not own or len(u[l]) == len(d[l]), '%s is not stored with %s only', l, h)
    k = J.steps(s) - (kind == 'CG' and J.x0 is not None)
    n = J.A.shape[1]
    if kind == 'CG':
        if not s.definite:
            k -= 1
        its, start = s.iterates, (np.zeros(n) if J.x0 is None else J.x0)
        ctx.ensure(len(s.iterates) == len(s.resids) == len(s.residHistory) == k + 1, '%d iterates, %d residuals and %d norms in %d iterations',
                   len(s.iterates), len(s.resids), len(s.residHistory), k)
        slack, clean = prob.slack('CG', J.S, k) if np.all(np.isfinite(s.x)) else (np.inf, False)
        P = np.eye(n) if J.S.M is None else J.S.M
        # The run itself may visit larger points than the textbook run does (breakdowns).
        slack += 2e-14 * (k + 2) * J.S.nrm * max(float(np.linalg.norm(x)) for x in s.iterates) * np.sqrt(n)
        for i, (x, y) in enumerate(zip(s.iterates, s.resids)):
            rr = J.S.residual(x)
            z = np.dot(P, rr)
            tol = 10 * slack * np.linalg.norm(P, 2)
            if np.isfinite(tol) and tol < 1e-3 * max(np.max(np.abs(z)), 1e-3 * np.linalg.norm(P, 2) * np.linalg.norm(J.b)):
                ctx.close(y, -z, tol, 'stored residual %d (that of the stored iterate)' % i)
                if J.sym and J.c['d']['fam'] in FAMS['CG']:
                    want = float(np.sqrt(abs(np.dot(rr, z))))
                    ctx.near(s.residHistory[i], want, 1e-6 * want + 10 * slack * np.sqrt(np.linalg.norm(P, 2)), 'residual norm %d' % i)
    elif kind == 'SYMMLQ':
        its, start = s.iterates, np.zeros(n)
    elif kind == 'CRAIG':
        its, start = s.iterates_p, None
        ctx.ensure(len(s.iterates_p) == len(s.iterates_d) == len(s.resids) == len(s.norms) == s.itn + 1, 'histories of different lengths')
        ctx.ensure(same(s.iterates_d[-1], s.r), 'the last dual iterate is not the dual solution returned')
    else:
        its, start = s.iterates, np.zeros(len(s.x))
        ctx.ensure(len(its) == s.itn + 1, '%d iterates in %d iterations', len(its), s.itn)
        if kind == 'MINRES':
            ctx.ensure(len(s.residHistory) == s.itn, '%d residuals in %d iterations', len(s.residHistory), s.itn)
            ctx.ensure(not s.residHistory or s.residHistory[-1] == s.rnorm == s.residNorm, 'the last residual is not the one reported')
        elif kind in ('LSQR', 'LSMR'):
            ctx.ensure(len(s.resids) == len(s.normal_eqns_resids) == s.itn + 1, 'histories of different lengths')
            ctx.ensure(s.resids[-1] == s.r2norm and s.normal_eqns_resids[-1] == s.Arnorm, 'the last residuals are not those reported')
    ctx.ensure(start is None or same(its[0], start), 'the first iterate is not the initial point')
    if kind != 'SYMMLQ':
        ctx.ensure(same(its[-1], s.x), 'the last iterate is not the solution returned')
    # Independent copies: changing one changes nothing else.
    for h in lists:
        l = getattr(s, h)
        if l and isinstance(l[0], np.ndarray) and l[0].shape:
            i = len(l) // 2
            l[i][:] = 1e5
            ctx.ensure(all(same(v, w) for j, (v, w) in enumerate(zip(l, d[h])) if j != i), 'entries of %s share memory', h)
            ctx.ensure(same(s.x, d['x']), '%s shares memory with the solution', h)
    if len(its) > 2:
        ctx.nt()
    ctx.label(kind, 'preconditioned' if any(p is not None for p in J.pre) else 'plain')


CHECKS['X05'] = Check(s_x05, c_x05, 4000, 70000,
    'solves with all, some or no histories requested: identical results, nothing stored without the request, lengths, end points, independence of the entries, CG residual vectors and norms against the stored iterates (those of the other solvers are compared in S02, R02 and R06); wild and well-behaved systems of sizes to 7 (thorough 16); non-trivial: at least three iterates',
    ['The iterates SYMMLQ stores are intermediate points, only the first of which is specified'])


# ---------------------------------------------------------------- X06
def s_x06(tier):
    st = st_()

    @st.composite
    def case(draw):
        if draw(st.integers(0, 7)) == 0:
            return {'kind': 'OP', 'cls': draw(st.sampled_from(('linop', 'T', 'H', 'TH', 'sym', 'herm', 'diag', 'eye', 'zero', 'array', 'block', 'symblock',
                                                               'blockdiag', 'Inverse', '', 'Compact', 'Structured'))),
                    'level': draw(st.sampled_from(('DEBUG', 'INFO', 'WARNING', 'ERROR'))), 'm': draw(st.integers(1, 5)), 'n': draw(st.integers(1, 5)),
                    's': draw(st.integers(0, 10 ** 6)), 'k': draw(st.integers(0, 7)), 'cplx': draw(st.booleans())}
        many = draw(st.sampled_from((False,) * 5 + (True,)))
        c = draw_job(draw, st, 14 if many else 7 if tier == 'quick' else 16, wild=True, conds=(100.,) if many else (2., 10., 100.))
        c['many'] = many
        c['level'] = draw(st.sampled_from(('DEBUG', 'INFO', 'WARNING', 'ERROR')))
        c['show'] = draw(st.booleans())
        c['zero'] = draw(st.sampled_from((False,) * 7 + (True,)))
        c['check'] = draw(st.booleans())
        return c
    return case()


class Capture(object):
    def __enter__(self):
        self.old, self.f = sys.stdout, io.StringIO()
        sys.stdout = self.f
        return self

    def __exit__(self, *a):
        sys.stdout = self.old

    def text(self):
        return self.f.getvalue()


def logged_operator(c, ctx):
    """An operator with a logger does what one without it does."""
    L, k = wl.L, c['cls']
    lb = k in ('Inverse', '', 'Compact', 'Structured')
    r = wl.rng(c['s'])
    m, n = c['m'], c['n']
    if k in ('sym', 'herm', 'diag', 'eye', 'symblock') or lb:
        m = n
    A = r.randn(m, n) + (1j * r.randn(m, n) if c['cplx'] and not lb else 0.)
    if k in ('sym', 'symblock'):
        A = A + A.T
    if k == 'herm':
        A = A + A.conj().T
    A2 = r.randn(m, n)
    pairs = [(r.randn(n), r.randn(n)) for _ in range(c['k'])]
    x, y = r.randn(n), r.randn(m)
    if k in ('block', 'blockdiag'):
        x = r.randn(2 * n)
        y = r.randn(2 * m if k == 'blockdiag' else m)
    if k == 'symblock':
        x, y = r.randn(2 * n), r.randn(2 * n)
    if k == 'zero':
        x, y = r.randn(n), r.randn(m)

    def build(**kw):
        kw['dtype'] = A.dtype
        if k in ('linop', 'T', 'H', 'TH', 'sym', 'herm'):
            if 'T' in k:
                kw['matvec_transp'] = lambda v: np.dot(A.T, v)
            if 'H' in k:
                kw['matvec_adj'] = lambda v: np.dot(A.conj().T, v)
            return L.LinearOperator(n, m, lambda v: np.dot(A, v), symmetric=k == 'sym', hermitian=k == 'herm', **kw)
        del kw['dtype']
        if k == 'diag':
            return L.DiagonalOperator(np.diag(A).copy(), **kw)
        if k == 'eye':
            return L.IdentityOperator(n, **kw)
        if k == 'zero':
            return L.ZeroOperator(n, m, **kw)
        if k == 'array':
            return L.linop_from_ndarray(A, **kw)
        a, b = L.linop_from_ndarray(A), L.linop_from_ndarray(A2)
        if k == 'block':
            return L.BlockLinearOperator([[a, b]], **kw)
        if k == 'symblock':
            a = L.linop_from_ndarray(A, symmetric=True, hermitian=not np.iscomplexobj(A))
            return L.BlockLinearOperator([[a, b], [a]], symmetric=True, **kw)
        if k == 'blockdiag':
            return L.BlockDiagonalLinearOperator([a, b], **kw)
        op = getattr(L, k + 'LBFGSOperator')(n, 3, **kw)
        for s, t in pairs:
            op.store(*((s, t, t) if k == 'Structured' else (s, t)))
        return op
    log, stream, failed = logging.Logger('verif'), io.StringIO(), []
    h = logging.StreamHandler(stream)
    h.handleError = failed.append
    log.addHandler(h)
    log.setLevel(getattr(logging, c['level']))
    with Capture() as out:
        p, q = build(), build(logger=log)
        for what in ('', 'T', 'H'):
            a, b = (getattr(o, what) if what else o for o in (p, q))
            ctx.ensure((a is None) == (b is None), 'a logger changes whether %s exists', what)
            if a is not None:
                v = x if not what else y
                ctx.ensure(same(a * v, b * v), 'a logger changes the product with %s', what or 'the operator')
                ctx.ensure(a.dtype == b.dtype and a.shape == b.shape and a.symmetric == b.symmetric and a.hermitian == b.hermitian and a.nMatvec == b.nMatvec,
                           'a logger changes what the operator reports')
        if 'block' in k:
            p[0, 0] if k != 'blockdiag' else p[0]
    ctx.ensure(not out.text(), 'something is printed: %r', out.text()[:80])
    ctx.ensure(not failed, 'a log message cannot be formatted: %r %r', failed[0].msg if failed else '', failed[0].args if failed else '')
    if c['level'] in ('WARNING', 'ERROR'):
        ctx.ensure(not stream.getvalue(), 'logged at level %s: %r', c['level'], stream.getvalue()[:80])
    ctx.nt()
    ctx.label('operator', 'class %s' % k, c['level'])


def c_x06(c, ctx):
    if c['kind'] == 'OP':
        return logged_operator(c, ctx)
    J = Job(c)
    kind = J.kind
    b = np.zeros_like(J.b) if c['zero'] else J.b
    if c['zero']:
        J.x0 = None
    over = {'etol': 0., 'budget': 40, 'rtol' if kind == 'MINRES' else 'atol': 1e-15} if c['many'] and kind not in SHORT + ('SYMMLQ',) else {}
    with Capture() as out:
        ref = J.run(b=b, **dict(over, show=False) if kind not in SHORT + ('SYMMLQ',) else over)
    ctx.ensure(not out.text(), 'something is printed with display off: %r', out.text()[:80])
    want = J.snap(ref)
    log = logging.Logger('verif')
    stream = io.StringIO()
    h = logging.StreamHandler(stream)
    log.addHandler(h)
    log.setLevel(getattr(logging, c['level']))
    logging.raiseExceptions = False
    failed = []
    h.handleError = lambda rec: failed.append(rec)
    if c['show'] and kind not in SHORT + ('SYMMLQ',):
        over['show'] = True
    leave = ()
    if c['check'] and kind in SYMM + ('CG',) and J.S.symmetric and (J.c['d']['pre'] in (None, 'diag', 'spd', 'eye')) and \
            (J.S.M is None or np.max(np.abs(J.S.M - J.S.M.T)) == 0):
        over['check_symmetric' if kind == 'CG' else 'check'] = True
        leave = ('nMatvec',)
        ctx.label('checked')
    with Capture() as out:
        s = J.run(b=b, ctor={'logger': log}, **over)
    ctx.ensure(not failed, 'a log message cannot be formatted: %r %r', failed[0].msg if failed else '', failed[0].args if failed else '')
    compare(ctx, J.snap(s), want, 'with logging or display', leave)
    if 'show' in over:
        ctx.ensure(bool(out.text().strip()), 'nothing is printed with display on')
        if kind in ('LSQR', 'LSMR', 'CRAIG', 'CRAIGMR'):
            ctx.ensure(s.msg[s.istop].strip() in out.text(), 'the stop reason is not printed')
    else:
        ctx.ensure(not out.text(), 'something is printed with display off: %r', out.text()[:80])
    if kind in SHORT + ('SYMMLQ',) and c['level'] in ('DEBUG', 'INFO'):
        ctx.ensure(bool(stream.getvalue()), 'nothing is logged')
    if c['level'] in ('WARNING', 'ERROR') and not (kind == 'CG' and not getattr(s, 'definite', True)):
        ctx.ensure(not stream.getvalue(), 'logged at level %s: %r', c['level'], stream.getvalue()[:80])
    if J.steps(s) > 1:
        ctx.nt()
    ctx.label(kind, c['level'], 'shown' if 'show' in over else 'not shown')


CHECKS['X06'] = Check(s_x06, c_x06, 5000, 80000,
    'solves with a logger at each level, display on or off and checks on, compared bit for bit with a silent solve, everything printed captured; all ten solvers, wild systems and zero right-hand sides included; operators of every kind built with and without a logger; non-trivial: more than one step, or an operator',
    ['Product counts are not compared when checks, which use products, are on'])
