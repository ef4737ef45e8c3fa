"""X07, X08: documented defaults, equivalent formulations."""
import numpy as np
from vlib import wl, prob
from vlib.check import Check
from vlib.prob import ALL, SHORT, SYMM, LLS
from vlib.spec import st_
from props import cross, lls
from props.cross import Capture, compare, same

CHECKS = {}


# ---------------------------------------------------------------- X07
CTOR = dict((k, {'abstol': 1e-8, 'reltol': 1e-6, 'precon': None}) for k in SHORT)
CTOR.update(MINRES={'precon': None}, SYMMLQ={'precon': None})
LS = {'damp': 0., 'M': None, 'N': None, 'atol': 1e-9, 'btol': 1e-9, 'conlim': 1e8, 'show': False, 'etol': 1e-6, 'window': 5,
      'store_resids': False, 'store_iterates': False, 'itnlim': None}
SOLVE = {'CG': {'matvec_max': None, 'check_symmetric': False, 'check_curvature': True, 'store_resids': False, 'store_iterates': False},
         'MINRES': {'shift': 0., 'show': True, 'check': True, 'itnlim': None, 'rtol': 1e-12, 'etol': 1e-6, 'store_resids': False,
                    'store_iterates': False, 'window': 5},
         'SYMMLQ': {'matvec_max': None, 'rtol': 1e-9, 'shift': 0., 'check': False, 'store_iterates': False},
         'LSQR': dict(LS, wantvar=False), 'LSMR': LS, 'CRAIG': dict(LS, wantvar=False), 'CRAIGMR': LS}
for _k in ('CGS', 'BICGSTAB', 'TFQMR'):
    SOLVE[_k] = {'matvec_max': None}
ORDER = {'LSQR': ('itnlim', 'damp', 'M', 'N', 'atol', 'btol', 'conlim', 'show', 'wantvar'),
         'LSMR': ('damp', 'atol', 'btol', 'conlim', 'M', 'N', 'itnlim', 'show')}
ORDER['CRAIG'], ORDER['CRAIGMR'] = ORDER['LSQR'], ORDER['LSMR']


def budget_of(kind, m, n):
    """Documented budgets."""
    if kind in SHORT:
        return 2 * n
    return {'MINRES': 5 * n, 'SYMMLQ': 2 * n + 2, 'LSQR': 3 * n, 'CRAIG': 3 * n}.get(kind, min(m, n))


def s_x07(tier):
    st = st_()

    @st.composite
    def case(draw):
        if draw(st.integers(0, 14)) == 0:
            return {'kind': 'LBFGS', 'cls': draw(st.sampled_from(('InverseLBFGSOperator', 'LBFGSOperator', 'CompactLBFGSOperator', 'StructuredLBFGSOperator'))),
                    'n': draw(st.integers(1, 6)), 's': draw(st.integers(0, 10 ** 6)), 'k': draw(st.integers(0, 8)), 'o': {}}
        c = cross.draw_job(draw, st, 9 if tier == 'quick' else 16, wild=True, conds=(2., 10., 100., 1e4, 1e7, 1e10))
        if draw(st.booleans()) and c['kind'] not in ('CRAIG', 'CRAIGMR'):
            c['d'][draw(st.sampled_from(('m', 'n'))) if c['kind'] in LLS else 'n'] += draw(st.integers(4, 12))
        # Options given a value of their own, those omitted on the one side; the rest take the default explicitly on both sides.
        k = c['kind']
        c['omit'] = sorted(draw(st.sets(st.sampled_from(sorted(SOLVE[k]) + sorted(CTOR.get(k, {})) ), min_size=1))) if draw(st.booleans()) else ['*']
        c['own'] = sorted(draw(st.sets(st.sampled_from(('budget', 'tol', 'tol2', 'etol', 'window', 'pre', 'damp')), max_size=3)))
        c['pos'] = draw(st.integers(0, 3)) if k in ORDER else 0
        c['bad'] = draw(st.sampled_from((None,) * 5 + ('op', 'pre', 'pre'))) if k not in LLS else None
        return c
    return case()


def own_values(J, c):
    """Values different from the defaults, by option."""
    kind, o = J.kind, {}
    n, m = J.A.shape[1], J.A.shape[0]
    for w in c['own']:
        if w == 'budget':
            o['matvec_max' if kind in SHORT + ('SYMMLQ',) else 'itnlim'] = 1 + c['d']['s'] % 7
        elif w == 'tol':
            o[{'SYMMLQ': 'rtol', 'MINRES': 'rtol'}.get(kind, 'reltol' if kind in SHORT else 'atol')] = 10. ** -(2 + c['d']['s'] % 9) if c['d']['s'] % 4 else 0.
        elif w == 'tol2' and kind not in SYMM:
            o['abstol' if kind in SHORT else 'btol'] = 10. ** -(1 + c['d']['s'] % 5) if c['d']['s'] % 3 else 0.
        elif w in ('etol', 'window') and (kind in LLS or kind == 'MINRES'):
            o[w] = {'etol': 0., 'window': 2}[w]
        elif w == 'damp' and J.damp:
            o['damp'] = J.damp
        elif w == 'pre':
            P = J.precons()
            for key, p in zip(('M', 'N') if kind in LLS else ('precon',), P):
                if p is not None:
                    o[key] = p
    return o


def lbfgs_defaults(c, ctx):
    K = getattr(wl.L, c['cls'])
    a, b, d = K(c['n']), K(c['n'], npairs=5, scaling=False), K(c['n'], 5)
    r = wl.rng(c['s'])
    ctx.ensure(a.npairs == b.npairs == d.npairs == 5, 'memory of %s pairs by default', a.npairs)
    for i in range(c['k']):
        s = r.randn(c['n'])
        y = s * r.uniform(.5, 2., c['n'])
        args = (s, y, y) if c['cls'].startswith('Struct') else (s, y)
        for o in (a, b, d):
            o.store(*args)
    v = r.randn(c['n'])
    ctx.ensure(same(a * v, b * v) and same(a * v, d * v), 'an L-BFGS operator built with the defaults differs from one given them')
    A = r.randn(c['n'], c['n'])
    op = wl.L.LinearOperator(c['n'], c['n'], lambda x: np.dot(A, x))
    ctx.ensure(np.dtype(op.dtype) == np.float64 and not op.symmetric and not op.hermitian, 'a linear operator is not general and real by default')
    ctx.ensure(np.dtype(wl.L.IdentityOperator(c['n']).dtype) == np.dtype(wl.L.ZeroOperator(c['n'], 2).dtype) == np.float64, 'ready-made operators are not real by default')
    ctx.label('L-BFGS')
    if c['k'] > 5:
        ctx.nt()


def c_x07(c, ctx):
    if c['kind'] == 'LBFGS':
        return lbfgs_defaults(c, ctx)
    J = cross.Job(c)
    kind = J.kind
    m, n = J.A.shape
    if c.get('bad') and n > 1:         # What the checks of arguments refuse.
        G = np.triu(wl.rng(c['d']['s'] + 5).randn(n, n), 1)
        if c['bad'] == 'op':
            J.A = J.A + J.nrm * G
        elif J.pre[0] is not None:
            J.pre[0] = J.pre[0] + np.linalg.norm(J.pre[0]) * G
        J.presym = [False]
        J.sym = False
    own = own_values(J, c)
    if c.get('bad') == 'pre' and J.pre[0] is not None:
        own['precon'] = J.precons()[0]
    full = dict(SOLVE[kind])
    for k in ('itnlim', 'matvec_max'):
        if k in full:
            full[k] = budget_of(kind, m, n)
    ctor = dict(CTOR.get(kind, {}))

    def run(omit, pos=0):
        a = dict((k, own.get(k, v)) for k, v in ctor.items() if k in own or k not in omit)
        kw = dict((k, own.get(k, v)) for k, v in full.items() if k in own or k not in omit)
        args = []
        for k in ORDER.get(kind, ())[:pos]:
            args.append(kw.pop(k) if k in kw else own.get(k, full[k]))
        s = prob.cls(kind)(wl.L.linop_from_ndarray(J.A, symmetric=J.sym), **a)
        with Capture():
            s.solve(J.b, *args, **kw)
        return s
    everything = tuple(ctor) + tuple(full)
    ref = run(())
    want = J.snap(ref)
    omit = everything if c['omit'] == ['*'] else tuple(c['omit'])
    compare(ctx, J.snap(run(omit)), want, 'leaving out %s' % ('every option' if omit == everything else ', '.join(omit)))
    if kind in ORDER:
        p = (0, 1, 4, len(ORDER[kind]))[c['pos']]
        if p:
            compare(ctx, J.snap(run((), p)), want, 'with %d options given by position' % p)
    if J.steps(ref) > 1:
        ctx.nt()
    lim = own.get('itnlim', own.get('matvec_max', budget_of(kind, m, n)))
    ctx.label(kind, 'limit reached' if J.steps(ref) >= lim else 'stopped before the limit', 'code %d' % J.code(ref))


CHECKS['X07'] = Check(s_x07, c_x07, 5000, 80000,
    'solves with all or some options left out, against the same solve with every option given its documented default, bit for bit in everything reported, and options given by position against the same by name; all ten solvers, wild systems with condition numbers to 1e10, sizes to 21; L-BFGS memory and scaling, operator types and flags; non-trivial: more than one step',
    ['The keywords of the generic class are abstol and reltol (its docstring calls them atol and rtol)'])


# ---------------------------------------------------------------- X08
WAYS = ('lsqr-cg', 'lsmr-minres', 'craig-cg', 'craigmr-minres', 'damp-block', 'metric', 'metric', 'shift', 'precon', 'precon', 'saddle', 'all')


def s_x08(tier):
    st = st_()

    @st.composite
    def case(draw):
        w = draw(st.sampled_from(WAYS))
        c = {'way': w, 'k': draw(st.sampled_from((1, 2, 3, 4, 20)))}
        top = 7 if tier == 'quick' else 12
        lo = draw(st.sampled_from((1, min(3, top))))
        if w in ('lsqr-cg', 'lsmr-minres', 'damp-block'):
            c['kind'] = draw(st.sampled_from(('LSQR', 'LSMR'))) if w == 'damp-block' else w[:4].upper()
            c['d'] = lls.draw_lls(draw, st, top, pres=(None,), damps=(0., .1, 1.) if w != 'damp-block' else (.1, .3, 1., 3.), conds=(1.3, 2., 4.),
                                  fams=('gen', 'gen', 'dist', 'diag', 'int', 'def'), rhs=('rand', 'rand', 'range'), nmin=lo)
            c['d']['ea'] = draw(st.sampled_from((0, 0, 3, -8, 30)))
            c['d']['eb'] = draw(st.sampled_from((0, 0, 3, -8, 30)))
        elif w in ('craig-cg', 'craigmr-minres', 'saddle', 'metric'):
            c['kind'] = {'craig-cg': 'CRAIG', 'craigmr-minres': 'CRAIGMR'}.get(w) or draw(st.sampled_from(LLS))
            c['d'] = lls.draw_sqd(draw, st, top, lo, ('rand', 'rand', 'range'))
            c['d']['cond'] = draw(st.sampled_from((1.3, 2., 4.)))
            if w[:5] == 'craig':
                c['d']['pm'] = c['d']['pn'] = None
                c['d']['ea'] = draw(st.sampled_from((0, 0, 1, -1, 2)))
        else:
            kinds = {'shift': SYMM, 'precon': SHORT + SYMM, 'all': ('CG',)}[w]
            c['kind'] = draw(st.sampled_from(kinds))
            fams = ('spd', 'dist') if c['kind'] == 'CG' else cross.FAMS[c['kind']]
            sym = c['kind'] in SYMM + ('CG',)
            c['d'] = prob.draw_square(draw, st, fams, top, (None,) if w == 'all' else (('spd',) if sym else ('gen', 'spd')) if w == 'precon' else (None, 'spd'),
                                      (None, 'rand') if w == 'precon' and c['kind'] in SHORT else (None,), conds=(1.3, 2., 4.), nmin=lo)
            for e in ('ea', 'eb', 'em'):
                c['d'][e] = draw(st.sampled_from((0, 0, 3, -8, 20)))
            c['shift'] = draw(st.sampled_from((.2, -.3, .6, -2., 5.)))
        return c
    return case()


def lls_points(kind, op, b, k, **kw):
    s = prob.solve(kind, prob.make(kind, op), b, k, atol=1e-14, btol=1e-14, conlim=0., store_iterates=True, **kw)
    return s.iterates_d if kind == 'CRAIG' else s.iterates


def agree(ctx, got, want, tol, what, k):
    """Two runs through the same points; one may stop before the other, having converged."""
    top = max(float(np.max(np.abs(v))) for v in list(want) + list(got)) if len(want) else 0.
    for i in range(max(len(got), len(want))):
        ctx.close(got[min(i, len(got) - 1)], want[min(i, len(want) - 1)], tol * top, '%s: point %d' % (what, i))


def c_x08(c, ctx):
    w, kind, k = c['way'], c['kind'], c['k']
    L = wl.L
    if kind in LLS:
        unit = w in ('craig-cg', 'craigmr-minres', 'saddle', 'metric')
        S = lls.LSys(c['d'], unit=unit)
        if S.zero() or S.tiny() or S.pc > 60 or S.cond > 40 or (S.rank < min(S.m, S.n) and w == 'lsmr-minres'):
            ctx.skip('zero, tiny or ill-conditioned')
        A = S.A
        op = L.linop_from_ndarray(A)
        m, n = S.m, S.n
        good = lls.lost(S, max(m, n), True, 1e-10)
        kk = min(k, good)
        if kk < 1:
            ctx.skip('immediate breakdown')
    if w in ('lsqr-cg', 'lsmr-minres'):
        G = op.T * op + S.damp ** 2 * L.IdentityOperator(n)
        got = lls_points(kind, op, S.b, kk, **({'damp': S.damp} if S.damp else {}))
        if kind == 'LSQR':
            s = wl.CG(G, reltol=1e-13, abstol=0.)
            s.solve(op.T * S.b, matvec_max=kk, store_iterates=True)
        else:
            Gs = L.LinearOperator(n, n, lambda v: G * v, symmetric=True)
            s = prob.solve('MINRES', wl.Minres(Gs), op.T * S.b, kk, rtol=1e-14, store_iterates=True)
        agree(ctx, got, s.iterates, 1e-6 * S.cond ** 2, '%s and %s on the normal equations' % (kind, s.acronym), kk)
    elif w in ('craig-cg', 'craigmr-minres'):
        G = L.IdentityOperator(m) + op * op.T
        if S.nrm > 30:
            ctx.skip('ill-conditioned')
        got = lls_points(kind, op, S.b, kk)
        if kind == 'CRAIG':
            s = wl.CG(G, reltol=1e-14, abstol=0.)
            s.solve(S.b, matvec_max=kk + 1, store_iterates=True)
            want = s.iterates[1:]
            got = got[:kk]
            want = (list(want) + [want[-1]] * kk)[:len(got)]
        else:
            Gs = L.LinearOperator(m, m, lambda v: G * v, symmetric=True)
            s = prob.solve('MINRES', wl.Minres(Gs), S.b, kk, rtol=1e-14, store_iterates=True)
            want = s.iterates
        agree(ctx, got, want, 1e-6 * (1 + S.nrm ** 2), '%s and %s on the reduced system' % (kind, s.acronym), kk)
    elif w == 'damp-block':
        if S.low < .05 * S.amp:
            ctx.skip('ill-conditioned')
        got = lls_points(kind, op, S.b, kk, damp=S.damp)
        B = L.BlockLinearOperator([[op], [S.damp * L.IdentityOperator(n)]])
        want = lls_points(kind, B, np.concatenate((S.b, np.zeros(n))), kk)
        agree(ctx, got, want, 1e-6 * S.cond ** 2, '%s with damping and on the stacked operator' % kind, kk)
    elif w == 'metric':
        if S.nrm > 30:
            ctx.skip('ill-conditioned')
        kw = {'damp': 1.} if kind in ('LSQR', 'LSMR') else {}
        got = lls_points(kind, op, S.b, kk, **S.kw(kind, damp=False), **kw)
        back = S.Lm if kind in ('CRAIG', 'CRAIGMR') else S.Ln
        plain = lls_points(kind, L.linop_from_ndarray(S.H), S.h, kk, **kw)
        want = [np.dot(back, v) for v in plain]
        agree(ctx, got, want, 1e-6 * S.pc * (1 + S.nrm ** 2), '%s with metrics and on the transformed operator' % kind, kk)
    elif w == 'saddle':
        if S.nrm > 30 or not S.nrm > .05:
            ctx.skip('ill-conditioned')
        Mo, No = np.eye(m) if S.Mi is None else np.linalg.inv(S.Mi), np.eye(n) if S.Ni is None else np.linalg.inv(S.Ni)
        Mo, No = .5 * (Mo + Mo.T), .5 * (No + No.T)
        kw = {'damp': 1.} if kind in ('LSQR', 'LSMR') else {}
        s = prob.solve(kind, prob.make(kind, op), S.b, 4 * (m + n), atol=1e-14, btol=1e-14, conlim=0., **S.kw(kind, damp=False), **kw)
        K = L.BlockLinearOperator([[L.linop_from_ndarray(Mo, symmetric=True), op], [-L.linop_from_ndarray(No, symmetric=True)]], symmetric=True)
        P = L.BlockDiagonalLinearOperator([L.linop_from_ndarray(np.dot(S.Lm, S.Lm.T), symmetric=True), L.linop_from_ndarray(np.dot(S.Ln, S.Ln.T), symmetric=True)])
        t = prob.solve('MINRES', wl.Minres(K, precon=P), np.concatenate((S.b, np.zeros(n))), 12 * (m + n), rtol=1e-14)
        x, r = t.x[m:], t.x[:m]
        tol = 1e-7 * S.pc * (1 + S.nrm ** 2)
        if kind != 'CRAIGMR':
            ctx.close(s.x, x, tol * (np.linalg.norm(x) + np.linalg.norm(np.dot(S.Ln, S.g)) / (1 + S.nrm ** 2)), 'second block by %s and by MINRES on the block system' % kind)
        if kind in ('CRAIG', 'CRAIGMR'):
            ctx.close(s.r if kind == 'CRAIG' else s.x, r, tol * np.linalg.norm(r), 'first block by %s and by MINRES on the block system' % kind)
    elif w == 'shift':
        S = prob.Sys(c['d'])
        sh = c['shift'] * S.nrm
        ev = np.linalg.eigvalsh(S.A) - sh
        if np.min(np.abs(ev)) < .05 * np.max(np.abs(ev)):
            ctx.skip('nearly singular')
        pre = {'precon': S.preop} if S.preop is not None else {}
        op = L.linop_from_ndarray(S.A, symmetric=True)
        E = op - sh * L.IdentityOperator(S.n)
        if kind == 'MINRES':
            a, b = (prob.solve(kind, wl.Minres(o, **pre), S.b, k, rtol=1e-12, store_iterates=True, **q) for o, q in ((op, {'shift': sh}), (E, {})))
            agree(ctx, a.iterates, b.iterates, 1e-6, 'MINRES with a shift and on the shifted operator', k)
        else:
            a, b = (prob.solve(kind, wl.Symmlq(o, **pre), S.b, 10 * S.n + 20, rtol=1e-12, **q) for o, q in ((op, {'shift': sh}), (E, {})))
            ctx.close(a.x, b.x, 1e-6 * np.linalg.norm(b.x), 'SYMMLQ with a shift and on the shifted operator')
    elif w == 'precon':
        S = prob.Sys(c['d'])
        op = L.linop_from_ndarray(S.A, symmetric=S.symmetric)
        x0 = S.x0
        if kind in SYMM + ('CG',):
            C = np.linalg.cholesky(S.M)
            T = np.dot(C.T, np.dot(S.A, C))
            T = L.linop_from_ndarray(.5 * (T + T.T), symmetric=True)
            h, y0 = np.dot(C.T, S.b), None if x0 is None else np.linalg.solve(C, x0)
        else:
            C = S.M
            T = L.linop_from_ndarray(np.dot(S.A, C))
            h, y0 = S.b, None if x0 is None else np.linalg.solve(C, x0)
        if kind == 'MINRES':
            a = prob.solve(kind, wl.Minres(op, precon=S.preop), S.b, k, rtol=1e-13, store_iterates=True)
            b = prob.solve(kind, wl.Minres(T), h, k, rtol=1e-13, store_iterates=True)
            agree(ctx, a.iterates, [np.dot(C, v) for v in b.iterates], 1e-5, 'MINRES with a preconditioner and on the transformed operator', k)
        elif kind == 'CG':
            run = []
            for o, p, q, g in ((op, S.preop, S.b, x0), (T, None, h, y0)):
                s = wl.CG(o, precon=p, reltol=1e-12, abstol=0.)
                prob.solve(kind, s, q, k, g, store_iterates=True)
                run.append(s.iterates)
            agree(ctx, run[0], [np.dot(C, v) for v in run[1]], 1e-5, 'CG with a preconditioner and on the transformed operator', k)
        else:
            run = []
            for o, p, q, g in ((op, S.preop, S.b, x0), (T, None, h, y0)):
                s = prob.cls(kind)(o, precon=p, **({} if kind == 'SYMMLQ' else {'reltol': 1e-10, 'abstol': 0.}))
                prob.solve(kind, s, q, 40 * S.n, g, **({'rtol': 1e-11} if kind == 'SYMMLQ' else {}))
                run.append(s)
            a, b = run
            if a.converged and b.converged:
                want = np.dot(C, b.x)
                ctx.close(a.x, want, 1e-5 * (np.linalg.norm(want) + (0. if x0 is None else np.linalg.norm(x0))) * np.linalg.cond(C), '%s with a preconditioner and on the transformed operator' % kind)
    else:
        S = prob.Sys(c['d'])
        op = L.linop_from_ndarray(S.A, symmetric=True)
        want = np.linalg.solve(S.A, S.b)
        for q in ALL[:8]:
            s = prob.make(q, op, **({'reltol': 1e-10, 'abstol': 0.} if q in SHORT else {}))
            kw = {'rtol': 1e-12} if q in SYMM else {} if q in SHORT else {'atol': 1e-13, 'btol': 1e-13, 'conlim': 0.}
            prob.solve(q, s, S.b, 10 * S.n + 10, **kw)
            if q in ('CG', 'MINRES', 'SYMMLQ', 'LSQR', 'LSMR') or s.converged:
                ctx.close(s.x, want, 1e-6 * np.linalg.norm(want), 'solution by %s' % q)
    if k > 1 and min(S.A.shape) > 1 and np.any(S.b):
        ctx.nt()
    ctx.label(w, kind)


CHECKS['X08'] = Check(s_x08, c_x08, 4000, 60000,
    'pairs of equivalent formulations run with the real code on both sides: LSQR and LSMR against CG and MINRES on the normal equations built as operator expressions, CRAIG and CRAIG-MR against CG and MINRES on the reduced system, damping against a stacked block operator, metrics and preconditioners against transformed operators, shifts against shifted expressions, quasi-definite systems against preconditioned MINRES on the symmetric block operator, all square solvers and LSQR and LSMR on one positive definite system; points compared step by step where both store them; non-trivial: at least two steps allowed and two unknowns',
    ['Well-conditioned systems only, and only while orthogonality is kept'])


# ---------------------------------------------------------------- X09
class Boom(Exception):
    pass


BOOMS = dict((k.__name__, type('Boom' + k.__name__, (Boom, k), {})) for k in
             (RuntimeError, ValueError, TypeError, ZeroDivisionError, FloatingPointError, IndexError, KeyError, AttributeError, NotImplementedError, MemoryError))


def s_x09(tier):
    st = st_()

    @st.composite
    def case(draw):
        c = cross.draw_job(draw, st, 6 if tier == 'quick' else 14, wild=draw(st.booleans()), conds=(2., 10., 100.))
        c['mode'] = draw(st.sampled_from(('raise', 'raise', 'nan', 'nan', 'nest')))
        c['where'] = draw(st.sampled_from(('op', 'op', 'pre')))
        c['at'] = draw(st.sampled_from((1, 1, 2, 2, 3, 3, 4, 5, 7)))
        c['what'] = draw(st.sampled_from(('nan', 'inf', '-inf')))
        c['once'] = draw(st.booleans())
        c['exc'] = draw(st.sampled_from(sorted(BOOMS)))
        c['inner'] = draw(st.sampled_from(ALL))
        c['same'] = draw(st.booleans())
        return c
    return case()


def c_x09(c, ctx):
    J = cross.Job(c)
    kind, mode = J.kind, c['mode']
    L = wl.L
    n, m = J.A.shape[1], J.A.shape[0]
    st = {'n': 0, 'on': True, 'total': 0, 'hit': None}
    inner = c['inner'] if not c['same'] else kind
    r = wl.rng(7)
    k = m if c['same'] else 4
    Q = wl.spd(r, k, 5.)
    q = r.randn(k)
    iop = L.linop_from_ndarray(Q, symmetric=True)

    def disturb(y):
        st['total'] += 1
        if st['total'] > 3000:
            raise wl.Runaway('more than 3000 products')
        if not st['on']:
            return y
        st['n'] += 1
        if mode == 'nest':
            s = prob.make(inner, iop, **({'reltol': 1e-3} if inner in SHORT else {}))
            with Capture():
                s.solve(q, **prob.budget_kw(inner, 3))
            return y
        if st['n'] == c['at'] or (mode == 'nan' and st['n'] > c['at'] and not c['once']):
            st['hit'] = True
            if mode == 'raise':
                raise BOOMS[c.get('exc', 'RuntimeError')]('product %d' % st['n'])
            y = np.array(y, dtype=float)
            y[c['d']['s'] % len(y)] = {'nan': np.nan, 'inf': np.inf, '-inf': -np.inf}[c['what']]
        return y

    def wrap(A, on, sym):
        f = disturb if on else (lambda y: y)
        kw = {'symmetric': True} if sym else {'matvec_transp': lambda v: f(np.dot(A.T, v))}
        return L.LinearOperator(A.shape[1], A.shape[0], lambda v: f(np.dot(A, v)), **kw)
    have = any(p is not None for p in J.pre)
    on_pre = c['where'] == 'pre' and have
    op = wrap(J.A, not on_pre, J.sym)
    pre = [None if p is None else wrap(p, on_pre, y) for p, y in zip(J.pre, J.presym)]
    b0, x0 = J.b.copy(), None if J.x0 is None else J.x0.copy()

    def fresh():
        st.update(on=False, n=0)
        s = J.run(op=op, pre=pre)
        st.update(on=True, n=0)
        return s
    want = J.snap(fresh())
    s = J.solver(op, pre)
    with np.errstate(all='ignore'):
        try:
            J.solve(s, pre=pre)
            ended = None
        except Boom as e:
            ended = e
        except Exception as e:
            if mode != 'nan' or not st['hit']:
                raise
            ended = e
    ctx.ensure(np.array_equal(J.b, b0) and (x0 is None or np.array_equal(J.x0, x0)), 'the right-hand side or the guess has changed')
    if mode == 'nest':
        compare(ctx, J.snap(s), want, 'with solves by %s inside the products' % inner)
        if J.steps(s) > 1:
            ctx.nt()
        ctx.label('nested %s' % kind)
        return
    if not st['hit']:
        compare(ctx, J.snap(s), want, 'without a fault')
        ctx.label('no fault met')
        return
    if mode == 'raise':
        ctx.ensure(isinstance(ended, Boom), 'the exception raised by product %d is lost', c['at'])
    ctx.label('%s %s' % (mode, kind))
    # The solver serves again.
    st.update(on=False)
    J.solve(s, pre=pre)
    compare(ctx, J.snap(s), want, 'after a %s' % ('failed product' if mode == 'raise' else 'product that was not finite'))
    ctx.nt()


CHECKS['X09'] = Check(s_x09, c_x09, 6000, 100000,
    'all ten solvers with a product of the operator, its transpose, the preconditioner or a metric raising an exception, or giving a value that is not finite (once or from then on), at a random product, or running another solver inside every product: the exception reaches the caller, the solve ends, arguments are untouched, and the same solver solves again exactly as a fresh one; non-trivial: the fault was met (nested: more than one step)',
    ['After a product that is not finite, nothing is claimed about the result of that solve except that it ends'])
