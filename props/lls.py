"""R01-R06: LSQR, LSMR, CRAIG and CRAIG-MR."""
import numpy as np
from vlib import wl, prob
from vlib.check import Check
from vlib.spec import st_
from props.krylov import arnoldi

CHECKS = {}
LD = np.longdouble
PRES = (None, None, None, 'diag', 'spd')
TEXT = {0: 'solution is zero', 1: 'residual small', 2: 'residual small', 3: 'ill-conditioned operator', 4: 'residual small',
        5: 'residual small', 6: 'ill-conditioned operator', 7: 'max iterations', 8: 'direct error small'}
CLASSIC = ('LSQR', 'LSMR')


def draw_lls(draw, st, nmax, pres=PRES, damps=(0., 0., 0., 0., .005, .02, .1, 1., 10.), conds=(2., 5., 10., 30.), fams=None, scales=True, rhs=('rand', 'rand', 'range', 'range', 'sing', 'ortho'), nmin=1, long=40):
    z = st.sampled_from((0, 0, 0, -12, 12, 3, -20, 20, -60, 60)) if scales else st.just(0)
    d = {'fam': draw(st.sampled_from(fams or ('gen', 'gen', 'gen', 'dist', 'int', 'diag', 'def'))), 'm': draw(st.integers(nmin, nmax)),
            'n': draw(st.integers(nmin, nmax)), 'cond': draw(st.sampled_from(conds)), 's': draw(st.integers(0, 10 ** 6)),
            'ea': draw(z), 'eb': draw(z), 'rhs': draw(st.sampled_from(rhs)),
            'damp': draw(st.sampled_from(damps)), 'pm': draw(st.sampled_from(pres)), 'pn': draw(st.sampled_from(pres)),
            'em': draw(z), 'en': draw(z)}
    return prob.stretch(draw, st, d, long)


class LSys(object):
    """min |b - Ax|^2 in the norm of Mi plus damp^2 |x|^2 in the norm of the inverse of Ni; 'H' is A in the variables where both are
    the identity (the columns of Lm, Ln factor Mi = Lm Lm', Ni = Ln Ln')."""

    def __init__(self, d, limit=5000, unit=False, keep=False):
        r = wl.rng(d['s'])
        m, n = self.m, self.n = d['m'], d['n']
        k = min(m, n)
        f = d['fam']
        if f in ('gen', 'def', 'dist'):
            sv = np.exp(r.uniform(0, np.log(d['cond']), k))
            if f == 'dist':
                sv = np.array([sv[i % 2 if k > 1 else 0] for i in range(k)])
            if f == 'def' and k > 1:
                sv[:max(1, k // 3)] = 0.
            A = wl.with_singular_values(r, m, n, sv)
        elif f == 'int':
            A = wl.ints(r, (m, n), 3).astype(float)
        else:
            A = np.zeros((m, n))
            for i in range(k):
                A[i, i] = r.choice((1., 2., -2., 3., 5.))
        self.A = A * 2. ** d['ea']
        q = d['rhs']
        if q == 'rand':
            b = r.randn(m)
        elif q == 'range':
            b = np.dot(A, r.randn(n))
        elif q == 'sing':
            b = np.linalg.svd(A)[0][:, d['s'] % k]
        else:
            b = r.randn(m)
            b = b - np.dot(A, np.linalg.lstsq(A, b, rcond=1e-12)[0])
            b = b if np.linalg.norm(b) > 1e-3 else np.zeros(m)
        self.b = b * 2. ** d['eb']
        self.Mi, self.Ni = self.precon(r, d['pm'], m, d['em']), self.precon(r, d['pn'], n, d['en'])
        self.Lm = np.eye(m) if self.Mi is None else np.linalg.cholesky(self.Mi)
        self.Ln = np.eye(n) if self.Ni is None else np.linalg.cholesky(self.Ni)
        self.H = np.dot(self.Lm.T, np.dot(self.A, self.Ln))
        self.h = np.dot(self.Lm.T, self.b)
        self.nb = float(np.linalg.norm(self.h))
        sv = np.linalg.svd(self.H)[1]
        self.sv = sv
        self.nrm = float(sv[0])
        nz = [float(s) for s in sv if s > 1e-10 * sv[0]]
        self.rank = len(nz)
        self.small = nz[-1] if nz else 1.
        self.damp = 1. if unit else d['damp'] * (self.nrm or 1.)
        self.amp = np.sqrt(self.nrm ** 2 + self.damp ** 2)          # norm of [H; damp I]
        self.low = np.sqrt(self.small ** 2 + self.damp ** 2)        # its least singular value on the row space
        self.cond = self.amp / self.low if self.low else 1.
        self.pc = np.linalg.cond(self.Lm) * np.linalg.cond(self.Ln)
        self.g = np.dot(self.H.T, self.h)
        self.limit = limit
        self.d = d
        self.probe = prob.Probe(self.A, limit, keep)
        self.op = self.probe.op

    @staticmethod
    def precon(r, p, k, e):
        if p is None:
            return None
        return (np.diag(r.uniform(.5, 2., k)) if p == 'diag' else wl.spd(r, k, 6.)) * 2. ** e

    def kw(self, kind, damp=True):
        d = {}
        if self.Mi is not None:
            d['M'] = wl.L.linop_from_ndarray(self.Mi, symmetric=True)
        if self.Ni is not None:
            d['N'] = wl.L.DiagonalOperator(np.diag(self.Ni)) if self.d['pn'] == 'diag' else wl.L.linop_from_ndarray(self.Ni, symmetric=True)
        if damp and self.damp:
            d['damp'] = self.damp
        return d

    def xt(self, x):
        return np.linalg.solve(self.Ln, x)

    def res(self, x):
        """b - A x in extended precision."""
        return (self.b.astype(LD) - np.dot(self.A.astype(LD), np.asarray(x).astype(LD))).astype(float)

    def norms(self, x):
        """Residual norm, that of the regularised residual, of the normal equations' residual, and of x (all in the metrics)."""
        r = np.dot(self.Lm.T, self.res(x))
        y = self.xt(x)
        g = (np.dot(self.H.T.astype(LD), r.astype(LD)) - LD(self.damp) ** 2 * y.astype(LD)).astype(float)
        nr, ny = float(np.linalg.norm(r)), float(np.linalg.norm(y))
        return nr, float(np.sqrt(nr ** 2 + (self.damp * ny) ** 2)), float(np.linalg.norm(g)), ny

    def solution(self):
        """Minimum-norm solution in the variables of H."""
        U, s, V = np.linalg.svd(self.H, full_matrices=False)
        w = np.array([t / (t * t + self.damp ** 2) if t > 1e-10 * self.nrm else 0. for t in s])
        return np.dot(V.T * w, np.dot(U.T, self.h))

    def zero(self):
        return not np.any(self.h) or np.linalg.norm(self.g) == 0

    def tiny(self):
        """The right-hand side has (nearly) nothing in the range of the operator."""
        return np.linalg.norm(self.g) < 1e-6 * self.nrm * self.nb

    def basis(self, k):
        H, g = self.H.astype(LD), self.g.astype(LD)
        return arnoldi(lambda v: np.dot(H.T, np.dot(H, v)), g, min(k, self.n))


def lost(S, k, strict=False, tol=1e-7):
    """How many steps of a double precision Golub-Kahan run keep orthogonality (if strict: and do not end)."""
    H, u = S.H, S.h / S.nb
    v = np.dot(H.T, u)
    al = np.linalg.norm(v)
    if not al > 0:
        return 0
    V, U = [v / al], [u]
    while len(V) < k:
        u = np.dot(H, V[-1]) - al * U[-1]
        be = np.linalg.norm(u)
        if not be > (1e-8 if strict else 1e-12) * S.nrm:
            return len(V) if strict else k
        U.append(u / be)
        v = np.dot(H.T, U[-1]) - be * V[-1]
        al = np.linalg.norm(v)
        if not al > (1e-8 if strict else 1e-12) * S.nrm:
            return len(V) if strict else k
        v = v / al
        if max(abs(np.dot(w, v)) for w in V) > tol or max(abs(np.dot(w, U[-1])) for w in U[:-1]) > tol:
            return len(V)
        V.append(v)
    return k


# ---------------------------------------------------------------- R01
def s_r01(tier):
    st = st_()

    @st.composite
    def case(draw):
        return {'kind': draw(st.sampled_from(CLASSIC)), 'd': draw_lls(draw, st, 12 if tier == 'quick' else 24, conds=(2., 5., 10., 30., 100., 1000.)),
                'tol': draw(st.sampled_from((1e-13, 1e-12, 1e-10, 1e-8, 1e-6))), 'conlim': draw(st.sampled_from((0., 1e12, 1e15))),
                'var': draw(st.booleans()), 'show': draw(st.sampled_from((False,) * 6 + (True,)))}
    return case()


def c_r01(c, ctx):
    S = LSys(c['d'])
    kind = c['kind']
    s = prob.make(kind, S.op)
    var = c['var'] and kind == 'LSQR'
    kw = S.kw(kind)
    if var:
        kw['wantvar'] = True
    prob.solve(kind, s, S.b, 6 * max(S.m, S.n) + 10, atol=c['tol'], btol=c['tol'], conlim=c['conlim'], **kw)
    ctx.array(s.x, (S.n,), 'x')
    ctx.ensure(np.array_equal(s.x, s.bestSolution), 'x and bestSolution differ')
    if S.zero():
        exact = not np.any(S.b)
        ctx.close(S.xt(s.x), np.zeros(S.n), 0. if exact or not S.nrm else 1e-12 * S.nb / S.low, 'x')
        if not exact and s.istop != 0:
            return
        ctx.ensure(s.optimal and s.istop == 0 and s.itn == 0, 'a zero solution gives code %r after %r iterations, optimal %r', s.istop, s.itn, s.optimal)
        ctx.label('zero solution')
        return
    if S.tiny():
        ctx.skip('right-hand side nearly orthogonal to the range')
    if S.cond * S.pc > 1e4:
        ctx.skip('ill-conditioned')
    ctx.ensure(s.istop in (1, 2, 4, 5), 'stops with code %r after %d iterations', s.istop, s.itn)
    ctx.ensure(bool(s.optimal), 'success is not reported')
    y = S.solution()
    got = S.xt(s.x)
    ny = float(np.linalg.norm(y))
    k = np.sqrt(2. * s.itn + 1)
    loss = 1e-14 * S.cond * S.pc ** 2 * (S.n + S.m) * (S.nb + S.amp * ny)
    err = (c['tol'] * (S.nb + k * S.amp * np.linalg.norm(got)) + loss) / S.low + (c['tol'] * k * S.amp * S.nb + loss * S.amp) / S.low ** 2
    # A tolerance met in the sense of a compatible system says nothing of directions the residual cannot see.
    if err > .1 * (ny + S.nb / S.low):
        ctx.skip('tolerances too loose')
    ctx.atmost(float(np.linalg.norm(got - y)), 2 * err, 'error of the solution')
    if s.itn > 1:
        ctx.nt()
    ctx.label(kind, 'code %d' % s.istop, 'damped' if S.damp else 'undamped', 'wide' if S.m < S.n else 'tall' if S.m > S.n else 'square',
              'rank deficient' if S.rank < min(S.m, S.n) else 'full rank', 'precon' if S.Mi is not None or S.Ni is not None else 'plain')
    if kind != 'LSQR':
        return
    if not var:
        ctx.ensure(s.var is None, 'variances without being asked for')
        return
    ctx.array(s.var, (S.n,), 'var')
    if S.rank < S.n and not S.damp:
        return
    if s.itn > lost(S, S.n, True) or S.low <= 0:
        return
    C = np.linalg.inv(np.dot(S.H.T, S.H) + S.damp ** 2 * np.eye(S.n))
    C = np.dot(S.Ln, np.dot(C, S.Ln.T))
    dg = np.diag(C)
    top = float(max(dg))
    ctx.ensure(np.all(s.var <= dg + 1e-7 * S.cond * top), 'variances %s exceed the diagonal %s', wl.short(s.var), wl.short(dg))
    ctx.ensure(np.all(s.var >= 0), 'negative variances')
    if s.itn == S.n:
        V = S.basis(S.n)
        HV = np.dot(S.H, np.array(V).T.astype(float)) if len(V) == S.n else None
        # The last direction must be really reached.
        if HV is not None and np.linalg.norm(np.dot(S.H.T, HV)) > 0 and S.n > 1:
            T = np.dot(HV.T, HV)
            if min(abs(T[i, i + 1]) for i in range(S.n - 1)) > 1e-4 * S.nrm ** 2:
                ctx.close(s.var, dg, 1e-5 * S.cond * top, 'variances')
                ctx.label('full variances')


CHECKS['R01'] = Check(s_r01, c_r01, 7000, 120000,
    'LSQR and LSMR run to convergence on systems of sizes to 12 (thorough 24), any shape and rank, compatible or not, damped or not, with and without metrics, tolerances 1e-13 to 1e-6, against the pseudo-inverse (damped) solution from a singular value decomposition; LSQR variances against the inverse of the normal matrix; non-trivial: more than one iteration',
    ['The direct-error test is turned off (etol = 0)', 'Right-hand sides nearly but not exactly orthogonal to the range are left out'])


# ---------------------------------------------------------------- R02
def s_r02(tier):
    st = st_()

    @st.composite
    def case(draw):
        return {'kind': draw(st.sampled_from(CLASSIC)), 'd': draw_lls(draw, st, 7 if tier == 'quick' else 14, rhs=('rand', 'rand', 'range', 'sing'), nmin=draw(st.sampled_from((1, 3)))),
                'budget': draw(st.sampled_from((None, None, 1, 2, 4))), 'tol': draw(st.sampled_from((1e-12, 1e-8, 1e-4)))}
    return case()


def c_r02(c, ctx):
    S = LSys(c['d'])
    kind = c['kind']
    if S.zero() or S.tiny() or S.cond * S.pc > 1e3:
        ctx.skip('zero, tiny or ill-conditioned')
    s = prob.make(kind, S.op)
    prob.solve(kind, s, S.b, c['budget'] or 3 * max(S.m, S.n), atol=c['tol'], btol=c['tol'], conlim=0., store_iterates=True,
               store_resids=True, **S.kw(kind))
    its = [np.array(v) for v in s.iterates]
    for name, l in (('iterates', its), ('residuals', s.resids), ('normal equations residuals', s.normal_eqns_resids)):
        ctx.ensure(len(l) == s.itn + 1, '%d %s stored in %d iterations', len(l), name, s.itn)
    ctx.close(its[0], np.zeros(S.n), 0., 'first iterate')
    ctx.close(its[-1], s.x, 0., 'last iterate')
    V = S.basis(min(s.itn, S.n))
    good = lost(S, S.n, False, 1e-9)
    G = np.dot(S.H.T, S.H) + S.damp ** 2 * np.eye(S.n)
    B = np.vstack((S.H, S.damp * np.eye(S.n)))
    bb = np.concatenate((S.h, np.zeros(S.n)))
    ng = float(np.linalg.norm(S.g))
    pad = S.pc * S.cond * 1e-12
    ctx.near(s.resids[0], S.nb, 1e-12 * S.nb * S.pc, 'first residual')
    ctx.near(s.normal_eqns_resids[0], ng, 1e-12 * S.nrm * S.nb * S.pc, 'first normal equations residual')
    for k in range(1, len(its)):
        if k > good:
            ctx.label('orthogonality lost')
            break
        ctx.array(its[k], (S.n,), 'iterate %d' % k)
        W = np.array(V[:k]).T.astype(float)
        nr, r2, ar, ny = S.norms(its[k])
        if kind == 'LSQR':
            t = np.linalg.lstsq(np.dot(B, W), bb, rcond=1e-14)[0]
            best = float(np.linalg.norm(bb - np.dot(B, np.dot(W, t))))
            ctx.near(r2, best, (1e-8 + pad) * S.nb, 'residual of iterate %d (the minimum over the Krylov space)' % k)
        else:
            t = np.linalg.lstsq(np.dot(G, W), S.g, rcond=1e-14)[0]
            best = float(np.linalg.norm(S.g - np.dot(G, np.dot(W, t))))
            ctx.near(ar, best, (1e-8 + pad) * S.cond * ng, 'normal equations residual of iterate %d (the minimum over the Krylov space)' % k)
        y = np.dot(W, t)
        ctx.close(S.xt(its[k]), y, (1e-7 + 10 * pad) * S.cond * (np.linalg.norm(y) + ng / S.low ** 2), 'iterate %d' % k)
        ctx.near(s.resids[k], r2, (1e-8 + pad) * S.nb, 'stored residual %d' % k)
        ctx.near(s.normal_eqns_resids[k], ar, (1e-8 + pad) * S.cond * S.amp * S.nb, 'stored normal equations residual %d' % k)
        if kind == 'LSQR':
            ctx.atmost(s.resids[k], s.resids[k - 1] * (1 + 1e-12), 'stored residual %d (the one before)' % k)
        else:
            ctx.atmost(s.normal_eqns_resids[k], s.normal_eqns_resids[k - 1] * (1 + 1e-12), 'stored normal equations residual %d (the one before)' % k)
        if k >= 2 and best > 1e-5 * (S.nb if kind == 'LSQR' else ng):
            ctx.nt()
    ctx.label(kind, 'family %s' % c['d']['fam'], 'damped' if S.damp else 'undamped', 'precon' if S.Mi is not None or S.Ni is not None else 'plain')


CHECKS['R02'] = Check(s_r02, c_r02, 6000, 100000,
    'every stored LSQR and LSMR iterate compared with the minimiser over the explicitly built Krylov space (damping and metrics included), and with the stored residuals; sizes to 7 (thorough 14); non-trivial: an iterate beyond the first whose residual is above 1e-5 of the initial one',
    ['Condition numbers to 30 (300 with the metrics)', 'Only while a plain bidiagonalisation keeps orthogonality'])


# ---------------------------------------------------------------- R03
KINDS = ('LSQR', 'LSMR', 'CRAIG', 'CRAIGMR')


def draw_sqd(draw, st, nmax, nmin=1, rhs=('rand', 'rand', 'range', 'range', 'sing', 'ortho'), long=40):
    d = draw_lls(draw, st, nmax, pres=(None, 'diag', 'spd', 'spd'), damps=(1.,), fams=('gen', 'gen', 'def', 'int', 'diag', 'dist'),
                 scales=False, rhs=rhs, nmin=nmin, long=long)
    e = draw(st.sampled_from((0, 0, 0, 1, -2, 4, -9, 20, -40)))
    d['ea'], d['eb'] = e, draw(st.sampled_from((0, 0, 5, -30, 40)))
    if d['pm'] and d['pn']:          # The system in the variables of the metrics stays moderate.
        k = draw(st.integers(-12, 12))
        d['em'], d['en'] = k - e, -k - e - draw(st.sampled_from((0, 0, 0, 8, 16)))
    elif d['pm'] or d['pn']:
        d['em'], d['en'] = -2 * e, -2 * e
    else:
        d['ea'] = draw(st.sampled_from((0, 0, 1, -1, 3, -3, -6, -8, -12, -20)))
    return d


def s_r03(tier):
    st = st_()

    @st.composite
    def case(draw):
        kind = draw(st.sampled_from(KINDS))
        c = {'kind': kind, 'd': draw_sqd(draw, st, 9 if tier == 'quick' else 20),
             'tol': draw(st.sampled_from((1e-12, 1e-13, 1e-10))), 'pass': draw(st.booleans()), 'damp': 1.}
        if kind == 'CRAIG' and c['d']['pn'] is None and draw(st.integers(0, 5)) == 0:
            c['damp'], c['pass'] = draw(st.sampled_from((.5, 2.))), True
        return c
    return case()


def c_r03(c, ctx):
    S = LSys(c['d'], unit=True)
    kind = c['kind']
    if S.zero() and np.any(S.h) and np.any(S.g):
        ctx.skip('rounding')
    if S.tiny() and np.any(S.g) and kind in CLASSIC:
        ctx.skip('right-hand side nearly orthogonal to the range')
    if S.nrm > 1e3 or S.pc > 1e3:
        ctx.skip('ill-conditioned')
    s = prob.make(kind, S.op)
    kw = S.kw(kind, damp=False)
    if kind in CLASSIC or c['pass']:
        kw['damp'] = c['damp']
    prob.solve(kind, s, S.b, 5 * max(S.m, S.n) + 10, atol=c['tol'], btol=c['tol'], conlim=0., **kw)

    def parts(damp):
        K = np.eye(S.m) * damp ** 2 + np.dot(S.H, S.H.T)
        r = np.linalg.solve(K, S.h) * damp ** 2
        return r, np.dot(S.H.T, r) / damp ** 2
    r, x = parts(c['damp'])
    rs, xs = np.dot(S.Lm, r), np.dot(S.Ln, x)
    big = 1 + S.nrm
    # Loose stopping: the residual of the system is tol times the norms involved.
    t = (20 * c['tol'] * np.sqrt(S.n + S.m + 10.) + 1e-13) * big ** 2 * (S.nb + big * np.linalg.norm(x)) * S.pc
    if kind == 'CRAIGMR':
        ctx.close(np.linalg.solve(S.Lm, ctx.array(s.x, (S.m,), 'x')), r, t, 'first block')
    elif c['damp'] != 1.:
        a = np.linalg.norm(S.xt(s.x) - x)
        r1, x1 = parts(1.)
        if a > t and np.linalg.norm(S.xt(s.x) - x1) <= t:
            ctx.soft(False, 'craig-damp', 'CRAIG ignores damp')
            return
        ctx.close(S.xt(s.x), x, t, 'second block with damp')
    else:
        ctx.close(S.xt(ctx.array(s.x, (S.n,), 'x')), x, t, 'second block')
        if kind == 'CRAIG':
            ctx.close(np.linalg.solve(S.Lm, ctx.array(s.r, (S.m,), 'r')), r, t, 'first block')
    if np.any(S.g) and min(S.m, S.n) > 1 and c['d']['rhs'] not in ('sing', 'ortho'):
        ctx.nt()
    ctx.label(kind, 'code %d' % s.istop, 'metrics %s %s' % (c['d']['pm'], c['d']['pn']), 'rank deficient' if S.rank < min(S.m, S.n) else 'full rank')


CHECKS['R03'] = Check(s_r03, c_r03, 6000, 100000,
    'quasi-definite systems of sizes to 9 + 9 (thorough 20 + 20) with identity, diagonal and dense metrics of varying scale, solved by LSQR and LSMR with unit damping, CRAIG and CRAIG-MR, both blocks compared with a dense solution; non-trivial: at least two rows and columns and a general right-hand side',
    ['The direct-error test is turned off (etol = 0)'])


# ---------------------------------------------------------------- R06
def s_r06(tier):
    st = st_()

    @st.composite
    def case(draw):
        return {'kind': draw(st.sampled_from(('CRAIG', 'CRAIGMR'))), 'd': draw_sqd(draw, st, 7 if tier == 'quick' else 14, draw(st.sampled_from((1, 3))), ('rand', 'rand', 'range', 'sing')),
                'budget': draw(st.sampled_from((None, None, 1, 2, 4)))}
    return case()


def c_r06(c, ctx):
    S = LSys(c['d'], unit=True)
    kind = c['kind']
    if not np.any(S.b) or S.nrm > 1e3 or S.pc > 1e3 or S.nrm == 0:
        ctx.skip('zero or ill-conditioned')
    if S.tiny() and np.any(S.g):
        ctx.skip('right-hand side nearly orthogonal to the range')
    s = prob.make(kind, S.op)
    lim = c['budget'] or min(S.m, S.n) + 1
    prob.solve(kind, s, S.b, lim, btol=1e-12, store_iterates=True, store_resids=True, **S.kw(kind, damp=False))
    duals = s.iterates_d if kind == 'CRAIG' else s.iterates
    ctx.ensure(len(duals) == s.itn + 1, '%d iterates stored in %d iterations', len(duals), s.itn)
    ctx.ensure(len(s.norms) == s.itn + 1, '%d norms stored in %d iterations', len(s.norms), s.itn)
    if kind == 'CRAIG':
        ctx.ensure(len(s.iterates_p) == s.itn + 1 and len(s.resids) == s.itn + 1, 'histories of different lengths')
        ctx.close(s.iterates_p[-1], s.x, 0., 'last primal iterate')
        ctx.close(s.iterates_d[-1], s.r, 0., 'last dual iterate')
    else:
        ctx.close(s.iterates[-1], s.x, 0., 'last iterate')
        ctx.close(s.iterates[0], np.zeros(S.m), 0., 'first iterate')
    H, h = S.H.astype(LD), S.h.astype(LD)
    V = arnoldi(lambda v: np.dot(H, np.dot(H.T, v)), h, min(s.itn + 1, S.m))
    K = np.eye(S.m) + np.dot(S.H, S.H.T)
    good = lost(S, min(S.m, S.n), False, 1e-9)
    big = 1 + S.nrm ** 2
    tol = (1e-7 * min(1., S.nrm ** 2) + 1e-12) * S.pc * big
    for k in range(1 if kind == 'CRAIGMR' else 0, len(duals)):
        dim = k + (kind == 'CRAIG')
        if dim > good + 1:
            ctx.label('orthogonality lost')
            break
        W = np.array(V[:dim]).T.astype(float)
        KW = np.dot(K, W)
        if kind == 'CRAIG':
            t = np.linalg.solve(np.dot(W.T, KW), np.dot(W.T, S.h))
        else:
            t = np.linalg.lstsq(KW, S.h, rcond=1e-14)[0]
        want = np.dot(W, t)
        got = np.linalg.solve(S.Lm, ctx.array(duals[k], (S.m,), 'iterate %d' % k))
        ctx.close(got, want, tol * S.nb, '%siterate %d' % ('dual ' if kind == 'CRAIG' else '', k))
        if kind == 'CRAIG':
            x = np.dot(S.H.T, want)
            ctx.close(S.xt(ctx.array(s.iterates_p[k], (S.n,), 'iterate %d' % k)), x, tol * (1 + S.nrm) * S.nb, 'primal iterate %d' % k)
            e = float(np.dot(want, np.dot(K, want)))
            ctx.near(s.resids[k], e, tol * S.nb ** 2, 'stored objective %d' % k)
            if k:
                ctx.ensure(s.resids[k] >= s.resids[k - 1] * (1 - 1e-12), 'the stored energies decrease')
        else:
            ctx.near(s.norms[k], float(np.linalg.norm(np.dot(K, want))) ** 2, tol * S.nb ** 2, 'stored norm %d' % k)
        if dim >= 2 and np.linalg.norm(S.h - np.dot(K, want)) > 1e-5 * S.nb:
            ctx.nt()
    ctx.label(kind, 'metrics %s %s' % (c['d']['pm'], c['d']['pn']), 'family %s' % c['d']['fam'])


CHECKS['R06'] = Check(s_r06, c_r06, 5000, 90000,
    'every stored CRAIG iterate (both blocks) compared with the Galerkin point, every stored CRAIG-MR iterate with the residual minimiser, of I + H H\' over the explicitly built Krylov space, and with the stored energies; sizes to 7 (thorough 14); non-trivial: an iterate in a space of at least two dimensions whose residual is above 1e-5 of the initial one',
    ['Only while a plain bidiagonalisation keeps orthogonality'])


# ---------------------------------------------------------------- R04
def s_r04(tier):
    st = st_()

    @st.composite
    def case(draw):
        kind = draw(st.sampled_from(('LSQR', 'LSQR', 'LSMR', 'LSMR', 'CRAIG')))
        c = {'kind': kind, 'budget': draw(st.sampled_from((None, None, 1, 2, 3, 5))), 'tol': draw(st.sampled_from((1e-12, 1e-9, 1e-5)))}
        top = 9 if tier == 'quick' else 18
        if kind == 'CRAIG':
            c['d'] = draw_sqd(draw, st, top)
        else:
            c['d'] = draw_lls(draw, st, top, rhs=('rand', 'rand', 'range', 'sing'), nmin=draw(st.sampled_from((1, 2))))
        return c
    return case()


def estimates(ctx, kind, S, s):
    """The operator norm and condition estimates belong to the operator restricted to the Krylov space."""
    k = s.itn
    W = np.array(S.basis(k)).T.astype(float)
    if W.shape[1] < k:
        return
    HW = np.dot(S.H, W)
    T = np.dot(HW.T, HW)
    if kind == 'LSQR':
        T = T + S.damp ** 2 * np.eye(k)
    want = float(np.sqrt(np.trace(T)))
    if kind == 'LSMR':       # The last coefficient of the bidiagonalisation is not included.
        T = T + S.damp ** 2 * np.eye(k)
    ctx.near(s.Anorm, want, 1e-6 * want, 'Anorm')
    ev = np.linalg.eigvalsh(T)
    if ev[0] < 1e-7 * ev[-1]:
        return
    if kind == 'LSQR':
        c = want * float(np.sqrt(np.trace(np.linalg.inv(T))))
    else:
        R = np.linalg.cholesky(T)          # Its transpose is the bidiagonal factor.
        dg = np.abs(np.diag(np.linalg.qr(R)[1]))
        c = float(max(dg) / min(dg))
    ctx.near(s.Acond, c, 1e-5 * c * (ev[-1] / ev[0]) ** .5, 'Acond')
    ctx.atmost(1., s.Acond * (1 + 1e-9), 'one (with respect to Acond)')
    ctx.label('estimates')


def c_r04(c, ctx):
    kind = c['kind']
    S = LSys(c['d'], unit=kind == 'CRAIG')
    if not np.any(S.b) or S.nrm == 0 or S.zero():
        ctx.skip('zero')
    if S.tiny():
        ctx.skip('right-hand side nearly orthogonal to the range')
    if S.cond * S.pc > 1e4 or (kind == 'CRAIG' and S.nrm > 1e3):
        ctx.skip('ill-conditioned')
    s = prob.make(kind, S.op)
    prob.solve(kind, s, S.b, c['budget'] or 4 * max(S.m, S.n) + 5, atol=c['tol'], btol=c['tol'], conlim=0., **S.kw(kind, damp=kind != 'CRAIG'))
    good = s.itn <= lost(S, min(S.m, S.n), False, 1e-9)
    nr, r2, ar, ny = S.norms(s.x)
    pad = (1e-8 if good else 1e-6) + 1e-12 * S.cond * S.pc
    nb, low, amp = S.nb, S.low, S.amp
    if kind == 'CRAIG':
        y = np.linalg.solve(S.Lm, s.r)
        ny2 = float(np.linalg.norm(y))
        e = float(np.sqrt(ny2 ** 2 + ny ** 2))
        ctx.near(s.r2norm, e, pad * (1 + S.nrm) * nb, 'r2norm')
        ok = abs(s.r1norm - nr) <= pad * (1 + S.nrm) * nb and abs(s.xnorm - ny) <= pad * (1 + S.nrm) * nb
        if not ok:
            rel = abs(s.r1norm ** 2 + s.xnorm - s.r2norm ** 2) <= pad * (1 + S.nrm) * nb ** 2
            ctx.ensure(rel and s.xnorm >= 0, 'r1norm %r and xnorm %r are neither the norms (%r, %r) nor the known wrong ones', s.r1norm, s.xnorm, nr, ny)
            ctx.soft(False, 'craig-norms', 'r1norm and xnorm of CRAIG')
    else:
        ctx.near(s.r2norm, r2, pad * nb, 'r2norm')
        ctx.near(s.residNorm, r2, pad * nb, 'residNorm')
        ctx.near(s.Arnorm, ar, pad * S.cond * amp * nb, 'Arnorm')
        ctx.near(s.xnorm, ny, pad * S.cond * nb / low, 'xnorm')
        if kind == 'LSQR' and not S.damp:
            ctx.near(s.r1norm, nr, pad * nb, 'r1norm')
        elif kind == 'LSQR' and s.istop in (1, 2, 4, 5) and c['tol'] <= 1e-8 and good:
            # Taken from r2norm with the norm of an earlier iterate.
            ctx.near(s.r1norm * abs(s.r1norm), nr ** 2, 1e-6 * nb ** 2, 'square of r1norm')
            ctx.label('damped r1norm')
        if s.itn and s.itn <= lost(S, min(S.m, S.n), True, 1e-9):
            estimates(ctx, kind, S, s)
    if s.itn > 1:
        ctx.nt()
    ctx.label(kind, 'damped' if S.damp else 'undamped', 'stopped early' if s.istop == 7 else 'converged', 'orthogonal' if good else 'orthogonality lost',
              'precon' if S.Mi is not None or S.Ni is not None else 'plain')


CHECKS['R04'] = Check(s_r04, c_r04, 6000, 100000,
    'norms and operator estimates reported by LSQR, LSMR and CRAIG, after any number of iterations, compared with those of the returned solution (extended precision) and with those of the operator restricted to the explicitly built Krylov space; sizes to 9 (thorough 18), damping, metrics and powers of two as scales; non-trivial: more than one iteration',
    ['Condition numbers to 1e4; operator estimates only while a plain bidiagonalisation keeps orthogonality'])


# ---------------------------------------------------------------- R05
def s_r05(tier):
    st = st_()

    @st.composite
    def case(draw):
        kind = draw(st.sampled_from(KINDS))
        top = 9 if tier == 'quick' else 20
        c = {'kind': kind, 'budget': draw(st.sampled_from((None, None, None, 0, 1, 2, 3, 5))),
             'atol': draw(st.sampled_from((None, 1e-10, 1e-6, 1e-4, 1e-2))), 'btol': draw(st.sampled_from((None, 1e-10, 1e-6, 1e-4, 1e-2))),
             'conlim': draw(st.sampled_from((None, None, 0., 1e10, 4., 10., 100.))),
             'etol': draw(st.sampled_from((0., 0., 1e-6, 1e-3, 1e-1, None))), 'window': draw(st.sampled_from((None, None, 1, 2, 3)))}
        if kind in CLASSIC:
            c['d'] = draw_lls(draw, st, top, conds=(1.05, 1.3, 2., 5., 10., 30., 300.), nmin=draw(st.sampled_from((1, 3, 5))))
        else:
            c['d'] = draw_sqd(draw, st, top, nmin=draw(st.sampled_from((1, 3, 5))))
            c['d']['cond'] = draw(st.sampled_from((1.05, 1.3, c['d']['cond'], c['d']['cond'])))
        if kind != 'LSQR' and c['budget'] == 0:
            c['budget'] = 1
        goal = c['goal'] = draw(st.sampled_from(('any',) * 6 + ('direct', 'direct', 'cond', 'exact')))
        if goal != 'any':          # Leave one reason to stop.
            c.update(atol=1e-14, btol=1e-14, conlim=0., etol=0., window=None, budget=60 + 6 * max(0, c['d']['m'] - 15, c['d']['n'] - 15))
            c['d'].update(rhs='rand' if goal != 'exact' else c['d']['rhs'], cond=draw(st.sampled_from((1.5, 3., 10., 30.))), m=max(c['d']['m'], 4), n=max(c['d']['n'], 4))
        if goal == 'direct':
            c['etol'], c['window'] = draw(st.sampled_from((.5, .1, 1e-2, 1e-4))), draw(st.sampled_from((1, 2, 3)))
        elif goal == 'cond':
            c['conlim'] = draw(st.sampled_from((2., 4., 10., 30.)))
        elif goal == 'exact':
            c['atol'] = c['btol'] = 0.
        return c
    return case()


def c_r05(c, ctx):
    kind = c['kind']
    S = LSys(c['d'], unit=kind not in CLASSIC)
    if S.nrm == 0:
        ctx.skip('null operator')
    if kind == 'CRAIGMR' and not np.any(S.g) and np.any(S.b):
        ctx.skip('nothing in the range')
    s = prob.make(kind, S.op)
    kw = S.kw(kind, damp=kind in CLASSIC)
    for k in ('atol', 'btol', 'conlim', 'window'):
        if c[k] is not None:
            kw[k] = c[k]
    if c['etol'] is not None:
        kw['etol'] = c['etol']
    if c['budget'] is not None:
        kw['itnlim'] = c['budget']
    s.solve(S.b, store_iterates=True, store_resids=True, **kw)
    atol, btol = [1e-9 if c[k] is None else c[k] for k in ('atol', 'btol')]
    conlim = 1e8 if c['conlim'] is None else c['conlim']
    etol = 1e-6 if c['etol'] is None else c['etol']
    win = 5 if c['window'] is None else c['window']
    limit = c['budget'] or (3 * S.n if kind in ('LSQR', 'CRAIG') else min(S.m, S.n))
    code, itn = s.istop, s.itn
    ctx.ensure(s.status == TEXT[code], 'status %r with code %r', s.status, code)
    ctx.ensure(0 <= itn <= limit, '%r iterations with a limit of %d', itn, limit)
    zero = not np.any(S.h) or (kind in CLASSIC and np.linalg.norm(S.g) == 0)
    ctx.ensure(bool(s.optimal) == (code in (0, 1, 2, 4, 5, 8)), 'success is %r with code %r', s.optimal, code)
    ctx.near(s.nMatvec, 2 * itn, 0, 'nMatvec')
    P = S.probe
    ctx.ensure(P.n == itn and P.t <= itn + 1, '%d + %d products in %d iterations', P.n, P.t, itn)
    if itn == 0:
        ctx.ensure(code == 0, 'code %r without iterations', code)
        ctx.ensure(zero or S.tiny(), 'nothing was done')
        ctx.close(S.xt(s.x) if kind != 'CRAIGMR' else s.x, np.zeros(len(s.x)), 0., 'x')
        ctx.label('code 0')
        return
    ctx.ensure(code != 0, 'no reason is given after %d iterations', itn)
    if S.cond * S.pc > 1e4 or (kind not in CLASSIC and (S.nrm > 1e3 or S.pc > 1e3)):
        ctx.skip('ill-conditioned')
    if S.tiny():
        ctx.skip('right-hand side nearly orthogonal to the range')
    good = lost(S, min(S.m, S.n), False, 1e-9)
    nb = S.nb
    if code == 7:
        ctx.ensure(itn == limit, 'the iteration limit (%d) is blamed after %d', limit, itn)
        if c.get('goal') == 'exact' and kind != 'CRAIGMR' and S.cond * S.pc <= 300:
            ctx.ensure(False, 'no convergence to working precision in %d iterations', itn)
    pad = 1e-8 + 1e-12 * S.cond * S.pc
    G = np.dot(S.H.T, S.H) + S.damp ** 2 * np.eye(S.n)
    if kind in CLASSIC:
        its = [S.xt(v) for v in s.iterates]
        nr, r2, ar, ny = S.norms(s.x)
        frob = np.sqrt(itn + 1.) * S.amp
        if code == 1:
            ctx.atmost(r2, btol * nb + atol * frob * ny + pad * nb * (itn > good) + 1e-12 * S.cond * S.pc * nb, 'residual with code 1')
        if code == 2:
            ctx.atmost(ar, atol * frob * r2 + pad * S.amp * nb * (itn > good) + 1e-12 * S.cond * S.pc * S.amp * nb, 'normal equations residual with code 2')
        if code == 3:
            ctx.ensure(conlim > 0 and s.Acond >= conlim, 'condition estimate %r is within the limit %r', s.Acond, conlim)
            ctx.atmost(conlim, S.cond * frob * np.sqrt(itn) * 1.01 / S.amp, 'limit on the condition number (with respect to the true one)') if itn <= good else None
        if code in (4, 5, 6):
            ctx.ensure(S.cond > 1e10 or code != 6, 'code 6 on a well-conditioned problem')
            ctx.atmost(ar, 1e-11 * S.cond * S.pc * S.amp * nb, 'normal equations residual with code %d' % code)
        for k in range(1, itn):
            if s.resids[k] < btol * nb * (1 - 1e-9):
                ctx.ensure(False, 'did not stop with residual %r after %d iterations' % (s.resids[k], k))
        E = G if kind == 'LSQR' else np.dot(G, G)
        enorm = lambda v: float(np.sqrt(max(np.dot(v, np.dot(E, v)), 0.)))
        # After k iterations, the estimates of the norm and condition number.
        V = S.basis(min(itn, S.n))
        tot = 0.
        for k in range(1, min(itn, good, len(V)) + 1):
            v = V[k - 1].astype(float)
            tot += float(np.linalg.norm(np.dot(S.H, v))) ** 2 + (S.damp ** 2 if kind == 'LSQR' else 0.)
            an, x = np.sqrt(tot), float(np.linalg.norm(its[k]))
            t1, t2 = s.resids[k] / nb - (btol + atol * an * x / nb), s.normal_eqns_resids[k] - atol * an * s.resids[k]
            slack = 1e-6 * (btol + atol * an * x / nb) + 1e-9
            s2 = 1e-6 * atol * an * s.resids[k] + 1e-9 * S.amp * nb
            if k < itn:
                ctx.ensure(t1 > -slack and t2 > -s2, 'did not stop after %d iterations, with residuals %r and %r', k, s.resids[k], s.normal_eqns_resids[k])
            elif k == itn:
                if code not in (1, 4):
                    ctx.ensure(t1 > -slack, 'code %r though the system is solved (residual %r)', code, s.resids[k])
                if code == 2:
                    ctx.ensure(t2 < s2, 'code 2 with normal equations residual %r', s.normal_eqns_resids[k])
                if code == 1:
                    ctx.ensure(t1 < slack, 'code 1 with residual %r', s.resids[k])
                if code in (3, 6, 7, 8):
                    ctx.ensure(t2 > -s2, 'code %r though the least-squares problem is solved', code)
                if conlim and code in (4, 5, 7, 8):
                    ctx.ensure(s.Acond < conlim * (1 + 1e-6), 'the condition limit is not honoured')
    else:
        K = np.eye(S.m) + np.dot(S.H, S.H.T)
        ctx.ensure(code in ((1, 4, 7, 8) if kind == 'CRAIG' else (7, 8)), 'stops with code %r', code)
        duals = [np.linalg.solve(S.Lm, v) for v in (s.iterates_d if kind == 'CRAIG' else s.iterates)]
        rho = [float(np.linalg.norm(S.h - np.dot(K, v))) for v in duals]
        loss = (1e-13 * S.pc * (1 + S.nrm) ** 2 * (S.n + S.m)) * nb
        if kind == 'CRAIG':
            if code == 1:
                ctx.atmost(rho[itn - 1], btol * nb + loss + pad * nb * (itn > good), 'residual with code 1 before the last step')
                ctx.atmost(rho[itn], btol * nb * max(1., S.nrm) + loss + pad * nb * (itn > good), 'residual with code 1')
            for k in range(1, itn + (code in (7, 8))):
                if k <= good:
                    ctx.ensure(rho[k - 1] > btol * nb * (1 - 1e-6) - 1e-8 * nb, 'did not stop with residual %r', rho[k - 1])
            if code == 4:
                ctx.atmost(rho[itn - 1], 1e-10 * (1 + S.nrm) ** 2 * nb, 'residual with code 4')
        E = K if kind == 'CRAIG' else np.dot(K, K)
        enorm = lambda v: float(np.sqrt(max(np.dot(v, np.dot(E, v)), 0.)))
        its = duals
    de = s.dir_errors_d_window if kind == 'CRAIG' else s.dir_errors_window
    ctx.ensure(len(de) == max(0, itn - win), '%d direct errors in %d iterations with window %d', len(de), itn, win)
    if code == 8:
        ctx.ensure(itn > win and de[-1] < etol, 'the direct error is %r with tolerance %r', de[-1] if de else None, etol)
        ctx.label('direct error')
    for j, v in enumerate(de):
        k = win + 1 + j
        if k < itn or code == 7:
            ctx.ensure(not v < etol, 'did not stop with direct error %r after %d iterations', v, k) if (k < itn) else None
        if k <= good and v == v:
            top = enorm(its[k])
            start = enorm(its[0]) if kind == 'CRAIG' else 0.      # The first step of CRAIG is not counted.
            want = enorm(its[k] - its[k - win])
            den = float(np.sqrt(max(top ** 2 - start ** 2, 0.)))
            if den > 1e-4 * top:
                ctx.near(v, want / den, 1e-6 * max(1., want / den) * (top / den) ** 2 + 1e-8 * S.cond * S.pc, 'direct error after %d iterations' % k)
                if want > 1e-6 * top:
                    ctx.label('direct errors compared')
    if itn > 1:
        ctx.nt()
    ctx.label('%s code %d' % (kind, code))


CHECKS['R05'] = Check(s_r05, c_r05, 8000, 140000,
    'stop codes, flags, status texts, limits and tolerances of LSQR, LSMR, CRAIG and CRAIG-MR compared, at every iteration, with the residuals of the stored iterates, operator estimates and windowed direct errors recomputed densely; sizes to 9 (thorough 20), random tolerances, condition limits, iteration limits, windows; non-trivial: more than one iteration',
    ['Condition numbers to 1e4', 'Comparisons per iteration only while a plain bidiagonalisation keeps orthogonality'])
