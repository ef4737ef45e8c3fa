"""K01-K07: CG, CGS, Bi-CGSTAB and TFQMR."""
import numpy as np
from vlib import wl, prob
from vlib.check import Check
from vlib.spec import st_, seeds

CHECKS = {}
LD = np.longdouble
CG_FAMS = ('spd', 'spd', 'dist', 'spd')
NS_FAMS = ('near', 'near', 'normal', 'spd', 'gen', 'indef', 'dist')
CG_PRE = (None, None, 'diag', 'spd', 'eye', 'inv')
NS_PRE = (None, None, 'diag', 'spd', 'gen', 'inv', 'eye')
GUESS = (None, None, 'rand', 'near', 'zero')


def start_norm(S, kind):
    r = S.residual(S.start())
    return S.mdot(r) if kind == 'CG' else float(np.linalg.norm(r))


def tol_kw(c, n0):
    a = c['abs']
    return {'reltol': c['rel'], 'abstol': a * n0 if a < 100 else 1e-8}, max(a * n0 if a < 100 else 1e-8, c['rel'] * n0)


# ---------------------------------------------------------------- K01
def s_k01(tier):
    st = st_()
    big = 10 if tier == 'quick' else 24

    @st.composite
    def case(draw):
        kind = draw(st.sampled_from(prob.SHORT))
        fams = CG_FAMS + ('idist', 'indef', 'psd', 'sdist') if kind == 'CG' else NS_FAMS + ('skew', 'intsym', 'psd')
        d = prob.draw_square(draw, st, fams, big, CG_PRE if kind == 'CG' else NS_PRE, GUESS + ('exact',), conds=(1.05, 1.3, 2., 10., 100., 1e4))
        if kind == 'CG' and d['pre'] == 'inv' and d['fam'] not in ('spd', 'dist'):
            d['pre'] = 'spd'
        return {'kind': kind, 'd': d, 'budget': draw(st.sampled_from((None, None, 0, 1, 2, 3, 4, 5, 6, 7, 9, 12, 20, 40, 80))),
                'rel': draw(st.sampled_from((1e-6, 1e-6, 1e-4, 1e-2, .1, .5, 1e-7, 0.))),
                'abs': draw(st.sampled_from((0., 0., 1e-5, .02, .3, 2., 100.))), 'curv': draw(st.booleans())}
    return case()


def c_k01(c, ctx):
    kind = c['kind']
    S = prob.Sys(c['d'], limit=2000)
    n0 = start_norm(S, kind)
    kw, thr = tol_kw(c, n0)
    s = prob.make(kind, S.op, S.preop, **kw)
    opts = {} if kind != 'CG' else {'check_curvature': c['curv']}
    prob.solve(kind, s, S.b, c['budget'], S.x0, **opts)
    ctx.array(s.x, (S.n,), 'x') if s.converged else None
    ctx.ensure(s.converged in (True, False) and not isinstance(s.converged, float), 'converged is %r', s.converged)
    ctx.ensure(s.bestSolution is not None and np.array_equal(np.asarray(s.x), np.asarray(s.bestSolution)) or not np.all(np.isfinite(s.x)),
               'x and bestSolution differ')
    g = 0 if S.x0 is None else 1
    k = max(S.probe.n - g, 0)
    m2 = 1. if S.M is None or kind != 'CG' else np.linalg.norm(S.M, 2) ** .5
    sl0 = 1e-12 * m2 * (S.nrm * np.linalg.norm(S.start()) + np.linalg.norm(S.b))
    ctx.near(s.residNorm0, n0, sl0, 'residNorm0')
    budget = 2 * S.n if c['budget'] is None else c['budget']
    early = k and S.probe.n < budget
    if not s.converged and kind == 'CG' and s.definite is not True:
        early = False
    if not np.all(np.isfinite(s.x)):
        ctx.label('broke down')
        return
    sl, clean = prob.slack(kind, S, k)
    sl = sl * m2 + sl0
    r = S.residual(s.x)
    true = S.mdot(r) if kind == 'CG' else float(np.linalg.norm(r))
    f = float(np.sqrt(k + 1.)) if kind == 'TFQMR' else 1.
    if s.converged and kind != 'TFQMR':
        ctx.ensure(s.residNorm <= thr * (1 + 1e-9) + sl0, 'converged with reported residual %r above the threshold %r', s.residNorm, thr)
    if not s.converged and thr > 1e-6 * sl0 and not np.isnan(s.residNorm):
        ctx.ensure(f * s.residNorm > thr * (1 - 1e-9) - sl0, 'not converged with reported residual %r below the threshold %r', s.residNorm, thr)
    if not clean or not sl <= .2 * max(thr, true):
        ctx.skip('rounding errors dominate')
    ctx.ensure(not early or s.converged, 'stopped after %d of %d products without convergence or a reason', S.probe.n, budget)
    if s.converged:
        ctx.ensure(true <= thr + sl, 'converged with a residual of %r (reported %r, threshold %r, rounding %r)', true, s.residNorm, thr, sl)
    if kind == 'TFQMR':
        ctx.ensure(true <= f * s.residNorm + sl, 'the residual %r exceeds its bound %r', true, f * s.residNorm)
    else:
        ctx.near(s.residNorm, true, sl, 'residNorm')
    if k > 0:
        ctx.nt()
    ctx.label(kind, 'converged' if s.converged else 'stopped')
    if s.converged and k:
        ctx.label('%s converged after some products' % kind)


CHECKS['K01'] = Check(s_k01, c_k01, 12000, 240000,
    'systems of 13 families (definite, indefinite, singular, skew, nonnormal; sizes to 10, thorough 24; scaled by powers of two) with every kind of preconditioner, guess, budget and tolerance; reported norms and convergence compared with the residual of the returned point in extended precision, allowing 100 times the drift between recurred and true residuals of a textbook double precision run; non-trivial: at least one product and a drift under a fifth of the threshold or the residual',
    ['Runs whose textbook counterpart breaks down, or whose drift is above a fifth of the threshold, only count for the basic consistency of the report'])


# ---------------------------------------------------------------- K02
def s_k02(tier):
    st = st_()
    big = 12 if tier == 'quick' else 40

    @st.composite
    def case(draw):
        kind = draw(st.sampled_from(prob.SHORT))
        d = prob.draw_square(draw, st, CG_FAMS if kind == 'CG' else ('near', 'near', 'normal', 'spd', 'gen'), big,
                             CG_PRE if kind == 'CG' else NS_PRE, GUESS, conds=(1.1, 2., 10., 30., 100.))
        return {'kind': kind, 'd': d, 'exact': draw(st.booleans()), 'rel': draw(st.sampled_from((1e-6, 1e-6, 1e-3, 1e-8)))}
    return case()


def c_k02(c, ctx):
    kind = c['kind']
    S = prob.Sys(c['d'], limit=5000)
    n0 = start_norm(S, kind)
    thr = c['rel'] * n0
    n = S.n
    xs, rs, clean = prob.reference(kind, S, 2 * n)
    if kind == 'TFQMR':
        pts, res, _ = prob.ref_cgs(S, n)
        norms = [t * (k + 1) ** .5 for k, t in enumerate(prob.smooth(pts, res)[1])]
    elif kind == 'CG':
        norms = [S.mdot(r) for r in rs]
    else:
        norms = [float(np.linalg.norm(r)) for r in rs]
    step = 2 if kind == 'CGS' else 1
    g = 0 if S.x0 is None else 1
    need = None
    for k in range(0, len(norms), step):
        if k <= 2 * n - g and norms[k] <= 1e-2 * thr:
            need = k
            break
    if need is None:
        ctx.skip('the method does not converge in time')
    m2 = 1. if S.M is None or kind != 'CG' else np.linalg.norm(S.M, 2) ** .5
    sl, _ = prob.slack(kind, S, need)
    sl *= m2
    if not sl <= .1 * thr:
        ctx.skip('rounding errors dominate')
    s = prob.make(kind, S.op, S.preop, reltol=c['rel'], abstol=0.)
    prob.solve(kind, s, S.b, need + g if c['exact'] else None, S.x0)
    ctx.ensure(s.converged is True or s.converged == True, 'no convergence: residual %r, threshold %r, after %r products (a textbook run needs %d)',
               s.residNorm, thr, S.probe.n, need + g)
    ctx.atmost(S.probe.n, need + g, 'number of products')
    x = np.linalg.solve(S.A, S.b)
    ctx.array(s.x, (n,), 'x')
    r = S.residual(s.x)
    true = S.mdot(r) if kind == 'CG' else float(np.linalg.norm(r))
    ctx.atmost(true, thr + sl, 'residual')
    inv = np.linalg.norm(np.linalg.inv(S.A), 2)
    if kind == 'CG' and S.M is not None:
        inv *= np.linalg.norm(np.linalg.inv(S.M), 2) ** .5
    ctx.close(s.x, x, inv * (thr + sl) + 1e-13 * inv * S.nrm * np.linalg.norm(x) * n, 'x')
    if need > 1:
        ctx.nt()
    ctx.label(kind, 'precon %s' % c['d']['pre'], 'guess %s' % c['d']['guess'])
    if S.M is not None and c['d']['guess']:
        ctx.label('precon and guess')


CHECKS['K02'] = Check(s_k02, c_k02, 9000, 150000,
    'well-conditioned systems (SPD for CG; nonsymmetric near the identity, normal, general for the others; sizes to 12, thorough 40) with preconditioners and guesses, run with the default budget or exactly the one a textbook run needs to reach a hundredth of the tolerance; non-trivial: more than one product needed',
    ['Systems on which a textbook run does not converge in 2n products are left out'])


# ---------------------------------------------------------------- K03
def arnoldi(mul, v, k):
    """Orthonormal bases of the Krylov spaces of dimension up to k, extended precision; may end early at an invariant space."""
    nv = np.sqrt(np.dot(v, v))
    V = [v / nv]
    while len(V) < k:
        w = mul(V[-1])
        n0 = np.sqrt(np.dot(w, w))
        for _ in range(2):
            for u in V:
                w = w - np.dot(u, w) * u
        nw = np.sqrt(np.dot(w, w))
        if not nw > 1e-13 * n0:
            break
        V.append(w / nw)
    return V


def s_k03(tier):
    st = st_()

    @st.composite
    def case(draw):
        d = prob.draw_square(draw, st, ('spd', 'spd', 'dist', 'diagpos'), 7 if tier == 'quick' else 14, CG_PRE, GUESS, conds=(2., 5., 10., 30.))
        d['fam'] = 'spd' if d['fam'] == 'diagpos' else d['fam']
        return {'d': d, 'rel': draw(st.sampled_from((1e-6, 1e-2, 1e-8))), 'budget': draw(st.sampled_from((None, None, 3, 5)))}
    return case()


def c_k03(c, ctx):
    S = prob.Sys(c['d'], limit=1000)
    n = S.n
    s = prob.make('CG', S.op, S.preop, reltol=c['rel'], abstol=0.)
    prob.solve('CG', s, S.b, c['budget'], S.x0, store_iterates=True)
    its = s.iterates
    g = 0 if S.x0 is None else 1
    ctx.ensure(len(its) == S.probe.n - g + 1, '%d iterates stored for %d products', len(its), S.probe.n)
    X, _, norms = prob.ref_cg(S, max(len(its) - 1, n))
    XL, _, _ = prob.ref_cg(S, len(its) - 1, LD)
    A, b, x0 = S.A.astype(LD), S.b.astype(LD), S.start().astype(LD)
    M = None if S.M is None else S.M.astype(LD)
    r0 = b - np.dot(A, x0)
    pre = (lambda v: v) if M is None else (lambda v: np.dot(M, v))
    V = arnoldi(lambda v: pre(np.dot(A, v)), pre(r0), max(len(its) - 1, 1))
    xs = np.linalg.solve(S.A, S.b)
    base = np.linalg.norm(its[0]) + np.linalg.norm(xs)
    en = []
    grade = n
    if c['d']['fam'] == 'dist' and c['d']['pre'] in (None, 'eye'):
        grade = min(n, c['d']['dist'])
    kappa = np.linalg.cond(S.A)
    for k, x in enumerate(its):
        ctx.array(x, (n,), 'iterate %d' % k)
        e = x.astype(LD) - XL[min(len(XL) - 1, len(its) + 5)]
        if k == 0:
            ctx.close(x, S.start(), 0., 'iterate 0')
        else:
            W = np.array(V[:k]).T
            G = np.dot(W.T, np.dot(A, W)).astype(float)
            h = np.dot(W.T, r0).astype(float)
            want = x0 + np.dot(W, np.linalg.solve(G, h).astype(LD))
            drift = max(float(np.max(np.abs(X[j] - XL[j]))) for j in range(min(k + 1, len(X), len(XL)))) if len(X) else 0.
            tol = 1e3 * drift + 1e-12 * base * kappa
            if tol > 1e-5 * base or k >= len(X):
                ctx.label('drift')
                break
            ctx.close(x, want.astype(float), tol, 'iterate %d (the point of minimal energy error)' % k)
            if k >= 2:
                ctx.nt()
        d = x - xs
        en.append(float(np.sqrt(max(np.dot(d, np.dot(S.A, d)), 0.))))
    floor = 1e-12 * base * np.sqrt(S.nrm) * kappa
    for i in range(1, len(en)):
        ctx.ensure(en[i] <= en[i - 1] * (1 + 1e-9) + floor, 'the energy error grows from %r to %r at iteration %d', en[i - 1], en[i], i)
    sure = n <= 14 or (len(norms) > grade and norms[grade] < .01 * c['rel'] * norms[0])     # Long runs lose finite termination.
    if sure and (c['budget'] is None or c['budget'] >= grade + g):
        ctx.ensure(s.converged, 'no convergence in %d iterations', len(its) - 1)
        ctx.ensure(len(its) - 1 <= grade, '%d iterations instead of at most %d', len(its) - 1, grade)
    ctx.close(its[-1], s.x, 0., 'the last iterate')
    ctx.label('n=%d' % n, 'precon %s' % c['d']['pre'], 'family %s' % c['d']['fam'], '%d iterations' % (len(its) - 1))


CHECKS['K03'] = Check(s_k03, c_k03, 5000, 80000,
    'SPD systems (sizes to 7, thorough 14, condition numbers to 30, also with few distinct eigenvalues) with preconditioners and guesses; every stored iterate compared with the energy minimiser over the explicitly built Krylov space (extended precision Arnoldi); non-trivial: an iterate beyond the first compared',
    ['Tolerance: a thousand times the difference between double and extended precision textbook CG'])


# ---------------------------------------------------------------- K04
def s_k04(tier):
    st = st_()

    @st.composite
    def case(draw):
        d = prob.draw_square(draw, st, ('indef', 'indef', 'idist', 'psd', 'sing', 'intsym', 'diagint', 'skew', 'spd', 'dist'),
                             8 if tier == 'quick' else 16, (None, None, 'diag', 'spd', 'eye'), GUESS, conds=(2., 10., 100.))
        return {'d': d, 'what': draw(st.sampled_from(('curv', 'curv', 'curv', 'off', 'symm'))),
                'rel': draw(st.sampled_from((1e-6, 1e-2, 1e-9))), 'budget': draw(st.sampled_from((None, None, 1, 2, 4))),
                'mix': draw(st.sampled_from((0., 0., .5, 1.))), 'again': draw(st.booleans())}
    return case()


def c_k04(c, ctx):
    d = dict(c['d'])
    if c['what'] == 'symm':
        return c_k04_symm(c, d, ctx)
    S = prob.Sys(d, limit=2000, keep=True)
    n = S.n
    g = 0 if S.x0 is None else 1
    s = prob.make('CG', S.op, S.preop, reltol=c['rel'], abstol=0.)
    if c['again']:        # A previous solve must not leave its verdict behind.
        T = prob.Sys(dict(d, fam='indef' if d['fam'] == 'spd' else 'spd', n=n), limit=2000)
        keep = s.op
        s.op = T.op
        prob.solve('CG', s, T.b, c['budget'])
        s.op = keep
    kw = {'check_curvature': False} if c['what'] == 'off' else ({} if d['s'] % 2 else {'check_curvature': True})
    prob.solve('CG', s, S.b, c['budget'], S.x0, **kw)
    dirs = S.probe.log[g:]
    if c['what'] == 'off':
        ctx.ensure(s.definite is True or s.definite is None, 'definite is %r without the curvature check', s.definite)
        ctx.ensure(s.infiniteDescent is None, 'a direction is reported without the curvature check')
        budget = 2 * n if c['budget'] is None else c['budget']
        if np.all(np.isfinite(s.x)):
            ctx.ensure(s.converged or S.probe.n >= budget, 'stopped after %d products', S.probe.n)
        if d['fam'] in ('spd', 'dist'):
            t = prob.make('CG', S.op, S.preop, reltol=c['rel'], abstol=0.)
            prob.solve('CG', t, S.b, c['budget'], S.x0)
            ctx.close(s.x, t.x, 1e-12 * max(np.abs(t.x).max(), 1e-300), 'x with and without the curvature check')
            if len(dirs) > 1:
                ctx.nt()
        ctx.label('off')
        return
    exact = d['fam'] in ('intsym', 'diagint', 'skew') and S.M is None and not g
    first = None
    for i, p in enumerate(dirs):
        v = float(np.dot(p, np.dot(S.A, p)))
        scale = S.nrm * float(np.dot(p, p))
        if abs(v) <= 1e-11 * scale and not (exact and i == 0):
            ctx.skip('a curvature at rounding level')
        if v <= 0:
            first = i
            break
    if first is None:
        ctx.ensure(s.definite is True, 'definite is %r although every curvature met is positive', s.definite)
        ctx.ensure(s.infiniteDescent is None, 'a direction of nonpositive curvature is reported although none was met')
        budget = 2 * n if c['budget'] is None else c['budget']
        if np.all(np.isfinite(s.x)):
            ctx.ensure(s.converged or S.probe.n >= budget, 'stopped after %d products', S.probe.n)
        ctx.label('all positive')
        if d['fam'] in ('spd', 'dist') and len(dirs) > 1:
            ctx.nt()
        return
    ctx.ensure(d['fam'] not in ('spd', 'dist'), 'a nonpositive curvature on a definite operator')
    ctx.ensure(s.definite is False, 'definite is %r after a curvature of %r', s.definite, v)
    ctx.ensure(not s.converged, 'convergence is claimed')
    ctx.ensure(first == len(dirs) - 1, 'goes on after a direction of nonpositive curvature')
    ctx.ensure(s.nMatvec == S.probe.n, '%r products reported, %d performed', s.nMatvec, S.probe.n)
    q = s.infiniteDescent
    ctx.array(q, (n,), 'infiniteDescent')
    q = np.array(q, copy=True)
    ctx.ensure(np.any(q), 'the direction is zero')
    w = float(np.dot(q, np.dot(S.A, q)))
    ctx.ensure(w <= 1e-11 * S.nrm * float(np.dot(q, q)) and (v >= -1e-9 * scale or w < 0), 'the direction has curvature %r', w)
    x = np.array(s.x, copy=True)
    if first == 0:
        want = S.start()
    else:
        t = prob.make('CG', S.op, S.preop, reltol=c['rel'], abstol=0.)
        prob.solve('CG', t, S.b, S.probe.n - 1, S.x0)
        want = t.x
    ctx.close(x, want, 1e-12 * max(np.abs(want).max(), 1e-300), 'the point when the direction was met')
    # A direction of descent: the quadratic decreases (weakly) along +-d without bound.
    slope = float(np.dot(S.residual(x), q))
    ctx.ensure(slope >= -1e-6 * np.linalg.norm(S.residual(x)) * np.linalg.norm(q), 'the direction is one of ascent')
    ctx.nt()
    ctx.label('nonpositive at product %d' % min(first + 1, 4), 'precon' if S.M is not None else 'plain')


def c_k04_symm(c, d, ctx):
    n = d['n']
    S = prob.Sys(dict(d, fam='spd'), limit=3000)
    r = wl.rng(d['s'] + 7)
    A = S.A
    if c['mix'] and n > 1:
        G = r.randn(n, n)
        A = A + c['mix'] * S.nrm * (G - G.T) / np.linalg.norm(G - G.T)
    P = prob.Probe(A, 3000)
    s = prob.make('CG', P.op, S.preop, reltol=c['rel'], abstol=0.)
    if c['mix'] and n > 1:
        prob.solve('CG', s, S.b, c['budget'], S.x0, check_symmetric=True)
        ctx.ensure(s.x is None and s.bestSolution is None, 'a solution was computed for an unsymmetric operator')
        ctx.ensure(not s.converged, 'convergence is claimed')
        ctx.nt()
        ctx.label('refused')
        return
    prob.solve('CG', s, S.b, c['budget'], S.x0, check_symmetric=True)
    ctx.ensure(s.x is not None, 'a symmetric operator was refused')
    t = prob.make('CG', S.op, S.preop, reltol=c['rel'], abstol=0.)
    prob.solve('CG', t, S.b, c['budget'], S.x0)
    ctx.close(s.x, t.x, 1e-12 * max(np.abs(t.x).max(), 1e-300), 'x with the symmetry check')
    ctx.ensure(s.converged == t.converged and s.nMatvec == t.nMatvec, 'the symmetry check changes the run')
    ctx.label('accepted')
    if t.nMatvec > 1:
        ctx.nt()


CHECKS['K04'] = Check(s_k04, c_k04, 12000, 200000,
    'definite, indefinite, semidefinite, singular, integer and skew operators with preconditioners, guesses, budgets and a previous solve by the same object; the curvatures of the directions the solver multiplied are recomputed and decide what it must report; non-trivial: a nonpositive curvature met, a definite system solved in more than one product, or an unsymmetric operator',
    ['Runs that meet a curvature of the order of rounding errors are left out'])


# ---------------------------------------------------------------- K05
def s_k05(tier):
    st = st_()

    @st.composite
    def case(draw):
        kind = draw(st.sampled_from(prob.ALL + prob.SHORT))
        fams = ('spd', 'indef', 'intsym', 'diagint', 'psd') if kind in prob.SYMM + ('CG',) else ('near', 'gen', 'spd', 'skew', 'intsym', 'psd', 'normal', 'diagint')
        pre = (None, None, 'spd', 'diag') if kind not in prob.LLS else (None,)
        d = prob.draw_square(draw, st, fams, 9 if tier == 'quick' else 20, pre, GUESS if kind in prob.SHORT else (None,))
        c = {'kind': kind, 'd': d, 'lo': draw(st.sampled_from((0, 1, 1, 2, 3, 4, 5, 6, 7, 8))), 'more': draw(st.integers(1, 8)),
             'rel': draw(st.sampled_from((1e-6, 1e-12, 0., 1e-2))), 'default': draw(st.booleans()),
             'curv': draw(st.booleans())}
        if draw(st.integers(0, 7)) == 7:
            # Runs of many products.
            d['n'] += draw(st.integers(10, 40))
            d['cond'] = max(d['cond'], 30.)
            c.update(lo=draw(st.integers(20, 120)), rel=draw(st.sampled_from((1e-12, 0.))))
        return c
    return case()


def k05_run(c, budget):
    kind = c['kind']
    S = prob.Sys(c['d'], limit=4000, keep=True, flag=kind not in prob.LLS)
    kw = {}
    if kind in prob.SHORT:
        kw = {'reltol': c['rel'], 'abstol': 0.}
    s = prob.make(kind, S.op, S.preop, **kw)
    opts = {}
    if kind == 'CG':
        opts['check_curvature'] = c['curv']
    elif kind == 'MINRES' or kind == 'SYMMLQ':
        opts['rtol'] = max(c['rel'], 1e-16)
    else:
        if kind in prob.LLS:
            opts = {'atol': c['rel'], 'btol': c['rel'], 'conlim': 0.}
            if kind == 'CRAIGMR':
                opts = {}
    prob.solve(kind, s, S.b, budget, S.x0, **opts)
    return S, s


def c_k05(c, ctx):
    kind = c['kind']
    lo = c['lo']
    if kind in prob.LLS + prob.SYMM:
        lo = max(lo, 1)
    if c['default']:
        S, s = k05_run(c, None)
        cap = {'MINRES': 5 * S.n, 'SYMMLQ': 2 * S.n + 2}.get(kind, 2 * S.n if kind in prob.SHORT else 3 * S.n)
        ctx.atmost(S.probe.n, cap + (1 if kind in prob.LLS + prob.SYMM + ('CGS',) else 0), 'number of products with the default budget')
        if kind in prob.SHORT:
            ctx.ensure(s.nMatvec == S.probe.n, '%s reports %r products, %d were performed', kind, s.nMatvec, S.probe.n)
        if S.probe.n > 1:
            ctx.nt()
        ctx.label(kind, 'default budget')
        return
    out = []
    for budget in (lo, lo + c['more']):
        S, s = k05_run(c, budget)
        n, t = S.probe.n, S.probe.t
        what = 'number of products of %s with a budget of %d' % (kind, budget)
        if kind in prob.SHORT:
            extra = 1 if kind == 'CGS' else 0
            ctx.atmost(n, max(budget + extra, 0 if S.x0 is None else 1), what)
            ctx.ensure(t == 0, 'products with the transpose')
            ctx.ensure(s.nMatvec == n, '%s reports %r products, %d were performed', kind, s.nMatvec, n)
        elif kind == 'MINRES':
            ctx.atmost(n + t, budget, what)
            ctx.atmost(s.itn, budget, 'itn')
        elif kind == 'SYMMLQ':
            ctx.atmost(n + t, budget + 1, what)
        else:
            ctx.atmost(n, budget, what)
            ctx.atmost(t, budget + 1, what + ' (transpose)')
            ctx.atmost(s.itn, budget, 'itn')
            ctx.ensure(s.itn == n, '%s reports %r iterations, %d were performed', kind, s.itn, n)
        out.append((S, s, list(S.probe.log)))
    a, b = out[0][2], out[1][2]
    if kind == 'SYMMLQ':
        a = a[:-1]
    if kind == 'CGS' and len(a) % 2 == (1 if out[0][0].x0 is None else 0):
        raise wl.Fail('CGS stopped after a half step')
    ctx.ensure(len(a) <= len(b), 'fewer products (%d instead of %d) with a larger budget', len(b), len(a))
    for i, (u, v) in enumerate(zip(a, b)):
        if not (np.all(np.isfinite(u)) and np.all(np.isfinite(v))):
            break
        ctx.close(v, u, 1e-13 * max(np.abs(u).max(), 1e-300), 'vector %d multiplied with the larger budget' % i)
    s = out[0][1]
    done = getattr(s, 'converged', None) if kind not in prob.LLS else None
    if done and kind in prob.SHORT:
        ctx.ensure(np.array_equal(s.x, out[1][1].x), 'a larger budget changes a converged solution')
    if len(a) > 1:
        ctx.nt()
    ctx.label(kind)


CHECKS['K05'] = Check(s_k05, c_k05, 12000, 200000,
    'all ten solvers on systems of eight families, breakdowns included (skew, integer, singular), each run with two budgets or the default one on an operator that counts and records; the counts are compared with the budget and the report, and the vectors multiplied with the smaller budget must start those with the larger one; non-trivial: more than one product',
    ['CGS may end the iteration it started, SYMMLQ evaluates a final residual; the least-squares family may use one more transposed product'])


# ---------------------------------------------------------------- K06
def s_k06(tier):
    st = st_()

    @st.composite
    def case(draw):
        kind = draw(st.sampled_from(prob.SHORT))
        d = prob.draw_square(draw, st, CG_FAMS if kind == 'CG' else ('near', 'near', 'normal', 'spd', 'gen'),
                             8 if tier == 'quick' else 16, CG_PRE if kind == 'CG' else NS_PRE, ('rand', 'rand', 'near', 'zero'), conds=(2., 10., 30.))
        return {'kind': kind, 'd': d, 'exact': draw(st.sampled_from((False, False, False, True))), 'budget': draw(st.sampled_from((None, 1, 2, 3, 4, 6))),
                'rel': draw(st.sampled_from((1e-6, 1e-3, 1e-8))), 'dt': draw(st.sampled_from(('f8', 'f8', 'i8', 'f4')))}
    return case()


def c_k06(c, ctx):
    kind, d = c['kind'], dict(c['d'])
    if c['exact']:
        r = wl.rng(d['s'])
        n = d['n']
        A = wl.ints(r, (n, n), 4).astype(float)
        A = np.dot(A, A.T) + np.eye(n) if kind == 'CG' else A + 6 * np.eye(n)
        A = A * 2. ** d['ea']
        x0 = (wl.ints(r, n, 6) * (1 if c['dt'] == 'i8' else .25)).astype(wl.DT[c['dt']])
        P = prob.Probe(A, 1000)
        keep = x0.copy()
        pre = wl.L.DiagonalOperator(r.uniform(.5, 2., n)) if d['pre'] else None
        s = prob.make(kind, P.op, pre, **({} if d['s'] % 2 else {'abstol': 0., 'reltol': 1e-8}))
        prob.solve(kind, s, np.dot(A, x0.astype(float)), c['budget'], x0)
        ctx.ensure(np.array_equal(keep, x0) and x0.dtype == keep.dtype, 'the guess was changed')
        ctx.ensure(s.converged, 'no convergence from an exact solution')
        ctx.ensure(P.n <= 1, '%d products from an exact solution', P.n)
        ctx.ensure(s.nMatvec == P.n, '%r products reported, %d performed', s.nMatvec, P.n)
        ctx.close(s.x, x0.astype(float), 0., 'x')
        ctx.near(s.residNorm, 0., 0., 'residNorm')
        s.x[:] = 77.
        ctx.ensure(np.array_equal(keep, x0), 'the solution shares memory with the guess')
        if np.any(keep):
            ctx.nt()
        ctx.label(kind, 'exact guess')
        return
    S = prob.Sys(d, limit=4000)
    n = S.n
    g = S.x0.copy()
    budget = 2 * n - 1 if c['budget'] is None else c['budget']
    # Where a textbook run stops must not be a matter of rounding.
    n0 = start_norm(S, kind)
    thr = c['rel'] * n0
    if kind == 'TFQMR':
        pts, res, _ = prob.ref_cgs(S, n)
        norms = [t * (k + 1) ** .5 for k, t in enumerate(prob.smooth(pts, res)[1])]
    else:
        xs, rs, _ = prob.reference(kind, S, budget)
        norms = [S.mdot(r) if kind == 'CG' else float(np.linalg.norm(r)) for r in rs]
    for v in norms[:budget + 1]:
        if .5 * thr < v < 2 * thr:
            ctx.skip('stops at rounding level')
        if v <= thr:
            break
    # Sensitivity of the run to rounding.
    last = budget
    for k, v in enumerate(norms):
        if v <= thr:
            last = k
            break
    f = {'CG': prob.ref_cg, 'CGS': prob.ref_cgs, 'TFQMR': prob.ref_cgs, 'BICGSTAB': prob.ref_bicgstab}[kind]
    steps = last if kind == 'CG' else (last + 2) // 2
    p1, p2 = f(S, steps)[0], f(S, steps, LD)[0]
    m = min(len(p1), len(p2))
    drift = max(float(np.max(np.abs(p1[j] - p2[j]))) for j in range(m))
    res0 = S.residual(g)
    size = float(np.linalg.norm(g)) + max(float(np.linalg.norm(p)) for p in p1) + 1e-300
    # rounding in b - A g itself
    lost = 1e-15 * (S.nrm * np.linalg.norm(g) + np.linalg.norm(S.b)) * np.linalg.norm(np.linalg.inv(S.A), 2)
    tol = 1e3 * drift + 1e-12 * size + 100 * lost
    if tol > 1e-4 * size or len(p1) < len(p2):
        ctx.skip('sensitive run')
    s = prob.make(kind, S.op, S.preop, reltol=c['rel'], abstol=0.)
    prob.solve(kind, s, S.b, budget + 1, S.x0)
    n1 = S.probe.n
    ctx.ensure(np.array_equal(g, S.x0), 'the guess was changed')
    b2 = S.b - np.dot(S.A, g)
    t = prob.make(kind, S.op, S.preop, reltol=c['rel'], abstol=0.)
    prob.solve(kind, t, b2, budget)
    n2 = S.probe.n - n1
    ctx.array(t.x, (n,), 'x of the shifted system')
    ctx.ensure(n1 == n2 + 1, '%d products from a guess, %d for the shifted problem', n1, n2)
    ctx.ensure(bool(s.converged) == bool(t.converged), 'convergence differs from that of the shifted problem')
    ctx.close(s.x, g + t.x, tol, 'x compared with the guess plus the solution of the shifted problem')
    ctx.near(s.residNorm0, t.residNorm0, 1e-11 * t.residNorm0 + 1e-300, 'residNorm0 compared with that of the shifted problem') if t.residNorm0 > 1e-6 * np.linalg.norm(S.b) and S.M is None else None
    keep = s.x.copy()
    S.x0[:] = 5.
    ctx.ensure(np.array_equal(keep, s.x), 'the solution shares memory with the guess')
    if n2 > 1:
        ctx.nt()
    ctx.label(kind, 'guess %s' % d['guess'], 'precon %s' % d['pre'])


CHECKS['K06'] = Check(s_k06, c_k06, 8000, 120000,
    'a solve from a random, close or zero guess against the solve of the shifted system with one product less, over families, preconditioners and budgets, plus integer systems started from an exact solution; non-trivial: more than one product, or a nonzero exact guess',
    ['Runs sensitive to rounding (double against extended precision textbook runs) or stopping within a factor two of the threshold are left out'])


def lengthen(draw, st, c, fams, lo, hi, rels=None):
    """One case in seven is a run of many products."""
    if draw(st.integers(0, 6)) == 6:
        c['d'].update(n=draw(st.integers(20, 45)), fam=draw(st.sampled_from(fams)), cond=draw(st.sampled_from((10., 30., 100., 300.))))
        c['budget'] = draw(st.integers(lo, hi))
        if rels:
            c.update(rel=draw(st.sampled_from(rels)), abs=0.)
    return c


# ---------------------------------------------------------------- K07
def bicg(S, steps, dt):
    """Coefficients of bi-conjugate gradients on A M with the initial residual as shadow, and the Krylov residuals."""
    A = S.A.astype(dt)
    M = None if S.M is None else S.M.astype(dt)
    mul = (lambda v: np.dot(A, v)) if M is None else (lambda v: np.dot(A, np.dot(M, v)))
    tmul = (lambda v: np.dot(A.T, v)) if M is None else (lambda v: np.dot(M.T, np.dot(A.T, v)))
    r = S.b.astype(dt) - np.dot(A, S.start().astype(dt))
    q = r.copy()
    p, pt = r.copy(), q.copy()
    rho = np.dot(q, r)
    al, be = [], []
    n0 = np.sqrt(np.dot(r, r))
    for _ in range(steps):
        Ap = mul(p)
        c = np.dot(pt, Ap)
        lim = 1e-7 * np.sqrt(np.dot(pt, pt) * np.dot(Ap, Ap))
        if not abs(c) > lim:
            break
        a = rho / c
        al.append(a)
        r = r - a * Ap
        q = q - a * tmul(pt)
        new = np.dot(q, r)
        if not abs(new) > 1e-7 * np.sqrt(np.dot(r, r) * np.dot(q, q)) or np.sqrt(np.dot(r, r)) < 1e-9 * n0:
            break
        be.append(new / rho)
        p = r + be[-1] * p
        pt = q + be[-1] * pt
        rho = new
    return al, be, mul


def phi(al, be, mul, k, v):
    """phi_k(A) v for the residual polynomials phi."""
    f, p = v, v
    for j in range(k):
        f = f - al[j] * mul(p)
        if j + 1 < k:
            p = f + be[j] * p
    return f


def expected(kind, S, products, dt):
    """Residuals of the iterates after 0, 1, 2, ... products; for TFQMR also the quasi-residual norms."""
    steps = (products + 1) // 2
    al, be, mul = bicg(S, steps, dt)
    r0 = S.b.astype(dt) - np.dot(S.A.astype(dt), S.start().astype(dt))
    out, taus = [r0], []
    psis = []

    def psi(v):
        for om in psis:
            v = v - om * mul(v)
        return v
    for k in range(len(al)):
        if k > len(be):
            break
        hi = phi(al, be, mul, k + 1, r0)
        if kind == 'BICGSTAB':
            s = psi(hi)
            out.append(s)
            t = mul(s)
            tt = np.dot(t, t)
            if not tt > 0:
                break
            om = np.dot(t, s) / tt
            psis.append(om)
            out.append(s - om * t)
            if not abs(om) * np.sqrt(tt) > 1e-6 * np.sqrt(np.dot(s, s)):
                break
        else:
            out.append(phi(al, be, mul, k, hi))
            out.append(phi(al, be, mul, k + 1, hi))
    if kind == 'TFQMR':
        sm = []
        W, R = 0., 0.
        for r in out:
            if not np.sqrt(np.dot(r, r)) > 1e-10 * np.sqrt(np.dot(r0, r0)):
                break
            w = 1 / np.dot(r, r)
            W, R = W + w, R + w * r
            sm.append(R / W)
            taus.append(float(1 / np.sqrt(W)))
        out = sm
    return [np.asarray(v) for v in out], taus


def s_k07(tier):
    st = st_()

    @st.composite
    def case(draw):
        kind = draw(st.sampled_from(prob.SHORT[1:]))
        d = prob.draw_square(draw, st, ('near', 'near', 'normal', 'gen', 'spd', 'indef'), 7 if tier == 'quick' else 14, NS_PRE, GUESS[1:], conds=(2., 10., 30.), nmin=2)
        c = {'kind': kind, 'd': d, 'budget': draw(st.integers(1, 8 if tier == 'quick' else 14))}
        return lengthen(draw, st, c, ('normal', 'spd', 'gen', 'normal'), 10, 45)
    return case()


def c_k07(c, ctx):
    kind = c['kind']
    S = prob.Sys(c['d'], limit=1000)
    g = 0 if S.x0 is None else 1
    k = c['budget']
    if kind == 'CGS':
        k += k % 2
    want, taus = expected(kind, S, k, LD)
    rough, _ = expected(kind, S, k, float)
    if len(want) <= k or len(rough) <= k:
        ctx.skip('ends or breaks down earlier')
    n0 = float(np.linalg.norm(want[0].astype(float)))
    drift = max(float(np.linalg.norm((u - v).astype(float))) for u, v in zip(want[:k + 1], rough))
    big = max(float(np.linalg.norm(v.astype(float))) for v in want[:k + 1])
    sl, clean = prob.slack(kind, S, k)
    f = prob.ref_bicgstab if kind == 'BICGSTAB' else prob.ref_cgs
    t64, t80 = f(S, (k + 1) // 2)[1], f(S, (k + 1) // 2, LD)[1]
    drift = max([drift] + [float(np.linalg.norm((u - v).astype(float))) for u, v in zip(t64[:k + 1], t80)])
    tol = 1e4 * drift + 10 * sl + 1e-11 * big
    if not clean or not tol < 1e-3 * n0:
        ctx.skip('sensitive run')
    end = float(np.linalg.norm(want[k].astype(float)))
    if min(float(np.linalg.norm(v.astype(float))) for v in want[:k]) < 10 * tol:
        ctx.skip('ends or breaks down earlier')
    s = prob.make(kind, S.op, S.preop, reltol=0., abstol=0.)
    prob.solve(kind, s, S.b, c['budget'] + g, S.x0)
    ctx.ensure(S.probe.n == k + g, '%d products instead of %d', S.probe.n, k + g)
    ctx.array(s.x, (S.n,), 'x')
    ctx.close(S.residual(s.x), want[k].astype(float), tol, 'residual of the %s point after %d products' % (kind, k))
    if kind == 'TFQMR':
        ctx.near(s.residNorm, taus[k], tol + 1e-9 * taus[k], 'quasi-residual norm after %d products' % k)
    else:
        ctx.near(s.residNorm, end, tol, 'residNorm after %d products' % k)
    if k > 1 and end > 100 * tol:
        ctx.nt()
    ctx.label('%s after %s products' % (kind, k if k < 9 else '9 to 19' if k < 20 else '20 to 29' if k < 30 else '30 or more'))


CHECKS['K07'] = Check(s_k07, c_k07, 8000, 120000,
    'nonsymmetric and symmetric systems (sizes to 7, thorough 14) with right preconditioners and guesses, stopped after each number of products; the residual of the returned point is compared with the product of polynomials built from bi-conjugate gradient coefficients in extended precision; non-trivial: beyond the first product and a residual a hundred times the tolerance',
    ['Tolerance: 1e4 times the difference between double and extended precision of that construction and of a textbook run, plus the drift of the latter; near-breakdowns are left out'])


# ---------------------------------------------------------------- K08
def s_k08(tier):
    st = st_()

    @st.composite
    def case(draw):
        kind = draw(st.sampled_from(prob.SHORT))
        d = prob.draw_square(draw, st, CG_FAMS if kind == 'CG' else ('near', 'near', 'normal', 'spd', 'gen', 'dist'), 9 if tier == 'quick' else 18,
                             CG_PRE if kind == 'CG' else NS_PRE, ('rand', 'near', 'zero', None, None), conds=(1.3, 2., 5., 10., 30.))
        d['n'] = max(d['n'], draw(st.sampled_from((1, 3, 5))))
        c = {'kind': kind, 'd': d, 'budget': draw(st.sampled_from((None, None, 60, 60, 2, 3, 4, 5, 6, 7, 8))),
             'rel': draw(st.sampled_from((1e-6, 1e-4, 1e-3, 1e-2, .03, .1, .3, 0.))), 'abs': draw(st.sampled_from((0., 0., 1e-3, 1e-2, .05, .2, .7, 100.))),
             'curv': draw(st.booleans())}
        return lengthen(draw, st, c, CG_FAMS if kind == 'CG' else ('normal', 'spd', 'gen', 'spd'), 100, 300, (1e-6, 1e-4, 1e-3, 1e-5))
    return case()


def c_k08(c, ctx):
    kind = c['kind']
    S = prob.Sys(c['d'], limit=2000)
    n0 = start_norm(S, kind)
    kw, thr = tol_kw(c, n0)
    s = prob.make(kind, S.op, S.preop, **kw)
    prob.solve(kind, s, S.b, c['budget'], S.x0, **({'check_curvature': c['curv']} if kind == 'CG' else {}))
    g = 0 if S.x0 is None else 1
    k = S.probe.n - g
    ctx.ensure(k >= 0, 'no product for the guess')
    limit = (2 * S.n if c['budget'] is None else c['budget']) - g
    top = max(k, min(limit, 3 * S.n)) + 2
    runs = []
    for dt in (LD, float):
        if kind == 'CG':
            runs.append(prob.ref_cg(S, top, dt)[2])
            continue
        pts, res, _ = (prob.ref_bicgstab if kind == 'BICGSTAB' else prob.ref_cgs)(S, top // 2 + 1, dt)
        norms = [float(np.linalg.norm(r.astype(float))) for r in res]
        if kind == 'TFQMR':
            taus = prob.smooth(pts, res)[1]
            norms = [float(t * np.sqrt(j + 1.)) if j else norms[0] for j, t in enumerate(taus)]
        runs.append(norms)
    norms, drift = runs[0], 0.
    for j, v in enumerate(norms):
        if kind == 'CGS' and j % 2:
            continue
        if not np.isfinite(v) or v > 1e6 * n0:
            ctx.skip('erratic')
        if j >= len(runs[1]):
            break
        drift = max(drift, abs(v - runs[1][j]))
        tol = 1e3 * drift + 1e-9 * n0 + 1e-6 * v
        if k == j and v > thr - tol:
            if j >= limit:
                ctx.ensure(not s.converged or v <= thr + tol, 'convergence is claimed with residual %r and threshold %r', v, thr)
                ctx.label('limit')
                if j:
                    ctx.nt()
                return
            if v > thr + tol:
                raise wl.Fail('%s stops after %d products (without the one for the guess) with residual %r, threshold %r and %d products left' % (kind, j, v, thr, limit - j))
            ctx.skip('rounding decides')
        if v <= thr - tol:
            ctx.ensure(k == j, '%s uses %d products (without the one for the guess) though the point after %d has residual %r, within the threshold %r', kind, k, j, v, thr)
            ctx.ensure(s.converged, 'convergence is not reported')
            ctx.label('%s converged' % kind)
            if j > 24:
                ctx.label('%s converged after more than 24 products' % kind)
            if j:
                ctx.nt()
            return
        if v <= thr + tol or j >= limit:
            ctx.skip('rounding decides')
        if v < 1e-5 * n0 and thr < 1e-6 * n0:
            ctx.skip('rounding decides')
    ctx.skip('breaks down')


CHECKS['K08'] = Check(s_k08, c_k08, 12000, 200000,
    'CG, CGS, Bi-CGSTAB and TFQMR on systems of sizes to 9 (thorough 18), preconditioned or not, from any guess, with absolute and relative tolerances and budgets of every kind: the number of products used is compared with the first point of a textbook run whose residual is within max(abstol, reltol r0); non-trivial: stopped after at least one product',
    ['Residuals within 1e-6 (relative) of the threshold are not judged'])
