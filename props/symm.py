"""S01-S04: MINRES and SYMMLQ."""
import numpy as np
from vlib import wl, prob
from vlib.check import Check
from vlib.spec import st_, seeds
from props.krylov import arnoldi

CHECKS = {}
LD = np.longdouble
PRE = (None, None, None, 'diag', 'spd', 'eye')
EPS = 2.3e-16


class SymSys(prob.Sys):
    """A symmetric system with a shift, also in the variables of the preconditioner (P = L L')."""

    def __init__(self, d, sh, **kw):
        prob.Sys.__init__(self, d, **kw)
        if sh == 'eig':
            self.shift = float(np.linalg.eigvalsh(self.A)[d['s'] % self.n])
            if d['fam'] == 'diagint':
                self.shift = float(self.A[d['s'] % self.n, d['s'] % self.n])
        else:
            self.shift = sh * self.nrm
        self.B = self.A - self.shift * np.eye(self.n)
        P = np.eye(self.n) if self.M is None else self.M
        self.Lc = np.linalg.cholesky(P) if d['pre'] != 'indef' else np.eye(self.n)
        self.H = np.dot(self.Lc.T, np.dot(self.B, self.Lc))
        self.H = .5 * (self.H + self.H.T)
        self.h = np.dot(self.Lc.T, self.b)
        ev = np.linalg.eigvalsh(self.H)
        self.ev = ev
        self.hn = float(max(abs(ev)))
        nz = [abs(e) for e in ev if abs(e) > 1e-11 * self.hn]
        self.small = float(min(nz)) if nz else self.hn
        self.rank = len(nz)
        self.cond = self.hn / self.small if nz else 1.
        # norm and condition number including the shift's cancellation
        self.loss = max(1., self.nrm * np.linalg.norm(P, 2) / self.hn) if self.hn else 1.

    def res(self, x):
        B, v = self.A.astype(LD) - self.shift * np.eye(self.n), np.asarray(x).astype(LD)
        return (self.b.astype(LD) - np.dot(B, v)).astype(float)

    def y_of(self, x):
        return np.linalg.solve(self.Lc, x)

    def pnorm(self, r):
        return float(np.linalg.norm(np.dot(self.Lc.T, r)))

    def kw(self):
        return {'shift': self.shift} if self.shift else {}


def lost(S, k):
    """How many vectors of a plain double precision Lanczos run stay orthogonal to 1e-7."""
    H, v = S.H, S.h / np.linalg.norm(S.h)
    V, old, beta = [v], None, 0.
    while len(V) < k:
        w = np.dot(H, V[-1])
        if old is not None:
            w = w - beta * old
        w = w - np.dot(V[-1], w) * V[-1]
        beta = np.linalg.norm(w)
        if not beta > 1e-12 * S.hn:
            return k
        old = V[-1]
        w = w / beta
        if max(abs(np.dot(u, w)) for u in V) > 1e-7:
            return len(V)
        V.append(w)
    return k


def draw_sym_sys(draw, st, fams, nmax, pres, conds=(2., 10., 30.)):
    d = prob.draw_square(draw, st, fams, nmax, pres, (None,), conds=conds)
    return d


def solver_for(kind, S, where, **ctor):
    if S.preop is None:
        return prob.make(kind, S.op, None, **ctor), {}
    if where == 'solve' and kind == 'MINRES':
        return prob.make(kind, S.op, None, **ctor), {'precon': S.preop}
    return prob.make(kind, S.op, S.preop, **ctor), {}


def unsym(S, c, which):
    """An unsymmetric matrix clearly away from symmetric ones."""
    r = wl.rng(c['d']['s'] + 11)
    A = S.A if which == 'op' else (S.M if S.M is not None else np.eye(S.n))
    G = r.randn(S.n, S.n)
    return A + c['mix'] * np.linalg.norm(A, 2) * (G - G.T) / np.linalg.norm(G - G.T)


def bad_precon(c, S, ctx, kind):
    """An indefinite preconditioner must be recognised when the run meets a vector that shows it."""
    P = prob.Probe(S.M, 5000, keep=True)
    s = prob.make(kind, S.op, P.op)
    prob.solve(kind, s, S.b, c['budget'], **S.kw())
    met = None
    for i, z in enumerate(P.log):
        if not np.all(np.isfinite(z)):
            ctx.skip('not finite')
        v = float(np.dot(z, np.dot(S.M, z)))
        if abs(v) <= 1e-11 * np.linalg.norm(S.M, 2) * float(np.dot(z, z)):
            ctx.skip('rounding level')
        if v < 0:
            met = i
            break
    want = {'MINRES': 9, 'SYMMLQ': 8}[kind]
    code = s.istop
    if met is None:
        ctx.ensure(code != want, '%s says the preconditioner is indefinite but met no sign of it', kind)
        return
    ctx.ensure(code == want, '%s stops with code %r after meeting a vector on which the preconditioner is negative', kind, code)
    ctx.ensure(not s.converged, 'convergence is claimed with an indefinite preconditioner')
    ctx.atmost(len(P.log) - 1 - met, 1 if kind == 'SYMMLQ' else 0, 'number of uses of the preconditioner after it was found indefinite')
    ctx.nt()
    ctx.label('indefinite precon at use %d' % min(met + 1, 4))


def refusals(c, S, ctx, kind):
    n = S.n
    if n == 1 or not np.any(S.b) or not S.nrm:
        ctx.skip('one unknown, b = 0 or A = 0')
    codes = {'MINRES': (7, 8), 'SYMMLQ': (6, 7)}[kind]
    A = unsym(S, c, c['bad'])
    if kind == 'SYMMLQ':      # Its checks use one vector: leave out unlucky ones.
        v = np.dot(S.M, S.b) if S.M is not None and c['bad'] == 'op' else S.b
        if c['bad'] != 'op':
            v = np.dot(A, S.b)
            w = np.dot(A, v)
            gap = abs(np.dot(v, v) - np.dot(S.b, w)) / max(np.dot(v, v), 1e-300)
        else:
            w = np.dot(A, v)
            gap = abs(np.dot(w, w) - np.dot(v, np.dot(A, w))) / max(np.dot(w, w), 1e-300)
        if not gap > 1e-3:
            ctx.skip('the check vector shows nothing')
    P = prob.Probe(A, 5000)
    if c['bad'] == 'op':
        s = prob.make(kind, P.op, S.preop)
    else:
        beta = float(np.dot(S.b, np.dot(A, S.b)))
        if beta <= 0:
            ctx.skip('negative on b')
        s = prob.make(kind, S.op, P.op)
    prob.solve(kind, s, S.b, c['budget'], check=True, **S.kw())
    ctx.ensure(not s.converged, '%s claims convergence with an unsymmetric %s', kind, c['bad'])
    ctx.ensure(s.istop == codes[0 if c['bad'] == 'op' else 1], '%s stops with code %r for an unsymmetric %s', kind, s.istop, c['bad'])
    ctx.ensure(s.itn == 0, '%d iterations with an unsymmetric %s', s.itn, c['bad'])
    ctx.nt()
    ctx.label('refused %s' % c['bad'])


# ---------------------------------------------------------------- S01
def s_s01(kind):
    def strat(tier):
        st = st_()

        @st.composite
        def case(draw):
            what = draw(st.sampled_from(('solve',) * 7 + ('indef', 'refuse')))
            sing = ('sing', 'psd', 'sdist', 'diagint', 'intsym') if kind == 'MINRES' else ('intsym', 'diagint', 'indef')
            fams = ('spd', 'indef', 'indef', 'dist', 'idist', 'bip') + sing
            d = draw_sym_sys(draw, st, fams, 9 if tier == 'quick' else 24, PRE if what != 'indef' else ('indef',), conds=(1.05, 1.3, 2., 10., 30., 100.))
            c = {'what': what, 'd': d, 'shift': draw(st.sampled_from((0., 0., 0., .37, -.5, 2., 'eig') if kind == 'MINRES' else (0., 0., .37, -.5, 2.))),
                 'budget': draw(st.sampled_from((None, None, None, 1, 2, 3, 5, 8))), 'rtol': draw(st.sampled_from((None, 1e-12, 1e-9, 1e-6, 1e-3))),
                 'check': draw(st.booleans()), 'where': draw(st.sampled_from(('solve', 'ctor'))), 'eigen': draw(st.sampled_from((False,) * 5 + (True,))),
                 'range': draw(st.booleans())}
            if c['shift'] == 'eig':
                d['n'] = max(2, d['n'])
            if what == 'refuse':
                c['bad'] = draw(st.sampled_from(('op', 'precon')))
                c['mix'] = draw(st.sampled_from((1., .3)))
                c['shift'] = 0.
            return c
        return case()
    return strat


def common(c, ctx, kind):
    S = SymSys(c['d'], c['shift'], limit=5000)
    if c['what'] == 'indef':
        bad_precon(c, S, ctx, kind)
        return None
    if c['what'] == 'refuse':
        refusals(c, S, ctx, kind)
        return None
    if c['eigen']:
        lam, V = np.linalg.eigh(S.A)
        S.b = V[:, c['d']['s'] % S.n] * 2. ** c['d']['eb']
        S.h = np.dot(S.Lc.T, S.b)
    elif c.get('range'):
        S.b = np.dot(S.B, S.b) / (S.hn or 1.)
        S.h = np.dot(S.Lc.T, S.b)
    if not np.any(S.b):
        ctx.skip('b = 0')
    if S.hn == 0:
        ctx.skip('null operator')
    s, kw = solver_for(kind, S, c['where'])
    kw.update(S.kw())
    if c['rtol'] is not None:
        kw['rtol'] = c['rtol']
    kw['check'] = c['check']
    prob.solve(kind, s, S.b, c['budget'], **kw)
    ctx.array(s.x, (S.n,), 'x')
    ctx.ensure(np.array_equal(s.x, s.bestSolution), 'x and bestSolution differ')
    return S, s


def anorm_bounds(S, ctx, value, itn, what):
    """The estimate is sqrt(sum |H v_k|^2) over the Lanczos vectors."""
    hi = np.sqrt(max(itn, 1.)) * S.hn
    lo = float(np.linalg.norm(np.dot(S.H, S.h)) / np.linalg.norm(S.h))
    pad = 1e-8 * S.hn * S.loss
    ctx.ensure(lo * (1 - 1e-6) - pad <= value <= hi * (1 + 1e-6) + pad, '%s = %r is not between %r and %r', what, value, lo, hi)


def least_squares(c, ctx, S, s, rtol, itnlim, best):
    """Inconsistent systems: in exact arithmetic the run is known, and whether rounding matters can be told from it."""
    if S.cond * S.loss > 150 or S.n > 9 or lost(S, S.n) < S.n - 1:
        ctx.skip('too sensitive')
    bp = S.pnorm(S.b)
    H, h = S.H.astype(LD), S.h.astype(LD)
    V = arnoldi(lambda v: np.dot(H, v), h, S.n)
    stop, r, total = None, h, 0.
    for k in range(1, len(V) + 1):
        if k > 1:
            HW = np.dot(S.H, np.array(V[:k - 1]).T.astype(float))
            if np.linalg.svd(HW)[1][-1] < 1e-5 * S.hn:
                ctx.skip('nearly singular Krylov space')
            t = np.linalg.lstsq(HW, S.h, rcond=1e-14)[0]
            r = S.h - np.dot(HW, t)
        total += float(np.linalg.norm(np.dot(S.H, V[k - 1].astype(float)))) ** 2
        test = float(np.linalg.norm(np.dot(S.H, np.asarray(r, float))) / np.linalg.norm(np.asarray(r, float)) / np.sqrt(total))
        if .1 * rtol < test < 10 * rtol or (test <= rtol and test < 1e-11 and rtol < 1e-9):
            ctx.skip('stops at rounding level')
        if test <= rtol:
            stop = k
            break
    if stop is None or (stop > itnlim and np.linalg.svd(np.dot(S.H, np.array(V[:itnlim]).T.astype(float)))[1][-1] < 1e-5 * S.hn):
        ctx.skip('nearly singular Krylov space')
    rp = S.pnorm(S.res(s.x))
    if stop > itnlim:
        ctx.ensure(s.istop == 6 and s.itn == itnlim, 'code %r after %d iterations, the limit (%d) comes before a least-squares solution (%d)', s.istop, s.itn, itnlim, stop)
        ctx.ensure(not s.converged, 'convergence is claimed')
    else:
        low = np.linalg.svd(np.dot(S.H, np.array(V[:stop]).T.astype(float)))[1]
        late = 2 + S.n // 2 if S.n < 10 and low[low > 1e-9 * S.hn][-1] > .02 * S.hn else itnlim         # Lost orthogonality delays convergence.
        if (s.istop == 6 and s.itn == itnlim and itnlim < stop + late) or (late == itnlim and s.itn > stop + 2 + S.n // 2):
            ctx.skip('stops at rounding level')
        if s.istop == 1:
            ctx.atmost(rp, 10 * rtol * np.sqrt(float(s.itn)) * S.hn * float(np.linalg.norm(S.y_of(s.x))) + 1e-12 * bp, 'residual with code 1')
            return
        ctx.ensure(s.istop == 2, 'code %r after %d iterations on a least-squares problem (%d needed)', s.istop, s.itn, stop)
        ctx.ensure(stop <= s.itn <= stop + late, '%d iterations on a least-squares problem instead of %d', s.itn, stop)
        ctx.ensure(s.converged, 'convergence is not claimed')
        ctx.atmost(rp, np.sqrt(best ** 2 + (1.01 * rtol * np.sqrt(total) / S.small * bp) ** 2) + 1e-7 * bp, 'residual (the least possible is %r)' % best)
        ctx.label('least squares')
        if stop > 1:
            ctx.nt()
    ctx.near(s.rnorm, rp, 1e-7 * bp, 'rnorm')
    ctx.near(s.residNorm, rp, 1e-7 * bp, 'residNorm')


def c_s01(c, ctx):
    got = common(c, ctx, 'MINRES')
    if got is None:
        return
    S, s = got
    n, b = S.n, S.b
    rtol = 1e-12 if c['rtol'] is None else c['rtol']
    itnlim = 5 * n if c['budget'] is None else c['budget']
    ctx.ensure(s.istop in (-1, 1, 2, 3, 4, 6), 'stops with code %r', s.istop)
    ctx.ensure(1 <= s.itn <= itnlim, '%r iterations with a limit of %d', s.itn, itnlim)
    ctx.ensure(bool(s.converged) == (s.istop != 6), 'converged is %r with code %r', s.converged, s.istop)
    if s.istop == 6:
        ctx.ensure(s.itn == itnlim, 'the iteration limit (%d) is blamed after %d', itnlim, s.itn)
    bp = S.pnorm(b)
    ctx.near(s.residNorm0, bp, 1e-12 * bp * np.linalg.cond(S.Lc), 'residNorm0')
    r = S.res(s.x)
    rp = S.pnorm(r)
    y = np.linalg.norm(S.y_of(s.x))
    cond = S.cond * S.loss
    # b almost, but not exactly, without a part in the range of the operator is not claimed.
    proj = np.linalg.lstsq(S.H, S.h, rcond=1e-11)[0]
    best = float(np.linalg.norm(S.h - np.dot(S.H, proj)))
    inr = float(np.linalg.norm(np.dot(S.H, proj)))
    if cond > 1e4 or (inr < 1e-3 * bp and not (c['d']['fam'] == 'diagint' and inr == 0)):
        ctx.skip('too sensitive')
    singular = S.rank < n
    slack = 1e-14 * n * (S.hn * y + bp) * cond * (10 if singular else 1) * np.linalg.cond(S.Lc)
    if singular and best > 1e-10 * bp:
        return least_squares(c, ctx, S, s, rtol, itnlim, best)
    ctx.near(s.rnorm, rp, slack, 'rnorm')
    ctx.near(s.residNorm, rp, slack, 'residNorm')
    ctx.ensure(rp >= best - slack, 'residual below the optimum')
    anorm_bounds(S, ctx, s.Anorm, s.itn, 'Anorm')
    ctx.atmost(s.Acond, 1.0001 * max(S.cond, 1.) * (1. if not singular else 1e3), 'Acond') if not singular and cond < 300 else None
    an = np.sqrt(float(s.itn)) * S.hn
    if s.istop == 1:
        ctx.atmost(rp, 10 * rtol * an * y + slack, 'residual with code 1')
    if s.istop == 2:
        ctx.atmost(rp, rtol * an / S.small * bp * 1.001 + slack, 'residual with code 2')
    if s.istop == -1:
        ctx.atmost(rp, best + 1e-13 * bp + slack, 'residual with code -1')
    if s.istop == 3:
        ctx.atmost(bp, 1.001 * EPS * an * y, 'norm of b with code 3')
    if not singular and cond <= 150 and c['budget'] is None and rtol >= 1e-12:
        ctx.ensure(s.converged and s.istop in (-1, 1, 2), 'code %r after %d iterations on a well-conditioned system', s.istop, s.itn)
        xs = np.linalg.solve(S.H, S.h)
        err = np.linalg.norm(S.y_of(s.x) - xs)
        ctx.atmost(err, (10 * rtol * an * y + rtol * an / S.small * bp + 10 * slack) / S.small, 'error of the solution')
    if singular and c['budget'] is None and cond <= 150 and rtol >= 1e-9:
        ctx.ensure(s.converged, 'code %r after %d iterations on a consistent or least-squares problem', s.istop, s.itn)
        ctx.label('singular consistent')
    if s.itn > 1:
        ctx.nt()
    ctx.label('istop %d' % s.istop, 'precon' if S.M is not None else 'plain', 'shift' if S.shift else 'no shift')


CHECKS['S01'] = Check(s_s01('MINRES'), c_s01, 9000, 160000,
    'MINRES on definite, indefinite, singular and integer symmetric systems (sizes to 9, thorough 24) with shifts (eigenvalues included), preconditioners given at creation or to the solve, tolerances, limits, eigenvectors as right-hand sides, unsymmetric operators or preconditioners and indefinite preconditioners; every claim of the report is compared with dense computations; non-trivial: more than one iteration, a refusal or an indefinite preconditioner met',
    ['The direct-error test is turned off (etol = 0)', 'Condition numbers above 1e4 and right-hand sides nearly orthogonal to the range are left out'])


# ---------------------------------------------------------------- S02
def s_s02(tier):
    st = st_()

    @st.composite
    def case(draw):
        d = draw_sym_sys(draw, st, ('spd', 'indef', 'indef', 'idist', 'bip', 'sing', 'psd', 'intsym', 'diagint'), 7 if tier == 'quick' else 14, PRE, conds=(2., 5., 10., 30.))
        return {'d': d, 'shift': draw(st.sampled_from((0., 0., .37, -.5, 2.))), 'budget': draw(st.sampled_from((None, None, 1, 2, 4))),
                'where': draw(st.sampled_from(('solve', 'ctor'))), 'rtol': draw(st.sampled_from((1e-12, 1e-8, 1e-4)))}
    return case()


def c_s02(c, ctx):
    S = SymSys(c['d'], c['shift'], limit=5000)
    n = S.n
    if not np.any(S.b) or S.hn == 0 or S.cond * S.loss > 300:
        ctx.skip('null or ill-conditioned')
    s, kw = solver_for('MINRES', S, c['where'])
    kw.update(S.kw())
    prob.solve('MINRES', s, S.b, c['budget'], rtol=c['rtol'], store_iterates=True, **kw)
    its = [np.array(v) for v in s.iterates]
    ctx.ensure(len(its) == s.itn + 1, '%d iterates stored in %d iterations', len(its), s.itn)
    hist = list(s.residHistory)
    ctx.ensure(len(hist) == s.itn, '%d residuals stored in %d iterations', len(hist), s.itn)
    ctx.close(its[0], np.zeros(n), 0., 'first iterate')
    ctx.close(its[-1], s.x, 0., 'last iterate')
    bp = S.pnorm(S.b)
    H, h = S.H.astype(LD), S.h.astype(LD)
    V = arnoldi(lambda v: np.dot(H, v), h, min(len(its) - 1, n))
    prev = bp
    good = lost(S, n) if n > 4 else n
    for k in range(1, len(its)):
        if k > good:
            ctx.label('orthogonality lost')
            break
        ctx.array(its[k], (n,), 'iterate %d' % k)
        y = S.y_of(its[k])
        W = np.array(V[:k]).T.astype(float)
        HW = np.dot(S.H, W)
        sv = np.linalg.svd(HW)[1]
        if sv[-1] < 1e-5 * S.hn and S.rank < n:
            ctx.label('null vectors in the Krylov space')
            break
        t = np.linalg.lstsq(HW, S.h, rcond=1e-13)[0]
        best = float(np.linalg.norm(S.h - np.dot(HW, t)))
        rp = S.pnorm(S.res(its[k]))
        # Components in the null space make large iterates, with large rounding errors.
        tol = 1e-7 * bp * max(1., S.hn / max(sv[-1], 1e-300) / 30) + 1e-13 * S.cond * S.hn * float(np.linalg.norm(y))
        if tol > 1e-3 * bp:
            ctx.label('sensitive')
            break
        ctx.near(rp, best, tol, 'residual of iterate %d (the minimum over the Krylov space)' % k)
        if sv[-1] > 1e-3 * S.hn and k <= len(V):
            ctx.close(y, np.dot(W, t), 1e-6 * bp / sv[-1] + 1e-8 * np.linalg.norm(t), 'iterate %d' % k)
        ctx.near(hist[k - 1], rp, tol, 'entry %d of the residual history' % (k - 1))
        ctx.atmost(hist[k - 1], prev * (1 + 1e-12), 'entry %d of the residual history (the one before)' % (k - 1))
        prev = hist[k - 1]
        if k >= 2 and best > 1e-5 * bp:
            ctx.nt()
    ctx.label('family %s' % c['d']['fam'], 'precon %s' % c['d']['pre'], 'shift' if S.shift else 'no shift')


CHECKS['S02'] = Check(s_s02, c_s02, 6000, 100000,
    'every stored MINRES iterate compared with the residual minimiser over the explicitly built (preconditioned, shifted) Krylov space, and with the residual history; definite, indefinite, singular and integer systems of sizes to 7 (thorough 14); non-trivial: an iterate beyond the first with a residual above 1e-5 of the initial one',
    ['Condition numbers (on the range) to 300'])


# ---------------------------------------------------------------- S03
def c_s03(c, ctx):
    got = common(c, ctx, 'SYMMLQ')
    if got is None:
        return
    S, s = got
    n, b = S.n, S.b
    rtol = 1e-9 if c['rtol'] is None else c['rtol']
    if np.linalg.norm(np.dot(S.A, b)) < 1e-10 * S.nrm * np.linalg.norm(b):
        ctx.skip('b nearly in the null space')
    ctx.ensure(s.istop in (-1, 1, 2, 3, 4, 5), 'stops with code %r', s.istop)
    r = S.res(s.x)
    nb, nx = np.linalg.norm(b), np.linalg.norm(s.x)
    ctx.near(s.residNorm, float(np.linalg.norm(r)), 1e-14 * n * (nb + (S.nrm + abs(S.shift)) * nx), 'residNorm')
    ctx.near(s.xNorm, nx, 1e-13 * nx, 'xNorm')
    ctx.ensure(bool(s.converged) == (s.istop in (-1, 1, 2, 3)), 'converged is %r with code %r', s.converged, s.istop)
    budget = 2 * n + 2 if c['budget'] is None else c['budget']
    if s.istop == 5:
        ctx.ensure(S.probe.n >= budget, 'the product limit (%d) is blamed after %d', budget, S.probe.n)
    singular = S.rank < n
    cond = S.cond * S.loss
    rp, bp = S.pnorm(r), S.pnorm(b)
    y = np.linalg.norm(S.y_of(s.x))
    if singular or cond > 3e3:
        ctx.skip('singular or ill-conditioned')
    slack = 1e-13 * n * (S.hn * y + bp) * cond * np.linalg.cond(S.Lc)
    anorm_bounds(S, ctx, s.anorm, s.itn, 'anorm')
    an = np.sqrt(float(s.itn)) * S.hn
    if s.istop == 1:
        ctx.atmost(rp, rtol * an * y * 1.001 + slack, 'residual with code 1')
    if s.istop == 2:
        ctx.atmost(rp, 1e-15 * an * y + slack, 'residual with code 2')
    if s.istop == -1:
        ctx.atmost(rp, slack, 'residual with code -1')
    if s.istop in (3, 4):
        raise wl.Fail('code %d for a nonsingular system of condition %.3g' % (s.istop, cond))
    if s.istop in (1, 2) and rtol <= 1e-3:
        ctx.atmost(s.acond, 10 * max(1., S.cond), 'condition estimate of a converged run')
    if cond <= 150 and c['budget'] is None and rtol >= 1e-9:
        ctx.ensure(s.converged, 'code %r after %d products on a well-conditioned system', s.istop, S.probe.n)
        ys = np.linalg.solve(S.H, S.h)
        ctx.atmost(float(np.linalg.norm(S.y_of(s.x) - ys)), (rtol * an * y * 1.01 + slack) / S.small, 'error of the solution')
    if s.itn > 1:
        ctx.nt()
    ctx.label('istop %d' % s.istop, 'precon' if S.M is not None else 'plain', 'shift' if S.shift else 'no shift')


CHECKS['S03'] = Check(s_s01('SYMMLQ'), c_s03, 9000, 160000,
    'SYMMLQ on definite, indefinite and integer symmetric systems (sizes to 9, thorough 24) with shifts, preconditioners, tolerances, product limits, eigenvectors as right-hand sides, unsymmetric operators or preconditioners and indefinite preconditioners; reports compared with dense computations; non-trivial: more than one iteration, a refusal or an indefinite preconditioner met',
    ['Singular systems and condition numbers above 3e3 only count for the consistency of residual norm, flag and code'])


# ---------------------------------------------------------------- S04
def s_s04(tier):
    st = st_()

    @st.composite
    def case(draw):
        d = draw_sym_sys(draw, st, ('spd', 'indef', 'indef', 'idist', 'bip', 'intsym', 'diagint'), 7 if tier == 'quick' else 14, PRE, conds=(2., 5., 10., 30.))
        d['n'] = max(d['n'], 2)
        return {'d': d, 'shift': draw(st.sampled_from((0., 0., .37, -.5, 2.))), 'budget': draw(st.integers(1, 7 if tier == 'quick' else 14))}
    return case()


def c_s04(c, ctx):
    S = SymSys(c['d'], c['shift'], limit=5000)
    n, k = S.n, c['budget']
    if not np.any(S.b) or S.hn == 0 or S.rank < n or S.cond * S.loss > 300:
        ctx.skip('null, singular or ill-conditioned')
    H, h = S.H.astype(LD), S.h.astype(LD)
    V = arnoldi(lambda v: np.dot(H, v), h, k + 1)
    s, kw = solver_for('SYMMLQ', S, 'ctor')
    kw.update(S.kw())
    prob.solve('SYMMLQ', s, S.b, k, rtol=1e-14, **kw)
    ctx.array(s.x, (n,), 'x')
    ctx.atmost(S.probe.n, k + 1, 'number of products')
    done = S.probe.n - 1                 # products before the final residual
    ys = np.linalg.solve(S.H, S.h)
    if done < k and s.istop in (-1, 1, 2):      # Already solved.
        ctx.close(S.y_of(s.x), ys, 1e-8 * np.linalg.norm(ys), 'the solution')
        return
    ctx.ensure(done == k, '%d products and code %r with a limit of %d', S.probe.n, s.istop, k)
    if len(V) < k:
        ctx.skip('small Krylov space')
    y = S.y_of(s.x)
    W = np.array(V[:k]).T.astype(float)
    T = np.dot(W.T, np.dot(S.H, W))
    g = np.dot(W.T, S.h)
    pts = []
    if abs(np.linalg.det(T / S.hn)) > 0 and np.linalg.cond(T) < 1e6:
        pts.append(('CG', np.dot(W, np.linalg.solve(T, g)), np.linalg.cond(T)))
    if k == 1:
        pts.append(('LQ', np.zeros(n), 1.))
    else:
        U = np.dot(S.H, W[:, :k - 1])
        t = np.linalg.solve(np.dot(U.T, U), np.dot(W[:, :k - 1].T, S.h))
        pts.append(('LQ', np.dot(U, t), 1.))
    res = [float(np.linalg.norm(S.h - np.dot(S.H, p[1]))) for p in pts]
    i = int(np.argmin(res))
    ok = [i] if len(res) == 1 or max(res) > 1.01 * min(res) + 1e-7 * np.linalg.norm(S.h) else range(len(res))
    # What the space has lost to rounding: only judge runs away from convergence.
    if min(res) < 1e-6 * np.linalg.norm(S.h):
        ctx.close(y, ys, 1e-4 * np.linalg.norm(ys), 'the solution')
        ctx.label('converged')
        return
    tols = [1e-6 * (np.linalg.norm(ys) + np.linalg.norm(pts[j][1])) * max(1., 1e-2 * pts[j][2]) for j in ok]
    errs = [float(np.max(np.abs(y - pts[j][1]))) for j in ok]
    ctx.ensure(any(e <= t for e, t in zip(errs, tols)), 'after %d products the point is not the %s point: error %r (allowed %r); residuals %r',
               k, ' or '.join(pts[j][0] for j in ok), errs, tols, list(zip([p[0] for p in pts], res)))
    ctx.ensure(not s.converged, 'convergence is claimed')
    ctx.nt()
    ctx.label('%s point' % (pts[ok[0]][0] if len(ok) == 1 else 'either'), 'precon %s' % c['d']['pre'], 'shift' if S.shift else 'no shift')


CHECKS['S04'] = Check(s_s04, c_s04, 8000, 120000,
    'SYMMLQ stopped after 1 to 7 (thorough 14) products on definite and indefinite systems with shifts and preconditioners; the returned point is compared with the Galerkin and the minimum-error point computed densely over the explicitly built Krylov space, whichever has the smaller residual; non-trivial: that residual is above 1e-6 of the initial one',
    ['Condition numbers to 300; either point is accepted when their residuals agree to one percent'])


# ---------------------------------------------------------------- S05
def s_s05(tier):
    st = st_()

    @st.composite
    def case(draw):
        kind = draw(st.sampled_from(('MINRES', 'MINRES', 'SYMMLQ')))
        fams = ('spd', 'indef', 'indef', 'dist', 'idist', 'bip', 'intsym') + (('psd', 'sing') if kind == 'MINRES' else ())
        d = draw_sym_sys(draw, st, fams, 8 if tier == 'quick' else 14, PRE, conds=(1.05, 1.3, 2., 5., 10., 30., 100.))
        c = {'kind': kind, 'd': d, 'shift': draw(st.sampled_from((0., 0., 0., .37, -.5, 2.))), 'budget': draw(st.sampled_from((None, None, 60, 1, 2, 3, 5))),
             'rtol': draw(st.sampled_from((None, 1e-9, 1e-6, 1e-4, 1e-3, 1e-2, .1))), 'etol': draw(st.sampled_from((0., 0., None, .5, .3, .1, 1e-2, 1e-3))),
             'window': draw(st.sampled_from((None, 1, 1, 2, 2, 3))), 'where': draw(st.sampled_from(('solve', 'ctor'))), 'range': draw(st.sampled_from((False, False, True)))}
        d['n'] = max(d['n'], draw(st.sampled_from((1, 3, 5))))
        return c
    return case()


def below(a, b, slack):
    """Whether a <= b; None when rounding decides."""
    if a <= b * (1 - 1e-5) - slack:
        return True
    return False if a > b * (1 + 1e-5) + slack else None


def c_s05(c, ctx):
    kind = c['kind']
    mr = kind == 'MINRES'
    S = SymSys(c['d'], c['shift'], limit=5000)
    n = S.n
    if c['range']:
        S.b = np.dot(S.B, S.b) / (S.hn or 1.)
        S.h = np.dot(S.Lc.T, S.b)
    if not np.any(S.b) or S.hn == 0 or S.cond * S.loss > 150 or np.linalg.norm(np.dot(S.H, S.h)) < 1e-6 * S.hn * np.linalg.norm(S.h):
        ctx.skip('null or ill-conditioned')
    s, kw = solver_for(kind, S, c['where'])
    kw.update(S.kw())
    if c['rtol'] is not None:
        kw['rtol'] = c['rtol']
    rtol = (1e-12 if mr else 1e-9) if c['rtol'] is None else c['rtol']
    etol, win = 0., 5
    if mr:
        for k in ('etol', 'window'):
            if c[k] is not None:
                kw[k] = c[k]
            elif k == 'etol':
                kw[k] = 1e-6
        etol, win = kw['etol'], kw.get('window', 5)
    prob.solve(kind, s, S.b, c['budget'], store_iterates=True, **kw)
    limit = c['budget'] or (5 * n if mr else 2 * n + 2)
    itn, code = s.itn, s.istop
    ctx.ensure(1 <= itn <= limit, '%r iterations with a limit of %d', itn, limit)
    ctx.ensure(len(s.iterates) == itn + (1 if mr else 0), '%d iterates stored in %d iterations', len(s.iterates), itn)
    singular = S.rank < n
    if singular and not mr:
        ctx.skip('singular')
    bp = S.pnorm(S.b)
    H, h = S.H.astype(LD), S.h.astype(LD)
    V = arnoldi(lambda v: np.dot(H, v), h, min(itn + 1, n))
    good = min(lost(S, n), len(V))
    W = np.array(V).T.astype(float)
    HW = np.dot(S.H, W)
    sq = (HW ** 2).sum(axis=0)
    slack = 1e-9 * bp
    lim = {'MINRES': 6, 'SYMMLQ': 5}[kind]
    ctx.ensure(code in ((-1, 1, 2, 3, 6, 10) if mr else (-1, 1, 2, 3, 5)), 'stops with code %r', code)
    ctx.ensure(bool(s.converged) == (code != lim), 'converged is %r with code %r', s.converged, code)
    if code == lim:
        ctx.ensure(itn >= limit, 'the limit (%d) is blamed after %d', limit, itn)
    if mr:
        de = list(s.dir_errors_window)
        ctx.ensure(len(de) == max(0, itn - win), '%d direct errors in %d iterations with a window of %d', len(de), itn, win)
        if code == 10:
            ctx.ensure(de and de[-1] < etol, 'the direct error is %r with tolerance %r', de[-1] if de else None, etol)
            ctx.ensure(s.status == 'direct error small', 'status %r', s.status)
        for j, v in enumerate(de[:itn - win - 1]):
            ctx.ensure(not v < etol, 'did not stop with direct error %r after %d iterations', v, win + 1 + j)
    rn, Hr, y = [bp], [float(np.linalg.norm(np.dot(S.H, S.h)))], [np.zeros(n)]
    for k in range(1, min(itn, good) + 1):
        last = k == itn
        sv = np.linalg.svd(HW[:, :k])[1]
        if sv[-1] < 1e-3 * S.hn:
            ctx.label('nearly singular Krylov space')
            return
        anorm = float(np.sqrt(sq[:k].sum()))
        U = HW[:, :k - (0 if mr else 1)]
        lq = U.dot(np.linalg.solve(U.T.dot(U), W[:, :U.shape[1]].T.dot(S.h))) if U.shape[1] else np.zeros(n)
        ynorm = float(np.linalg.norm(lq))
        if last:
            ctx.near(s.Anorm if mr else s.anorm, anorm, 1e-7 * S.hn * S.loss, 'estimate of the norm after %d iterations' % k)
        if k == 1:
            flat = float(np.linalg.norm(HW[:, 0] - W[:, 0] * np.dot(W[:, 0], HW[:, 0])))
            if flat < 1e-8 * S.hn:
                ctx.label('eigenvector')
                return
        if mr:
            t = np.linalg.lstsq(HW[:, :k], S.h, rcond=1e-13)[0]
            y.append(np.dot(W[:, :k], t))
            r = S.h - np.dot(S.H, y[k])
            rn.append(float(np.linalg.norm(r)))
            Hr.append(float(np.linalg.norm(np.dot(S.H, r))))
            why = {}
            t2 = below(Hr[k - 1], rtol * anorm * rn[k - 1], 1e-9 * S.hn * bp)
            if t2:                      # No step is taken any more.
                rn[k] = rn[k - 1]
            ends = sorted((ynorm, float(np.linalg.norm(y[k]))))
            short = s
            if not last:                # What a run stopped here reports.
                short, kw2 = solver_for(kind, S, c['where'])
                prob.solve(kind, short, S.b, k, **dict(kw, etol=0.))
                ctx.ensure(short.itn == k, '%d iterations with a limit of %d', short.itn, k)
            if not singular and not t2:
                ctx.ensure(0. <= short.ynorm <= ends[1] * (1 + 1e-6) + 1e-300, 'norm of the solution %r after %d iterations (%r)', short.ynorm, k, ends)
            why[1] = below(rn[k], rtol * anorm * short.ynorm, slack)
            why[2] = t2
            if k > win and not t2:
                # The direct error, as a change of residual over the window.
                top = np.linalg.norm(np.dot(S.H, y[k]))
                v = float(np.linalg.norm(np.dot(S.H, y[k] - y[k - win])) / top)
                if t2 is False and (win == 1 or top > 1e-2 * bp):
                    ctx.near(de[k - win - 1], v, 1e-6 * max(1., bp / top), 'direct error after %d iterations' % k)
                    ctx.label('direct errors compared')
                why[10] = below(v, etol, 1e-7 * max(1., bp / top)) if etol else False
            elif t2:
                why[10] = None if k > win else False
            else:
                why[10] = False
            R = np.abs(np.diag(np.linalg.qr(HW[:, :k])[1]))
            acond = float(max(R) / min(R))
            if last:
                ctx.near(s.Acond, acond, 1e-5 * acond * S.loss, 'condition estimate after %d iterations' % k)
        else:
            T = W[:, :k].T.dot(HW[:, :k])
            L = np.linalg.qr(T)[1]
            gam = np.abs(np.diag(L))
            beta = float(np.linalg.norm(HW[:, k - 1] - W[:, :k].dot(T[:, k - 1])))
            if gam[-1] < 1e-4 * S.hn:       # No CG point.
                why = {1: None if gam[-1] > 0 else False, 2: False}
                cg = None
            else:
                cg = float(np.linalg.norm(S.h - HW[:, :k].dot(np.linalg.solve(T, W[:, :k].T.dot(S.h)))))
                why = {1: below(cg, rtol * anorm * ynorm, slack), 2: False}
            if last and cg is not None and cg > 1e-6 * bp:
                hi = max(abs(T[0, 0]), max(list(gam[:-1]) + [0.]))
                lqn = float(np.linalg.norm(S.h - np.dot(S.H, lq)))
                lo = min(list(gam[:-1]) + [np.inf])
                a, b = hi / lo, hi / min(lo, gam[-1])
                want = a if lqn < cg else b
                if abs(lqn - cg) < 1e-6 * bp:
                    want = None
                if want is not None:
                    ctx.near(s.acond, want, 1e-5 * want * S.loss, 'condition estimate after %d iterations' % k)
        why[lim] = k >= limit
        yes = [w for w in why if why[w]]
        maybe = [w for w in why if why[w] is None]
        if not last:
            ctx.ensure(not yes, 'did not stop after %d iterations though it could with code %s', k, yes)
            if maybe:
                ctx.label('rounding decides')
                return
        else:
            if code in (3, -1):
                ctx.label('rounding decides')
                return
            ctx.ensure(code in yes + maybe, 'stops after %d iterations with code %r, which does not hold (%s do)', k, code, yes)
            if code == lim:
                ctx.ensure(yes == [lim], 'the limit is blamed after %d iterations though code %s holds', k, yes)
            if mr and code == 2 and 1 in yes:
                ctx.ensure(False, 'code 2 for a solution of the system')
            if itn > 1:
                ctx.nt()
    ctx.label('%s code %d' % (kind, code), 'all judged' if itn <= good else 'not all judged')


CHECKS['S05'] = Check(s_s05, c_s05, 8000, 120000,
    'MINRES and SYMMLQ on definite, indefinite and singular systems (sizes to 8, thorough 14) with shifts, preconditioners, tolerances from 1e-12 to 0.1, limits, direct-error tolerances and windows: at each iteration the quantities of the stopping rules are computed densely from the explicitly built Krylov space, and the solver must stop at the first at which one holds, with a code that holds; the reported norm and condition estimates and direct errors are compared with dense ones; non-trivial: stopped after more than one iteration on a judged one',
    ['Condition numbers to 150; decisions within 1e-9 of a threshold are not judged; only while plain Lanczos keeps orthogonality'])
