"""Generated linear systems, instrumented operators, reference Krylov runs and a uniform way to call the solvers."""
import numpy as np
from vlib import wl
from vlib.wl import Runaway

SHORT = ('CG', 'CGS', 'TFQMR', 'BICGSTAB')
SYMM = ('MINRES', 'SYMMLQ')
LLS = ('LSQR', 'LSMR', 'CRAIG', 'CRAIGMR')
ALL = SHORT + SYMM + LLS


# ---------------------------------------------------------------- systems
def stretch(draw, st, d, top=40):
    """Now and then a system that is much larger."""
    if top and draw(st.integers(0, 24)) == 24:
        for k in ('m', 'n'):
            if k in d:
                d[k] += draw(st.integers(15, top))
        d['cond'] *= draw(st.sampled_from((1., 1., 3., 10.)))
    return d


def draw_square(draw, st, fams, nmax, pres, guesses=(None,), scales=True, conds=(2., 10., 100.), nmin=1, long=40):
    z = st.sampled_from((0, 0, 0, -12, 12, 3, -20, 20, -60, 60)) if scales else st.just(0)
    d = {'fam': draw(st.sampled_from(fams)), 'n': draw(st.integers(nmin, nmax)), 'cond': draw(st.sampled_from(conds)),
         's': draw(st.integers(0, 10 ** 6)), 'ea': draw(z), 'eb': draw(z), 'pre': draw(st.sampled_from(pres)),
         'em': draw(z), 'guess': draw(st.sampled_from(guesses)), 'dist': draw(st.integers(1, 4))}
    return stretch(draw, st, d, long)


def normal(r, n, lim):
    """A normal matrix with eigenvalues of positive real part and imaginary parts up to lim."""
    Q = wl.orth(r, n, n)
    D = np.zeros((n, n))
    i = 0
    while i < n:
        a, w = r.uniform(.5, 2.), r.uniform(-lim, lim)
        if i + 1 < n and r.uniform() < .7:
            D[i:i + 2, i:i + 2] = [[a, w], [-w, a]]
            i += 2
        else:
            D[i, i] = a
            i += 1
    return np.dot(Q, np.dot(D, Q.T))


def near_identity(r, n, rho):
    G = r.randn(n, n)
    return np.eye(n) + rho * G / np.linalg.norm(G, 2)


def matrix(fam, n, cond, r, dist=2):
    if fam == 'spd':
        return wl.spd(r, n, cond)
    if fam in ('dist', 'idist', 'sdist'):
        lam = np.exp(r.uniform(0, np.log(cond), min(dist, n)))
        for i in range(1, len(lam)):       # Well separated values.
            lam[i] = max(lam[i], 1.3 * lam[:i].max()) if lam[i] >= lam[0] else lam[0] * 1.3 ** (i + 1)
        if fam == 'idist':
            lam[::2] *= -1
        if fam == 'sdist':
            lam[0] = 0.
        full = np.array([lam[i % len(lam)] for i in range(n)])
        return wl.with_spectrum(r, full)
    if fam == 'near':
        return near_identity(r, n, .6)
    if fam == 'normal':
        return normal(r, n, 1.5)
    if fam == 'gen':
        sv = np.exp(r.uniform(0, np.log(cond), n))
        return wl.with_singular_values(r, n, n, sv)
    if fam == 'indef':
        lam = np.exp(r.uniform(0, np.log(cond), n)) * np.array([1. if r.uniform() < .5 else -1. for _ in range(n)])
        if n > 1:
            lam[0], lam[1] = abs(lam[0]), -abs(lam[1])
        return wl.with_spectrum(r, lam)
    if fam == 'skew':
        G = wl.ints(r, (n, n), 4).astype(float)
        return G - G.T
    if fam == 'psd':
        lam = np.exp(r.uniform(0, np.log(cond), n))
        lam[:max(1, n // 3)] = 0.
        return wl.with_spectrum(r, lam)
    if fam == 'sing':
        lam = np.exp(r.uniform(0, np.log(cond), n)) * np.array([1. if r.uniform() < .5 else -1. for _ in range(n)])
        lam[:max(1, n // 3)] = 0.
        return wl.with_spectrum(r, lam)
    if fam == 'bip':                       # Eigenvalues in pairs +-; the Lanczos diagonal vanishes from some right-hand sides.
        m = n // 2
        A = np.eye(n)
        if m:
            A[:2 * m, :2 * m] = 0.
            A[:m, m:2 * m] = wl.with_singular_values(r, m, m, np.exp(r.uniform(0, np.log(cond), m)))
            A[m:2 * m, :m] = A[:m, m:2 * m].T
        return A
    if fam == 'intsym':
        G = wl.ints(r, (n, n), 3).astype(float)
        return np.tril(G) + np.tril(G, -1).T
    if fam == 'diagint':
        return np.diag(wl.ints(r, n, 4).astype(float))
    raise wl.Harness(fam)


class Probe(object):
    """Counts and records the products asked of a matrix."""

    def __init__(self, A, limit=100000, keep=False, symmetric=False):
        self.A, self.limit, self.keep = A, limit, keep
        self.n = self.t = 0
        self.log = []
        self.symmetric = symmetric
        kw = {}
        if not symmetric:
            kw['matvec_transp'] = self.rmul
        self.op = wl.L.LinearOperator(A.shape[1], A.shape[0], self.mul, symmetric=symmetric, **kw)

    def mul(self, x):
        self.n += 1
        if self.n + self.t > self.limit:
            raise Runaway('more than %d products' % self.limit)
        if self.keep:
            self.log.append(x.copy())
        return np.dot(self.A, x)

    def rmul(self, x):
        self.t += 1
        if self.n + self.t > self.limit:
            raise Runaway('more than %d products' % self.limit)
        if self.keep:
            self.log.append(x.copy())
        return np.dot(self.A.T, x)


class Sys(object):
    """A square system from its description."""

    def __init__(self, d, limit=100000, keep=False, flag=True):
        r = wl.rng(d['s'])
        n = self.n = d['n']
        self.fam = d['fam']
        self.A = matrix(d['fam'], n, d['cond'], r, d.get('dist', 2)) * 2. ** d['ea']
        self.symmetric = d['fam'] in ('spd', 'dist', 'idist', 'sdist', 'indef', 'psd', 'sing', 'intsym', 'diagint', 'bip')
        self.b = (wl.ints(r, n, 4).astype(float) if d['fam'] in ('intsym', 'diagint', 'skew') else r.randn(n)) * 2. ** d['eb']
        if d['fam'] == 'bip' and n > 1 and d['s'] % 4:
            self.b[n // 2:] = 0.
        self.rhs0 = self.b.copy()
        self.d = d
        p = d['pre']
        self.M = None
        if p == 'spd':
            self.M = wl.spd(r, n, 8.)
        elif p == 'diag':
            self.M = np.diag(r.uniform(.5, 2., n))
        elif p == 'eye':
            self.M = np.eye(n)
        elif p == 'inv':
            self.M = np.linalg.inv(self.A + (.1 * np.linalg.norm(self.A, 2) or 1.) * np.eye(n))
            self.M = .5 * (self.M + self.M.T) if self.symmetric else self.M
        elif p == 'gen':
            self.M = near_identity(r, n, .5)
        elif p == 'indef':
            self.M = matrix('indef', n, 4., r)
        if self.M is not None and p not in ('inv', 'eye'):
            self.M = self.M * 2. ** d['em']
        self.probe = Probe(self.A, limit, keep, flag and self.symmetric and d['s'] % 3 > 0)
        self.op = self.probe.op
        self.preop = None
        if self.M is not None:
            L = wl.L
            if p == 'diag':
                self.preop = L.DiagonalOperator(np.diag(self.M))
            elif p == 'eye':
                self.preop = L.IdentityOperator(n)
            else:
                self.preop = L.linop_from_ndarray(self.M, symmetric=p in ('spd', 'indef') or (p == 'inv' and self.symmetric))
        self.x0 = None
        g = d['guess']
        if g:
            xs = np.linalg.lstsq(self.A, self.b, rcond=None)[0]
            w = max(np.linalg.norm(xs), 1e-300)
            if g == 'rand':
                self.x0 = r.randn(n) * w
            elif g == 'near':
                self.x0 = xs + 1e-3 * w * r.randn(n)
            elif g == 'zero':
                self.x0 = np.zeros(n)
            elif g == 'exact':
                self.x0 = xs
        self.nrm = np.linalg.norm(self.A, 2)

    def start(self):
        return np.zeros(self.n) if self.x0 is None else self.x0

    def residual(self, x, b=None):
        """b - A x in extended precision."""
        A, v = self.A.astype(np.longdouble), np.asarray(x).astype(np.longdouble)
        return ((self.b if b is None else b).astype(np.longdouble) - np.dot(A, v)).astype(float)

    def mdot(self, r):
        """Norm of a residual in the metric of the preconditioner."""
        return float(np.sqrt(abs(np.dot(r, r if self.M is None else np.dot(self.M, r)))))


# ---------------------------------------------------------------- reference runs
def tiny(num, den):
    return not np.isfinite(num) or abs(num) <= 1e-6 * den


def ref_cg(S, steps, dt=float):
    """Textbook preconditioned CG. Returns the points, recurred residuals, norms and whether it broke down."""
    A, b, x = S.A.astype(dt), S.b.astype(dt), S.start().astype(dt)
    M = None if S.M is None else S.M.astype(dt)
    r = b - np.dot(A, x)
    z = r if M is None else np.dot(M, r)
    p = z.copy()
    rz = np.dot(r, z)
    xs, rs, norms = [x.copy()], [r.copy()], [float(np.sqrt(abs(rz)))]
    for _ in range(steps):
        Ap = np.dot(A, p)
        c = np.dot(p, Ap)
        if not c > 0 or rz == 0:
            break
        a = rz / c
        x = x + a * p
        r = r - a * Ap
        z = r if M is None else np.dot(M, r)
        new = np.dot(r, z)
        p = z + (new / rz) * p
        rz = new
        xs.append(x.copy())
        rs.append(r.copy())
        norms.append(float(np.sqrt(abs(rz))))
    return xs, rs, norms


def ref_cgs(S, steps, dt=float):
    """Textbook CGS with right preconditioning: points and residuals of all half and full steps; whether it ran cleanly."""
    A, b, x = S.A.astype(dt), S.b.astype(dt), S.start().astype(dt)
    M = None if S.M is None else S.M.astype(dt)
    pre = (lambda v: v) if M is None else (lambda v: np.dot(M, v))
    r = b - np.dot(A, x)
    r0 = r.copy()
    u, p = r.copy(), r.copy()
    rho = np.dot(r0, r)
    pts, res, clean = [x.copy()], [r.copy()], True
    nr0 = float(np.sqrt(rho))
    for _ in range(steps):
        v = np.dot(A, pre(p))
        sigma = np.dot(r0, v)
        if tiny(sigma, nr0 * np.linalg.norm(v.astype(float))):
            clean = False
            break
        a = rho / sigma
        q = u - a * v
        pts.append(x + a * pre(u))
        res.append(r - a * np.dot(A, pre(u)))
        w = pre(u + q)
        x = x + a * w
        r = r - a * np.dot(A, w)
        pts.append(x.copy())
        res.append(r.copy())
        new = np.dot(r0, r)
        if np.linalg.norm(r.astype(float)) < 1e-13 * nr0:
            break
        if tiny(new, nr0 * np.linalg.norm(r.astype(float))):
            clean = False
            break
        beta = new / rho
        rho = new
        u = r + beta * q
        p = u + beta * (q + beta * p)
    return pts, res, clean


def ref_bicgstab(S, steps, dt=float):
    """Textbook Bi-CGSTAB with right preconditioning, half steps included."""
    A, b, x = S.A.astype(dt), S.b.astype(dt), S.start().astype(dt)
    M = None if S.M is None else S.M.astype(dt)
    pre = (lambda v: v) if M is None else (lambda v: np.dot(M, v))
    r = b - np.dot(A, x)
    r0 = r.copy()
    p = r.copy()
    rho = np.dot(r0, r)
    pts, res, clean = [x.copy()], [r.copy()], True
    nr0 = float(np.sqrt(rho))
    for _ in range(steps):
        y = pre(p)
        v = np.dot(A, y)
        sigma = np.dot(r0, v)
        if tiny(sigma, nr0 * np.linalg.norm(v.astype(float))):
            clean = False
            break
        a = rho / sigma
        s = r - a * v
        pts.append(x + a * y)
        res.append(s.copy())
        if np.linalg.norm(s.astype(float)) < 1e-13 * nr0:
            break
        z = pre(s)
        t = np.dot(A, z)
        ts = np.dot(t, s)
        if tiny(ts, np.linalg.norm(t.astype(float)) * np.linalg.norm(s.astype(float))):
            clean = False
            break
        om = ts / np.dot(t, t)
        x = x + a * y + om * z
        r = s - om * t
        pts.append(x.copy())
        res.append(r.copy())
        new = np.dot(r0, r)
        if np.linalg.norm(r.astype(float)) < 1e-13 * nr0:
            break
        if tiny(new, nr0 * np.linalg.norm(r.astype(float))):
            clean = False
            break
        p = r + (new / rho) * (a / om) * (p - om * v)
        rho = new
    return pts, res, clean


def smooth(pts, res):
    """Quasi-minimal residual smoothing: points and quasi-residual norms."""
    out, taus = [], []
    X, W = None, 0.
    for x, r in zip(pts, res):
        w = 1. / max(float(np.dot(r, r)), 1e-300)
        X = x * w if X is None else X + x * w
        W += w
        out.append(X / W)
        taus.append(W ** -.5)
    return out, taus


def reference(kind, S, products):
    """(points, residuals, clean) of a double precision textbook run: entry k is the state after k products (not
    counting the one a guess costs)."""
    if kind == 'CG':
        xs, rs, _ = ref_cg(S, products)
        return xs, rs, len(xs) == products + 1
    if kind == 'BICGSTAB':
        return ref_bicgstab(S, (products + 1) // 2)
    pts, res, clean = ref_cgs(S, (products + 1) // 2)
    if kind == 'TFQMR':
        pts, _ = smooth(pts, res)
        R = np.cumsum([1. / max(float(np.dot(r, r)), 1e-300) for r in res])
        res = [v / w for v, w in zip(np.cumsum([r / max(float(np.dot(r, r)), 1e-300) for r in res], axis=0), R)]
    return pts, res, clean


def slack(kind, S, products):
    """How far recurred and true residuals drift apart in a textbook run, with a margin; whether that run was clean."""
    pts, res, clean = reference(kind, S, products)
    gap = big = 0.
    nx = 0.
    for x, r in zip(pts, res):
        gap = max(gap, float(np.linalg.norm(S.residual(x) - r)))
        nx = max(nx, float(np.linalg.norm(x)))
        big = max(big, float(np.linalg.norm(r)))
    if kind == 'TFQMR':
        p2, r2, _ = ref_cgs(S, (products + 1) // 2)
        for x, r in zip(p2, r2):
            nx = max(nx, float(np.linalg.norm(x)))
    if not np.isfinite(gap + big + nx):
        return np.inf, False
    return 100 * gap + 2e-14 * (products + 2) * (S.nrm * nx + big + np.linalg.norm(S.b)) * np.sqrt(S.n), clean


# ---------------------------------------------------------------- calling the solvers
def cls(kind):
    return {'CG': wl.CG, 'CGS': wl.CGS, 'TFQMR': wl.TFQMR, 'BICGSTAB': wl.BiCGSTAB, 'MINRES': wl.Minres, 'SYMMLQ': wl.Symmlq,
            'LSQR': wl.LSQRFramework, 'LSMR': wl.LSMRFramework, 'CRAIG': wl.CRAIGFramework, 'CRAIGMR': wl.CRAIGMRFramework}[kind]


def make(kind, op, precon=None, **kw):
    if precon is not None and kind not in LLS:
        kw['precon'] = precon
    return cls(kind)(op, **kw)


def budget_kw(kind, k):
    if k is None:
        return {}
    return {'matvec_max': k} if kind in SHORT + ('SYMMLQ',) else {'itnlim': k}


def solve(kind, solver, b, budget=None, guess=None, **kw):
    kw.update(budget_kw(kind, budget))
    if guess is not None:
        kw['guess'] = guess
    if kind == 'MINRES':
        kw.setdefault('show', False)
        kw.setdefault('check', False)
        kw.setdefault('etol', 0.)
    if kind in LLS:
        kw.setdefault('etol', 0.)
    solver.solve(b, **kw)
    return solver


SCALARS = {'CG': ('nMatvec', 'converged', 'definite', 'residNorm', 'residNorm0'),
           'CGS': ('nMatvec', 'converged', 'residNorm', 'residNorm0'),
           'TFQMR': ('nMatvec', 'converged', 'residNorm', 'residNorm0'),
           'BICGSTAB': ('nMatvec', 'converged', 'residNorm', 'residNorm0'),
           'MINRES': ('nMatvec', 'itn', 'istop', 'converged', 'residNorm', 'residNorm0', 'rnorm', 'Arnorm', 'Anorm', 'Acond', 'ynorm'),
           'SYMMLQ': ('nMatvec', 'itn', 'istop', 'converged', 'residNorm', 'residNorm0', 'acond', 'anorm', 'xNorm'),
           'LSQR': ('nMatvec', 'itn', 'istop', 'optimal', 'residNorm', 'r1norm', 'r2norm', 'Anorm', 'Acond', 'Arnorm', 'xnorm', 'status'),
           'LSMR': ('nMatvec', 'itn', 'istop', 'optimal', 'residNorm', 'r2norm', 'Anorm', 'Acond', 'Arnorm', 'xnorm', 'status'),
           'CRAIG': ('nMatvec', 'itn', 'istop', 'optimal', 'r1norm', 'r2norm', 'Arnorm', 'xnorm', 'status'),
           'CRAIGMR': ('nMatvec', 'itn', 'istop', 'optimal', 'status')}
LISTS = {'CG': ('residHistory', 'resids', 'iterates'), 'CGS': (), 'TFQMR': (), 'BICGSTAB': (),
         'MINRES': ('residHistory', 'iterates', 'dir_errors_window'), 'SYMMLQ': ('iterates',),
         'LSQR': ('resids', 'normal_eqns_resids', 'iterates', 'dir_errors_window'),
         'LSMR': ('resids', 'normal_eqns_resids', 'norms', 'iterates', 'dir_errors_window'),
         'CRAIG': ('resids', 'norms', 'iterates_p', 'iterates_d', 'dir_errors_d_window'),
         'CRAIGMR': ('norms', 'normal_eqns_resids', 'iterates', 'dir_errors_window')}
VECTORS = {'CRAIG': ('x', 'r')}


def snapshot(kind, s):
    """Everything a solver reports, copied."""
    d = {}
    for a in SCALARS[kind] + (('istop', 'itn') if kind in LLS else ()):
        d[a] = getattr(s, a, None)
    for a in VECTORS.get(kind, ('x',)) + ('bestSolution',):
        v = getattr(s, a, None)
        d[a] = None if v is None else np.array(v, copy=True)
    for a in LISTS[kind]:
        d[a] = [np.array(v, copy=True) for v in getattr(s, a)]
    for a in ('infiniteDescent', 'var'):
        v = getattr(s, a, None)
        d[a] = None if v is None else np.array(v, copy=True)
    return d
