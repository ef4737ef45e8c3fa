"""Helpers used by the check functions (PyPy side)."""
import random

import numpy as np

try:
    import pykrylov.linop as L
    from pykrylov.cg import CG
    from pykrylov.cgs import CGS
    from pykrylov.tfqmr import TFQMR
    from pykrylov.bicgstab import BiCGSTAB
    from pykrylov.minres import Minres
    from pykrylov.symmlq import Symmlq
    from pykrylov.lls import LSQRFramework, LSMRFramework, CRAIGFramework, CRAIGMRFramework
    import pykrylov.tools.utils as utils
    import pykrylov.gallery.gallery as gallery
    from _py2rt import div
except ImportError:       # CPython side: only the strategies are used there.
    L = None


class Fail(Exception):
    pass


class Skip(Exception):
    pass


class Harness(Exception):
    pass


class Runaway(BaseException):
    pass


def short(a):
    s = repr(np.asarray(a).tolist()) if isinstance(a, np.ndarray) else repr(a)
    return s if len(s) < 400 else s[:400] + '...'


class Ctx(object):
    def __init__(self):
        self.nontrivial = False
        self.labels = []
        self.known = []

    def nt(self):
        self.nontrivial = True

    def label(self, *ls):
        for l in ls:
            if l not in self.labels:
                self.labels.append(l)

    def ensure(self, cond, msg, *args):
        if not cond:
            raise Fail(msg % args if args else msg)

    def skip(self, why):
        raise Skip(why)

    def soft(self, cond, sig, msg):
        """A recorded finding, identified by its signature (listed in known_findings.txt)."""
        if not cond and sig not in self.known:
            self.known.append(sig)
        return cond

    def array(self, a, shape, what):
        """`a` must be an array of that shape with finite entries."""
        if not isinstance(a, np.ndarray):
            raise Fail('%s is %s, not an array' % (what, type(a).__name__))
        if a.shape != tuple(shape):
            raise Fail('%s has shape %s instead of %s' % (what, a.shape, tuple(shape)))
        if a.dtype.kind not in 'biufc':
            raise Fail('%s has type %s' % (what, a.dtype))
        if not np.all(np.isfinite(a)):
            raise Fail('%s is not finite: %s' % (what, short(a)))
        return a

    def close(self, got, want, tol, what):
        want = np.asarray(want)
        self.array(got, want.shape, what)
        err = float(np.max(np.abs(got - want))) if want.size else 0.0
        if not err <= tol:
            raise Fail('%s: got %s, expected %s (error %.3g, allowed %.3g)'
                       % (what, short(got), short(want), err, tol))

    def near(self, got, want, tol, what):
        """Scalars."""
        try:
            g = complex(got)
        except Exception:
            raise Fail('%s is %r, not a number' % (what, got))
        if not abs(g - want) <= tol:
            raise Fail('%s: got %r, expected %r (allowed error %.3g)' % (what, got, want, tol))

    def atmost(self, got, bound, what):
        try:
            ok = float(got) <= bound
        except Exception:
            raise Fail('%s is %r, not a number' % (what, got))
        if not ok:
            raise Fail('%s: %r exceeds %r' % (what, got, bound))

    def refuses(self, what, f, kinds=Exception):
        try:
            r = f()
        except kinds:
            return
        raise Fail('%s was not refused: got %s' % (what, short(r)))


class Rand(object):
    """The few RandomState methods needed (creating a RandomState costs 4 ms under PyPy)."""

    def __init__(self, seed):
        self.r = random.Random(int(seed))

    def _fill(self, f, shape):
        if shape is None:
            return f()
        if isinstance(shape, (int, np.integer)):
            return np.array([f() for _ in range(shape)])
        n = 1
        for k in shape:
            n *= k
        return np.array([f() for _ in range(n)]).reshape(shape)

    def randint(self, lo, hi, shape=None):
        g, w = self.r.random, hi - lo
        a = self._fill(lambda: lo + int(g() * w), shape)
        return a if shape is None else a.astype(np.int64)

    def uniform(self, lo=0., hi=1., shape=None):
        g = self.r.random
        a = self._fill(lambda: lo + (hi - lo) * g(), shape)
        return a if shape is None else a.astype(float)

    def randn(self, *shape):
        g = self.r.gauss
        a = self._fill(lambda: g(0., 1.), shape or None)
        return a if not shape else a.astype(float)

    def permutation(self, n):
        p = list(range(n))
        self.r.shuffle(p)
        return p

    def choice(self, seq):
        return seq[int(self.r.random() * len(seq))]


def rng(seed):
    return Rand(seed)


def seed_of(*parts):
    h = 1469598103934665603
    for p in parts:
        for ch in str(p):
            h = ((h ^ ord(ch)) * 1099511628211) % (2 ** 64)
    return h % (2 ** 32)


def ints(r, shape, lim=3):
    return r.randint(-lim, lim + 1, shape)


DT = {'i8': np.int64, 'f4': np.float32, 'f8': np.float64, 'c8': np.complex64, 'c16': np.complex128}


def int_matrix(seed, m, n, dt, lim=3):
    """Integer-valued matrix of numpy type DT[dt]."""
    r = rng(seed)
    A = ints(r, (m, n), lim)
    if dt[0] == 'c':
        A = A + 1j * ints(r, (m, n), lim)
    return A.astype(DT[dt])


def int_vector(seed, n, dt, lim=3):
    return int_matrix(seed, n, 1, dt, lim)[:, 0].copy()


def orth(r, m, n):
    """m x n with orthonormal columns."""
    Q, R = np.linalg.qr(r.randn(m, max(n, 1)))
    return Q[:, :n]


def with_spectrum(r, lam):
    lam = np.asarray(lam, float)
    Q = orth(r, len(lam), len(lam))
    A = np.dot(Q * lam, Q.T)
    return 0.5 * (A + A.T)


def spd(r, n, cond):
    if n == 1:
        return np.array([[float(np.exp(r.uniform(-.5, .5)))]])
    lam = np.exp(r.uniform(0, np.log(cond), n))
    lam[0], lam[-1] = 1.0, cond
    return with_spectrum(r, lam)


def with_singular_values(r, m, n, sv):
    k = len(sv)
    return np.dot(orth(r, m, k) * np.asarray(sv, float), orth(r, n, k).T)


class Counter(object):
    def __init__(self):
        self.n = 0
        self.t = 0
        self.log = None
