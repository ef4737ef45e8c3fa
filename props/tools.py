"""T01-T03: screening utilities, quadratic roots, Poisson gallery."""
from fractions import Fraction

import numpy as np
from vlib import wl
from vlib.check import Check
from vlib.spec import st_, seeds, size

CHECKS = {}


# ---------------------------------------------------------------- T01
T01_SYM = ('sym', 'spd', 'neg', 'zero', 'diag', 'rank1')
T01_UNS = ('skew', 'mixed', 'random', 'nilpotent', 'rotation', 'oneentry')
T01_PD = ('spd', 'spdcplx', 'spdskew', 'diagpos', 'ill')
T01_ND = ('neg', 'negdiag', 'negentries', 'zero', 'negskew')
T01_SEMI = ('zero', 'rank1', 'nonneg', 'psddiag')


def s_t01(tier):
    st = st_()

    @st.composite
    def case(draw):
        c = {'n': size(draw, st, 12, 60), 's': draw(seeds(st)), 'e': draw(st.sampled_from((0, 0, -8, 8, 20, 3, -60, 60))),
             'rep': draw(st.sampled_from((None, 1, 2, 3, 20))),
             'what': draw(st.sampled_from(('symmetric', 'unsymmetric', 'pd', 'notpd', 'semi', 'notsemi', 'nonsquare'))),
             'k': draw(st.integers(0, 50)), 'state': draw(seeds(st)), 'rel': draw(st.sampled_from((1., .1, .01)))}
        c['m'] = c['n'] + draw(st.integers(1, 3)) * draw(st.sampled_from((1, -1)))
        return c
    return case()


def t01_matrix(kind, n, r, rel):
    if kind in ('sym', 'random'):
        G = r.randn(n, n)
        return G + G.T if kind == 'sym' else G
    if kind in ('spd', 'ill'):
        return wl.spd(r, n, 20. if kind == 'spd' else 1e6)
    if kind == 'neg':
        return -wl.spd(r, n, 20.)
    if kind in ('spdskew', 'negskew'):
        G = r.randn(n, n)
        A = wl.spd(r, n, 20.) + G - G.T
        return A if kind == 'spdskew' else -A
    if kind == 'spdcplx':
        G = r.randn(n, n) + 1j * r.randn(n, n)
        return np.dot(G, G.conj().T) + np.eye(n)
    if kind == 'zero':
        return np.zeros((n, n))
    if kind == 'diag':
        return np.diag(r.randn(n))
    if kind in ('diagpos', 'negdiag'):
        return np.diag(r.uniform(.1, 2., n)) * (1. if kind == 'diagpos' else -1.)
    if kind == 'psddiag':
        d = r.uniform(.1, 2., n)
        d[::2] = 0.
        return np.diag(d)
    if kind == 'rank1':
        v = r.uniform(0., 1., n)
        return np.outer(v, v)
    if kind in ('nonneg', 'negentries'):
        G = r.uniform(.1, 1., (n, n))
        return G + G.T if kind == 'nonneg' else -(G + G.T)
    if kind == 'skew':
        G = r.randn(n, n)
        return G - G.T
    if kind == 'mixed':
        S, G = r.randn(n, n), r.randn(n, n)
        S, G = S + S.T, G - G.T
        return S + rel * np.linalg.norm(S) / max(np.linalg.norm(G), 1e-8) * G
    if kind == 'nilpotent':
        return np.triu(r.randn(n, n), 1)
    if kind == 'rotation':
        return np.roll(np.eye(n), 1, axis=0) if n > 2 else np.array([[0., 1.], [-1., 0.]])
    if kind == 'oneentry':
        S = wl.spd(r, n, 5.)
        i, j = r.permutation(n)[:2]
        S[i, j] += .5
        return S
    raise wl.Harness(kind)


def c_t01(c, ctx):
    L, U = wl.L, wl.utils
    n, r, what = c['n'], wl.rng(c['s']), c['what']
    kw = {} if c['rep'] is None else {'repeats': c['rep']}
    if what == 'nonsquare':
        m = c['m']
        if m < 1:
            m = n + 1
        A = r.randn(m, n)
        kind = 'nonsquare'
    else:
        kinds = {'symmetric': T01_SYM, 'unsymmetric': T01_UNS, 'pd': T01_PD, 'notpd': T01_ND, 'semi': T01_SEMI + T01_PD,
                 'notsemi': ('neg', 'negdiag', 'negentries', 'negskew')}[what]
        kind = kinds[c['k'] % len(kinds)]
        if what == 'unsymmetric':
            n = max(n, 2)
            if kw.get('repeats', 10) < 3:
                kw['repeats'] = 3
        A = t01_matrix(kind, n, r, c['rel'])
        if what == 'unsymmetric' and np.linalg.norm(A - A.T) < 5e-3 * np.linalg.norm(A):
            ctx.skip('nearly symmetric')
    A = A * 10. ** (c['e'] / 4)
    op = L.LinearOperator(A.shape[1], A.shape[0], lambda v: np.dot(A, v), dtype=A.dtype)
    np.random.seed(c['state'] % (2 ** 31))
    if what in ('symmetric', 'unsymmetric', 'nonsquare'):
        want = what == 'symmetric'
        got = U.check_symmetric(op, **kw)
        ctx.ensure(bool(got) == want, 'check_symmetric says %r of a %s operator', got, kind)
    if what in ('pd', 'notpd', 'nonsquare'):
        want = what == 'pd'
        got = U.check_positive_definite(op, **kw)
        ctx.ensure(bool(got) == want, 'check_positive_definite says %r of a %s operator', got, kind)
    if what in ('semi', 'notsemi', 'nonsquare'):
        want = what == 'semi'
        got = U.check_positive_definite(op, semi=True, **kw)
        ctx.ensure(bool(got) == want, 'check_positive_definite(semi=True) says %r of a %s operator', got, kind)
    if A.size > 1:
        ctx.nt()
    ctx.label(what + ' ' + kind)


CHECKS['T01'] = Check(s_t01, c_t01, 14000, 300000,
    'matrices of size 1-12 of nineteen kinds at magnitudes 1e-2 to 1e5, for which the right verdict follows from how they are built, with random probe counts and random-generator states; non-trivial: more than one entry',
    ['an unsymmetric operator is called clear when its skew part is at least 0.5 % of it'])


# ---------------------------------------------------------------- T02
def s_t02(tier):
    st = st_()

    @st.composite
    def case(draw):
        def num():
            k = draw(st.integers(0, 9))
            if k == 0:
                return 0.
            if k <= 3:
                return float(draw(st.integers(-9, 9)))
            return draw(st.integers(-9999, 9999)) / 1000. * 10. ** draw(st.integers(-8, 8))
        mode = draw(st.sampled_from(('coef', 'coef', 'roots', 'roots', 'linear', 'near', 'double')))
        c = {'mode': mode, 'nit': draw(st.sampled_from((None, 0, 1, 2, 3, 4))), 'tol': draw(st.sampled_from((None, None, None, 1e-8, 1e-10, 0.))),
             'as': draw(st.sampled_from(('float', 'np', 'int')))}
        if mode == 'linear':
            c['q'] = [0., num(), num()]
        elif mode == 'double':
            # Everything is exact in floating point.
            a, x, f = draw(st.integers(1, 40)) * draw(st.sampled_from((1, -1))), draw(st.integers(-60, 60)), draw(st.integers(-12, 12))
            c['q'] = [a * 2. ** f, -2. * a * x * 2. ** f, a * x * x * 2. ** f]
        elif mode == 'coef':
            c['q'] = [num(), num(), num()]
        elif mode == 'roots':
            a, x, y = num(), num(), num()
            c['q'] = [a, -a * (x + y), a * x * y]
        else:
            a, x, d = num(), num(), draw(st.sampled_from((1e-1, 1e-2, 1e-3, -1e-1, -1e-2)))
            if d > 0:
                c['q'] = [a, -a * x * (2 + d), a * x * x * (1 + d)]
            else:
                c['q'] = [a, -2 * a * x, a * x * x * (1 - d)]
        return c
    return case()


def c_t02(c, ctx):
    q2, q1, q0 = c['q']
    if c['as'] == 'np':
        args = [np.float64(v) for v in c['q']]
    elif c['as'] == 'int' and all(v == int(v) and abs(v) < 1e15 for v in c['q']):
        args = [int(v) for v in c['q']]
    else:
        args = list(c['q'])
    kw = {}
    if c['nit'] is not None:
        kw['nitref'] = c['nit']
    if c['tol'] is not None:
        kw['tol'] = c['tol']
    roots = wl.utils.roots_quadratic(*args, **kw)
    ctx.ensure(isinstance(roots, (list, tuple)), 'the result is %r', roots)
    for x in roots:
        ctx.ensure(isinstance(x, (float, np.floating)) and np.isfinite(x), 'root %r is not a finite real number', x)
    a2, a1, a0 = [Fraction(v) for v in c['q']]
    if a2 == 0:
        want = [0.] if a1 == 0 == a0 else [] if a1 == 0 else None
        if want is None:
            ctx.ensure(len(roots) == 1, '%d roots %r of a linear equation', len(roots), roots)
            x = Fraction(float(roots[0]))
            ctx.ensure(abs(a1 * x + a0) <= Fraction(1e-12) * (abs(a1 * x) + abs(a0)), 'root %r of %r', roots[0], c['q'])
            ctx.label('linear')
        else:
            ctx.ensure(list(roots) == want, 'roots %r of a constant %r', roots, q0)
            ctx.label('constant')
        ctx.nt()
        return
    disc = a1 * a1 - 4 * a2 * a0
    size = a1 * a1 + 4 * abs(a2 * a0)
    clear = abs(disc) > Fraction(1e-7) * size
    if clear:
        ctx.ensure(len(roots) == (2 if disc > 0 else 0), '%d roots %r where the discriminant is %g', len(roots), roots, float(disc))
        ctx.label('two roots' if disc > 0 else 'no root')
        ctx.nt()
    else:
        ctx.label('discriminant near zero')
    if c['mode'] == 'double':
        ctx.ensure(1 <= len(roots) <= 2, 'roots %r of %r, which has a double root', roots, c['q'])
        ctx.label('double root')
        ctx.nt()
    for xf in roots:
        x = Fraction(float(xf))
        val = abs((a2 * x + a1) * x + a0)
        scale = abs(a2 * x * x) + abs(a1 * x) + abs(a0)
        if c['nit'] == 0:
            scale += a1 * a1 / abs(a2)
        ctx.ensure(val <= Fraction(1e-7) * scale, '%r is no root of %r: relative residual %.3g', xf, c['q'], float(val / scale) if scale else 0.)
    if clear and disc > 0 and abs(disc) > Fraction(1e-2) * size and c['nit'] != 0:
        x, y = Fraction(float(roots[0])), Fraction(float(roots[1]))
        ctx.ensure(abs(x + y + a1 / a2) <= Fraction(1e-6) * (abs(x) + abs(y)), 'roots %r of %r: their sum is wrong', roots, c['q'])
        ctx.ensure(abs(x * y - a0 / a2) <= Fraction(1e-6) * abs(a0 / a2), 'roots %r of %r: their product is wrong', roots, c['q'])
        ctx.label('separated')


CHECKS['T02'] = Check(s_t02, c_t02, 28000, 700000,
    'coefficients over 16 orders of magnitude drawn directly or from chosen (equal, close, far apart) roots, refinement counts 0-4; evaluated in rational arithmetic; non-trivial: the required number of roots is determined (linear, constant, exact double root, or discriminant away from zero)',
    ['with refinement switched off the residual of a root is measured relative to the scaled polynomial (the method replaces the small root of an ill-conditioned polynomial by zero and relies on refinement)'])


# ---------------------------------------------------------------- T03
def s_t03(tier):
    st = st_()

    @st.composite
    def case(draw):
        two = draw(st.booleans())
        return {'d': 2 if two else 1, 'n': size(draw, st, 9 if tier == 'quick' else 14, 70) if two else size(draw, st, 60, 5000),
                'dt': draw(st.sampled_from(('f8', 'f8', 'i8', 'c16', 'f4'))), 'lay': draw(st.sampled_from(('plain', 'view', 'ro'))),
                's': draw(seeds(st)), 'unit': draw(st.integers(-3, 60)), 'wrap': draw(st.booleans())}
    return case()


def laplace(x, n, d):
    """The differences along every line of the grid."""
    X = x.reshape((n,) * d).astype(complex if x.dtype.kind == 'c' else float)
    Y = np.zeros(X.shape, X.dtype)
    for k in range(d):
        P = np.pad(X, [(1, 1) if j == k else (0, 0) for j in range(d)], mode='constant')
        Y += 2 * X - np.take(P, range(n), k) - np.take(P, range(2, n + 2), k)
    return Y.ravel()


def c_t03(c, ctx):
    n = c['n']
    N = n ** c['d']
    if c['unit'] >= 0:
        x = np.zeros(N, wl.DT[c['dt']])
        x[c['unit'] % N] = 1
    else:
        x = wl.int_vector(c['s'], N, c['dt'])
    if c['lay'] == 'view':
        big = np.zeros(2 * N + 1, x.dtype)
        big[1::2] = x
        x = big[1::2]
    keep = x.copy()
    if c['lay'] == 'ro':
        x.flags.writeable = False
    f = wl.gallery.Poisson1dMatvec if c['d'] == 1 else wl.gallery.Poisson2dMatvec
    if c['wrap']:
        y = wl.L.LinearOperator(N, N, f, symmetric=True) * x
    else:
        y = f(x)
        ctx.ensure(y.dtype == x.dtype, 'type %s of the product with a %s vector', y.dtype, x.dtype)
    ctx.close(y, laplace(keep, n, c['d']), 1e-10, '%dD Poisson product' % c['d'])
    ctx.ensure(np.array_equal(x, keep), 'the argument was changed')
    y[:] = 7
    ctx.ensure(np.array_equal(x, keep), 'the product shares memory with the argument')
    if N > 1 and np.any(keep):
        ctx.nt()
    ctx.label('%dD' % c['d'])


CHECKS['T03'] = Check(s_t03, c_t03, 14000, 150000,
    'unit and random integer vectors of four types on 1D sizes 1-60 and 2D grids up to 9x9 (thorough 14x14), now and then to 70x70 and 5000, compared with differences along the lines of the grid; non-trivial: more than one unknown and a nonzero vector',
    [])
