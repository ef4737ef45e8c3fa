"""L01-L07, L11: linear operators against exact dense algebra."""
import numpy as np
from vlib import wl, spec
from vlib.check import Check
from vlib.spec import st_, seeds, size, draw_leaf, draw_expr, build, act, act_all, dense, unchanged, need, Node, wide
from vlib.wl import DT, int_matrix, int_vector

CHECKS = {}
INTEGER = 'entries are small integers (exact in every type), so comparisons are exact up to a rounding allowance for divisions and single precision'


# ---------------------------------------------------------------- L01
def s_l01(tier):
    st = st_()
    big = tier == 'thorough'

    @st.composite
    def case(draw):
        m, n = size(draw, st, 5 if big else 4), size(draw, st, 5 if big else 4)
        depth = draw(st.integers(1, 5 if big else 4))
        dts = draw(st.sampled_from((None, None, ('f8', 'i8'), ('c16',), ('c16', 'f8'))))
        return {'e': draw_expr(draw, st, m, n, depth, dts, 1), 's': draw(seeds(st))}
    return case()


def c_l01(c, ctx):
    nd = build(c['e'])
    ctx.ensure(nd.op is not None, 'the expression gives no operator')
    if nd.bound.size and nd.bound.max() > 1e12:
        ctx.skip('entries too large for exact arithmetic')
    m, n = nd.A.shape
    ctx.ensure(tuple(nd.op.shape) == (m, n) and nd.op.nargin == n and nd.op.nargout == m,
               'shape %s (nargin %s, nargout %s) instead of %s', nd.op.shape, nd.op.nargin, nd.op.nargout, (m, n))
    act_all(ctx, nd, c['s'], '', ('f8', 'c16', 'i8'))
    dense(ctx, nd)
    t = Node(nd.op.T, nd.A.T, nd.bound.T, nd.single)
    dense(ctx, t, 'T.')
    unchanged(ctx, nd, c['s'])
    if nd.nops >= 2 and np.any(nd.A):
        ctx.nt()
    ctx.label('complex' if nd.A.dtype.kind == 'c' else 'real')


CHECKS['L01'] = Check(s_l01, c_l01, 4200, 90000,
    'random operator expressions (depth up to 4 quick, 5 thorough) over leaves of every kind; non-trivial: at least two operations and a nonzero matrix',
    [INTEGER])


# ---------------------------------------------------------------- L02
def s_l02(tier):
    st = st_()

    @st.composite
    def case(draw):
        how = draw(st.sampled_from(('direct', 'expr')))
        chain = draw(st.lists(st.sampled_from('THc'), min_size=1, max_size=4))
        touch = draw(st.lists(st.sampled_from('THc'), max_size=3))
        c = {'chain': ''.join(chain), 'touch': ''.join(touch), 's': draw(seeds(st))}
        if how == 'expr':
            m = size(draw, st, 3)
            n = draw(st.sampled_from((m, 1, 2, 3)))
            c['e'] = draw_expr(draw, st, m, n, draw(st.integers(0, 2)), draw(st.sampled_from((None, ('c16',)))), 1)
        else:
            dt = draw(st.sampled_from(('c16', 'c16', 'f8', 'c8', 'i8')))
            flags = draw(st.sampled_from(('', '', 's', 'h')))
            n = size(draw, st, 4)
            m = n if flags else size(draw, st, 4)
            c['d'] = {'m': m, 'n': n, 'dt': dt, 'flags': flags, 'both': draw(st.booleans()),
                      'sup': draw(st.sampled_from(('T', 'H', 'TH', '')))}
        return c
    return case()


def follow(op, step):
    return op.T if step == 'T' else op.H if step == 'H' else op.bar


def mfollow(A, step):
    return A.T if step == 'T' else A.conj().T if step == 'H' else A.conj()


def c_l02(c, ctx):
    absent_ok = False
    if 'd' in c:
        d = c['d']
        A = int_matrix(c['s'], d['m'], d['n'], d['dt'])
        kw = spec.closures(A, d['sup'])
        if d['flags']:
            A = spec.symmetrise(A, d['flags'])
            kw = spec.closures(A, d['sup'])
            if d['dt'][0] == 'c':
                kw['symmetric' if d['flags'] == 's' else 'hermitian'] = True
            elif d['both']:
                kw['symmetric'] = kw['hermitian'] = True
            else:
                kw['symmetric' if d['flags'] == 's' else 'hermitian'] = True
        op = wl.L.LinearOperator(d['n'], d['m'], lambda x: np.dot(A, x), dtype=A.dtype, **kw)
        nd = spec.leaf(op, A, {'dt': d['dt'], 'k': 'mat'})
        absent_ok = not d['sup'] and not d['flags']
        ctx.label('supplied:' + (d['sup'] or '-'), 'flag:' + (d['flags'] or '-'))
    else:
        nd = build(c['e'])
    A = nd.A
    if nd.bound.size and nd.bound.max() > 1e9:
        ctx.skip('entries too large for exact arithmetic')
    for t in c['touch']:
        follow(nd.op, t)
    op, B, done = nd.op, A, ''
    before = [(nd.op, A)]
    for step in c['chain']:
        nxt = follow(op, step)
        done += '.' + {'c': 'bar'}.get(step, step)
        if nxt is None:
            ctx.ensure(absent_ok, 'A%s is absent although it can be inferred', done)
            ctx.label('absent')
            break
        B = mfollow(B, step)
        op = nxt
        before.append((op, B))
    for i, (o, M) in enumerate(before):
        what = 'A' + ''.join('.' + {'c': 'bar'}.get(s, s) for s in c['chain'][:i])
        bd = np.abs(M)
        x = int_vector(c['s'] + i, M.shape[1], 'c16')
        act(ctx, nd, o, M, bd, x, what + ' * complex x')
        act(ctx, nd, o, M, bd, int_vector(c['s'] + i + 1, M.shape[1], 'f8'), what + ' * real x')
        for attr, W in (('T', M.T), ('H', M.conj().T)):
            o2 = getattr(o, attr)
            if o2 is None:
                ctx.ensure(absent_ok, '%s.%s is absent although it can be inferred', what, attr)
                continue
            y = int_vector(c['s'] + i + 2, M.shape[0], 'c16')
            act(ctx, nd, o2, W, np.abs(W), y, what + '.' + attr + ' * y')
            # <A x, y> = <x, A^H y>  and  (A x).y = x.(A^T y)
            Ax, Ty = o * x, o2 * y
            if attr == 'H':
                ctx.near(np.vdot(y, Ax), np.vdot(Ty, x), nd.tol(1e3 * (1 + bd.sum())), what + ': <y, A x> and <A^H y, x>')
            else:
                ctx.near(np.dot(y, Ax), np.dot(Ty, x), nd.tol(1e3 * (1 + bd.sum())), what + ': y.(A x) and x.(A^T y)')
        if o.H is not None:
            y = int_vector(c['s'] + i + 4, M.shape[0], 'c16')
            ctx.close(o.rmatvec(y), np.dot(M.conj().T, y), nd.tol(1e3 * (1 + bd.sum())), what + '.rmatvec(y)')
        if o.symmetric:
            ctx.ensure(o.T is o, '%s is declared symmetric but is not its own transpose', what)
            ctx.close(M, M.T, 1e-9 * (1 + bd.max()), what + ' is flagged symmetric: its matrix')
        if o.hermitian:
            ctx.ensure(o.H is o, '%s is declared Hermitian but is not its own adjoint', what)
            ctx.close(M, M.conj().T, 1e-9 * (1 + bd.max()), what + ' is flagged Hermitian: its matrix')
    if len(before) >= 2 and np.any(A):
        ctx.nt()


CHECKS['L02'] = Check(s_l02, c_l02, 5600, 120000,
    'random chains (length 1-4) of transpose, adjoint, conjugate on operators with each choice of supplied products and flags, and on expressions, after reading properties in a random order; every intermediate operator is checked; non-trivial: nonzero matrix and at least one link present',
    [INTEGER])


# ---------------------------------------------------------------- L03
VDT = ('f8', 'c16', 'i8', 'f4', 'c8')


def s_l03(tier):
    st = st_()

    @st.composite
    def case(draw):
        m = size(draw, st, 5)
        n = m if draw(st.booleans()) else size(draw, st, 5)
        e = draw_expr(draw, st, m, n, draw(st.sampled_from((0, 0, 1, 2))), None, 1)
        return {'e': e, 's': draw(seeds(st)), 'xdt': draw(st.sampled_from(VDT)), 'side': draw(st.sampled_from('NNTH')),
                'wrong': draw(st.sampled_from((-1, 1, 2, -2, 'one', 'double', 'zero', 'out'))),
                'junk': draw(st.sampled_from(('none', 'list', 'tuple', 'dict', 'object')))}
    return case()


def c_l03(c, ctx):
    nd = build(c['e'])
    if nd.bound.size and nd.bound.max() > 1e9:
        ctx.skip('entries too large for exact arithmetic')
    op, A, B = nd.op, nd.A, nd.bound
    if c['side'] == 'T':
        op, A, B = need(op.T, 'transpose'), A.T, B.T
    elif c['side'] == 'H':
        op, A, B = need(op.H, 'adjoint'), A.conj().T, B.T
    m, n = A.shape
    x = int_vector(c['s'], n, c['xdt'])
    x0 = x.copy()
    want = np.dot(A, wide(x))
    xb = float(np.max(np.dot(B, np.abs(x)))) if n else 0
    tol = (2e-4 if nd.single or c['xdt'] in ('f4', 'c8') else 1e-11) * (1 + xb)
    y = op * x
    ctx.close(y, want, tol, 'A*x')
    rt = np.result_type(op.dtype, x.dtype)
    ctx.ensure(y.dtype == rt, 'product of type %s with %s has type %s, not %s', op.dtype, x.dtype, y.dtype, rt)
    ctx.ensure(np.array_equal(x, x0) and x.dtype == DT[c['xdt']], 'the product changed the vector')
    ctx.ensure(y is not x and not np.shares_memory(y, x), 'the product shares memory with the vector')
    z = op(x)
    ctx.close(z, want, tol, 'A(x)')
    ctx.ensure(z.dtype == rt, 'A(x) has type %s, not %s', z.dtype, rt)
    ctx.ensure(not np.shares_memory(y, z), 'two products share memory')
    y[...] = 77
    ctx.ensure(np.array_equal(x, x0), 'writing to the product changed the vector')
    x[...] = 5
    ctx.close(z, want, tol, 'A(x) after x changed')
    ctx.close(op * x0, want, tol, 'A*x after writing to an earlier product')
    # A strided vector is as good as a contiguous one.
    w = np.zeros(2 * n, x0.dtype)
    w[::2] = x0
    ctx.close(op * w[::2], want, tol, 'A * strided x')
    ctx.close(op * x0[::-1][::-1], want, tol, 'A * reversed view')
    # Wrong lengths.
    k = {'one': 1, 'double': 2 * n, 'zero': 0, 'out': m}.get(c['wrong'])
    if k is None:
        k = n + c['wrong']
    if k >= 0 and k != n:
        bad = int_vector(c['s'], k, c['xdt'])
        ctx.refuses('a vector of length %d for an operator with %d columns' % (k, n), lambda: op * bad)
        ctx.refuses('a vector of length %d in a call of an operator with %d columns' % (k, n), lambda: op(bad))
        ctx.label('wrong length')
    junk = {'none': None, 'list': [1.0] * n, 'tuple': (1.0,) * n, 'dict': {}, 'object': object()}[c['junk']]
    ctx.refuses('%s as operand' % c['junk'], lambda: op * junk)
    ctx.close(op * x0, want, tol, 'A*x after refused operands')
    if np.any(want):
        ctx.nt()
    ctx.label('x:' + c['xdt'], 'kind:' + c['e'].get('k', c['e'].get('o')))


CHECKS['L03'] = Check(s_l03, c_l03, 5600, 110000,
    'operators of every kind and small expressions of them, times vectors of five types, plus a wrong-length vector and a non-vector operand; non-trivial: nonzero product',
    [INTEGER])


# ---------------------------------------------------------------- L04
COMPOSITES = ('sum', 'diff', 'prod', 'scal', 'neg', 'pow2', 'pow3', 'div', 'redu', 'blk', 'bd', 'tt', 'bprec', 'bdprec', 'sredu', 'mulrow')


def s_l04(tier):
    st = st_()

    @st.composite
    def case(draw):
        n = size(draw, st, 3, 20)
        c = {'n': n, 'm': size(draw, st, 3, 20), 's': draw(seeds(st)),
             'comp': draw(st.lists(st.sampled_from(COMPOSITES), min_size=1, max_size=3)),
             'sq': draw(st.sampled_from(('sym', 'gen', 'diag', 'eye')))}
        step = st.tuples(st.integers(0, 5), st.sampled_from(('mul', 'mul', 'call', 'Tmul', 'Hmul', 'array', 'reset', 'Treset',
                                                             'look', 'build', 'bad', 'rmat', 'solve')))
        c['h'] = [list(x) for x in draw(st.lists(step, min_size=1, max_size=20 if tier == 'quick' else 40))]
        return c
    return case()


class Cnt(object):
    """Model of an operator: how a product in mode N, T or H is delegated to its parts."""

    def __init__(self, op, parts):
        self.op = op
        self.parts = parts          # [(Cnt, transposed?)]
        self.c = {'N': 0, 'T': 0, 'H': 0}
        # Modes that are one and the same operator share a counter.
        self.key = {'N': 'N'}
        self.key['T'] = 'N' if op.T is op else 'T'
        self.key['H'] = 'N' if op.H is op else self.key['T'] if op.H is op.T else 'H'

    def product(self, mode):
        mode = self.key[mode]
        self.c[mode] += 1
        for p, flip in self.parts:
            p.product(('T' if mode == 'N' else 'N') if flip else mode)

    def reset(self, mode):
        self.c[self.key[mode]] = 0

    def check(self, ctx, what):
        for mode, o in (('N', self.op), ('T', self.op.T), ('H', self.op.H)):
            want = self.c[self.key[mode]]
            ctx.ensure(o.nMatvec == want, '%s%s counts %r products instead of %r',
                       what, {'N': '', 'T': ', transposed,', 'H': ', adjoint,'}[mode], o.nMatvec, want)


def c_l04(c, ctx):
    L = wl.L
    n, m = c['n'], c['m']
    A = int_matrix(c['s'], m, n, 'f8')
    A2 = int_matrix(c['s'] + 1, m, n, 'f8')
    S = spec.symmetrise(int_matrix(c['s'] + 2, n, n, 'f8'), 's')
    G = int_matrix(c['s'] + 3, n, n, 'f8')
    mk = lambda M, **kw: L.LinearOperator(M.shape[1], M.shape[0], lambda x: np.dot(M, x),
                                          matvec_transp=lambda y: np.dot(M.T, y), **kw)
    a = Cnt(mk(A), [])
    a2 = Cnt(mk(A2), [])
    if c['sq'] == 'sym':
        q = Cnt(mk(S, symmetric=True, hermitian=True), [])
    elif c['sq'] == 'gen':
        q = Cnt(mk(G), [])
    elif c['sq'] == 'diag':
        q = Cnt(L.DiagonalOperator(np.diag(S).copy()), [])
    else:
        q = Cnt(L.IdentityOperator(n), [])
    nodes = [a, a2, q]

    def make(kind):
        if kind == 'sum':
            return Cnt(a.op + a2.op, [(a, 0), (a2, 0)])
        if kind == 'diff':
            return Cnt(a.op - a2.op, [(a, 0), (a2, 0)])
        if kind == 'prod':
            return Cnt(a.op * q.op, [(q, 0), (a, 0)])
        if kind == 'scal':
            return Cnt(2.5 * a.op, [(a, 0)])
        if kind == 'neg':
            return Cnt(-q.op, [(q, 0)])
        if kind == 'pow2':
            return Cnt(q.op ** 2, [(q, 0)] * 2)
        if kind == 'pow3':
            return Cnt(q.op ** 3, [(q, 0)] * 3)
        if kind == 'div':
            return Cnt(q.op / 2, [(q, 0)])
        if kind == 'redu':
            return Cnt(L.ReducedLinearOperator(a.op, list(range(m)), list(range(n))), [(a, 0)])
        if kind == 'blk':
            return Cnt(L.BlockLinearOperator([[a.op], [a2.op]]), [(a, 0), (a2, 0)])
        if kind == 'bd':
            return Cnt(L.BlockDiagonalLinearOperator([a.op, q.op]), [(a, 0), (q, 0)])
        if kind == 'bprec':
            return Cnt(L.BlockPreconditioner([[a.op], [a2.op]]), [(a, 0), (a2, 0)])
        if kind == 'bdprec':
            return Cnt(L.BlockDiagonalPreconditioner([q.op, a.op]), [(q, 0), (a, 0)])
        if kind == 'sredu':
            return Cnt(L.SymmetricallyReducedLinearOperator(q.op, list(range(n))), [(q, 0)])
        if kind == 'mulrow':
            return Cnt(L.BlockLinearOperator([[a.op, a2.op, a.op]]), [(a, 0), (a2, 0), (a, 0)])
        return Cnt(a.op.T * a2.op, [(a2, 0), (a, 1)])
    for k in c['comp']:
        nodes.append(make(k))

    def verify(after):
        for i, nd in enumerate(nodes):
            nd.check(ctx, 'operator %d (%s) after %s' % (i, 'a a2 q'.split()[i] if i < 3 else c['comp'][i - 3], after))
    verify('building')
    v = lambda k: int_vector(c['s'] + k, k, 'f8')
    work = 0
    for w, what in c['h']:
        nd = nodes[w % len(nodes)]
        op = nd.op
        if what == 'mul':
            op * v(op.shape[1])
            nd.product('N')
        elif what == 'call':
            op(v(op.shape[1]))
            nd.product('N')
        elif what == 'solve':
            if not hasattr(op, 'solve'):
                continue
            op.solve(v(op.shape[1]))
            nd.product('N')
        elif what == 'rmat':
            op.rmatvec(v(op.shape[0]))
            nd.product('H')
        elif what in ('Tmul', 'Hmul'):
            (op.T if what == 'Tmul' else op.H) * v(op.shape[0])
            nd.product(what[0])
        elif what == 'array':
            op.to_array()
            for _ in range(op.shape[1]):
                nd.product('N')
        elif what == 'reset':
            op.reset_counters()
            nd.reset('N')
        elif what == 'Treset':
            op.T.reset_counters()
            nd.reset('T')
        elif what == 'look':
            (op.T, op.H, op.bar, op.shape, op.dtype, repr(op), op.symmetric, op.nargin)
        elif what == 'build':
            (op + op, 2 * op, -op, op.T * op, op - op, op / 4)
        elif what == 'bad':
            ctx.refuses('an operator of the wrong shape', lambda: op + L.ZeroOperator(op.shape[1] + 1, op.shape[0]))
        work += what in ('mul', 'call', 'rmat', 'solve', 'Tmul', 'Hmul', 'array')
        verify(what)
    if work >= 2:
        ctx.nt()


CHECKS['L04'] = Check(s_l04, c_l04, 2800, 60000,
    'histories of up to 20 (thorough 40) products, calls, dense conversions, resets, look-ups and constructions over three operators and one to three composites of them, counters of every operator and transpose compared with a delegation model after every step; non-trivial: at least two products')


# ---------------------------------------------------------------- L05
def s_l05(tier):
    st = st_()

    @st.composite
    def case(draw):
        k = draw(st.sampled_from(('eye', 'zero', 'diag', 'coord', 'coord', 'coord', 'csym', 'csym', 'arr', 'asym', 'pys', 'pys', 'chol', 'mat')))
        dt = draw(st.sampled_from(('f8', 'c16', 'i8', 'f4', 'c8')))
        lim = 9 if tier == 'quick' else 14
        c = {'k': k, 'dt': dt, 'm': size(draw, st, lim), 'n': size(draw, st, lim), 's': draw(seeds(st))}
        if k in ('coord', 'csym'):
            c['nnz'] = size(draw, st, 20, 150, 12)
            c['size'] = draw(st.sampled_from(('given', 'given', 'infer', 'infer_in', 'infer_out')))
            c['tri'] = draw(st.sampled_from(('u', 'l', 'mix')))
            c['idt'] = draw(st.sampled_from(('i8', 'i4')))
        if k == 'asym':
            c['flag'] = draw(st.sampled_from(('s', 'h', 'sdef')))
        if k == 'pys':
            c['api'] = draw(st.sampled_from(('mul', 'matvec')))
            c['sym'] = draw(st.booleans())
            c['issym'] = draw(st.sampled_from(('attr', 'method')))
        return c
    return case()


class SparseMul(object):
    """Stand-in for a Pysparse matrix with operators."""
    __array_ufunc__ = None

    def __init__(self, A, sym, how):
        self.M = A
        self.shape = A.shape
        if how == 'attr':
            self.issym = sym
        else:
            self.isSymmetric = lambda: sym

    def __mul__(self, x):
        return np.dot(self.M, x)

    def __rmul__(self, y):
        return np.dot(y, self.M)


class SparseLL(object):
    """Stand-in for a low-level Pysparse matrix."""

    def __init__(self, A, sym, how):
        self.M = A
        self.shape = A.shape
        if how == 'attr':
            self.issym = sym
        else:
            self.isSymmetric = lambda: sym

    def matvec(self, x, y):
        y[:] = np.dot(self.M, x)

    def matvec_transp(self, x, y):
        y[:] = np.dot(self.M.T, x)


def cholesky_module():
    import sys
    import types
    if 'scikits.sparse.cholmod' not in sys.modules:
        top, mid, mod = types.ModuleType('scikits'), types.ModuleType('scikits.sparse'), types.ModuleType('scikits.sparse.cholmod')

        def cholesky(A):
            Li = np.linalg.inv(np.linalg.cholesky(A))
            return lambda b: np.dot(Li.T, np.dot(Li, b))
        mod.cholesky = cholesky
        top.sparse, mid.cholmod = mid, mod
        sys.modules.update({'scikits': top, 'scikits.sparse': mid, 'scikits.sparse.cholmod': mod})
    import importlib
    return importlib.import_module('pykrylov.linop.cholesky')


def redundant(s, **kw):
    """Keywords that the class decides itself and must not be led astray by."""
    r = wl.rng(s + 77)
    return dict((k, v) for k, v in sorted(kw.items()) if r.uniform() < .2)


def c_l05(c, ctx):
    L = wl.L
    k, m, n, dt, s = c['k'], c['m'], c['n'], c['dt'], c['s']
    vdts = ('f8', 'c16')
    sym = herm = None       # None: whatever is true
    if k == 'eye':
        op, A = L.IdentityOperator(n, dtype=DT[dt], **redundant(s, symmetric=False, matvec=lambda x: 3 * x)), np.eye(n)
        sym = herm = True
    elif k == 'zero':
        op = L.ZeroOperator(n, m, dtype=DT[dt], **redundant(s, matvec=lambda x: np.ones(m), matvec_transp=lambda x: np.ones(n)))
        A = np.zeros((m, n))
        if m == n:
            sym = True
    elif k == 'diag':
        d = int_vector(s, n, dt)
        kw = redundant(s, symmetric=False, hermitian=True, matvec=lambda x: 3 * x, matvec_adj=lambda x: 3 * x, dtype=np.float32)
        op, A, sym = L.DiagonalOperator(d, **kw), np.diag(d), True
        if dt[0] != 'c':
            herm = True
    elif k == 'mat':
        A = int_matrix(s, m, n, dt)
        op = L.LinearOperator(n, m, lambda x: np.dot(A, x), matvec_transp=lambda y: np.dot(A.T, y), dtype=DT[dt])
    elif k in ('coord', 'csym'):
        r = wl.rng(s)
        it = {'i8': np.int64, 'i4': np.int32}[c['idt']]
        if k == 'csym':
            m = n
        rows, cols = r.randint(0, m, c['nnz']), r.randint(0, n, c['nnz'])
        if k == 'csym':
            lo, hi = np.minimum(rows, cols), np.maximum(rows, cols)
            if c['tri'] == 'u':
                rows, cols = lo, hi
            elif c['tri'] == 'l':
                rows, cols = hi, lo
            else:       # one triangle only, but stored on either side consistently
                flip = (lo + hi) % 2 == 0
                rows, cols = np.where(flip, lo, hi), np.where(flip, hi, lo)
        rows, cols = rows.astype(it), cols.astype(it)
        vals = int_vector(s + 1, c['nnz'], dt)
        kw = {}
        if c['size'] in ('given', 'infer_out'):
            kw['nargin'] = n
        else:
            n = int(cols.max()) + 1
        if c['size'] in ('given', 'infer_in'):
            kw['nargout'] = m
        else:
            m = int(rows.max()) + 1
        if k == 'csym':
            m = n = max(m, n)
        A = np.zeros((m, n), vals.dtype)
        for a, i, j in zip(vals, rows, cols):
            A[i, j] += a
            if k == 'csym' and i != j:
                A[j, i] += a
        copies = [vals.copy(), rows.copy(), cols.copy()]
        op = L.CoordLinearOperator(vals, rows, cols, symmetric=(k == 'csym'), **kw)
        sym = True if k == 'csym' else None
        ctx.label('size:' + c['size'])
    elif k == 'arr':
        A = int_matrix(s, m, n, dt)
        op = L.linop_from_ndarray(A)
    elif k == 'asym':
        f = 'h' if c['flag'] == 'h' else 's'
        A = spec.symmetrise(int_matrix(s, n, n, dt), f)
        if c['flag'] == 'sdef':
            op, sym = L.linop_from_ndarray(A, symmetric=True), True
            if dt[0] != 'c':
                herm = True
        elif dt[0] == 'c':
            op = L.linop_from_ndarray(A, symmetric=f == 's', hermitian=f == 'h')
            sym, herm = (True, None) if f == 's' else (None, True)
        else:
            op, sym, herm = L.linop_from_ndarray(A, symmetric=True, hermitian=True), True, True
    elif k == 'pys':
        if c['sym']:
            m = n
        A = int_matrix(s, m, n, 'f8')
        if c['sym']:
            A = spec.symmetrise(A, 's')
            sym = True
        op = L.PysparseLinearOperator((SparseMul if c['api'] == 'mul' else SparseLL)(A, c['sym'], c['issym']))
        if c['api'] != 'mul':
            vdts = ('f8', 'i8')
        dt = 'f8'
    elif k == 'chol':
        mod = cholesky_module()
        r = wl.rng(s)
        M = wl.spd(r, n, 50.)
        op, A = mod.CholeskyOperator(M), np.linalg.inv(M)
        sym, dt = True, 'f8'
        ctx.refuses('a rectangular matrix for a Cholesky operator', lambda: mod.CholeskyOperator(np.ones((n, n + 1))), ValueError)
    ctx.ensure(tuple(op.shape) == A.shape and op.nargin == A.shape[1] and op.nargout == A.shape[0],
               'shape %s instead of %s', op.shape, A.shape)
    ctx.ensure(np.dtype(op.dtype) == np.dtype(DT[dt]), 'type %s instead of %s', op.dtype, DT[dt])
    nd = Node(op, wide(A), np.abs(A) * 1e3 if k == 'chol' else None, dt in ('f4', 'c8'))
    act_all(ctx, nd, s, k + ' ', vdts)
    dense(ctx, nd, k + ' ')
    for o, w in ((op, ''), (op.T, '.T'), (op.H, '.H')):
        if o is None:
            continue
        for xd in vdts:
            y, want = o * int_vector(s + 9, o.shape[1], xd), np.result_type(DT[dt], DT[xd])
            ctx.ensure(np.dtype(y.dtype) == want, '%s%s of type %s times a %s vector gives type %s', k, w, dt, xd, y.dtype)
    if sym:
        ctx.ensure(op.symmetric and op.T is op, 'the operator is not flagged symmetric')
    if herm:
        ctx.ensure(op.hermitian and op.H is op, 'the operator is not flagged Hermitian')
    if op.symmetric:
        ctx.ensure(A.shape[0] == A.shape[1] and np.allclose(A, A.T), 'flagged symmetric, but its matrix is not')
    if op.hermitian:
        ctx.ensure(A.shape[0] == A.shape[1] and np.allclose(A, A.conj().T), 'flagged Hermitian, but its matrix is not')
    if k in ('coord', 'csym'):
        ctx.ensure(all(np.array_equal(p, q) for p, q in zip(copies, (vals, rows, cols))), 'the triplets were changed')
    if np.any(A) and A.size > 1:
        ctx.nt()
    ctx.label(k)


CHECKS['L05'] = Check(s_l05, c_l05, 4200, 90000,
    'every ready-made operator class with random integer data (Cholesky: random SPD matrix, stand-in factorisation module), sizes 1-9 (thorough 14); non-trivial: nonzero matrix with more than one entry',
    [INTEGER, 'scikits.sparse and Pysparse are not installed: stand-ins with the interface the code calls are used'])


# ---------------------------------------------------------------- L06
def s_l06(tier):
    st = st_()

    @st.composite
    def case(draw):
        dt = draw(st.sampled_from(('f8', 'c16', 'i8', 'f4', 'c8')))
        n = size(draw, st, 9)
        ent = st.integers(-6, 6)
        re = draw(st.lists(st.integers(0, 9) if draw(st.booleans()) else ent, min_size=n, max_size=n))
        im = draw(st.lists(ent, min_size=n, max_size=n)) if dt[0] == 'c' else None
        return {'dt': dt, 're': re, 'im': im, 'given': draw(st.sampled_from(('array', 'array', 'list', 'view'))),
                'poke': draw(st.integers(0, n - 1)), 'zero': [draw(st.integers(1, 4)), draw(st.integers(1, 4))],
                's': draw(seeds(st))}
    return case()


def c_l06(c, ctx):
    L = wl.L
    d = np.array(c['re'], float)
    if c['im'] is not None:
        d = d + 1j * np.array(c['im'], float)
    src = d.astype(DT[c['dt']])
    n = len(src)
    if c['given'] == 'list':
        op = L.DiagonalOperator([complex(v) for v in src] if c['im'] is not None else [float(v) for v in src])
    elif c['given'] == 'view':
        big = np.zeros(2 * n, src.dtype)
        big[::2] = src
        op = L.DiagonalOperator(big[::2])
    else:
        op = L.DiagonalOperator(src)
    single = c['dt'] in ('f4', 'c8') and c['given'] != 'list'
    eps = 1e-5 if single else 1e-13
    x = int_vector(c['s'], n, 'c16') + 1
    ctx.close(op * x, d * x, eps * 100, 'diagonal operator')
    ctx.close(np.asarray(op.diag), d, 0, 'reported diagonal')
    a = abs(op)
    ctx.close(a * x, np.abs(d) * x, eps * 100, 'abs(D) * x')
    ctx.close(a.T * x, np.abs(d) * x, eps * 100, 'abs(D).T * x')
    ctx.ensure(np.dtype(a.dtype).kind != 'c' and a.symmetric and a.hermitian, 'abs(D) is not a real symmetric operator')
    if c['im'] is None and np.any(d < 0):
        ctx.refuses('the square root of a diagonal with a negative entry', lambda: L.sqrt(op), ValueError)
        ctx.label('negative')
    else:
        r = L.sqrt(op)
        ctx.close(r * (r * x), d * x, eps * 1000, 'sqrt(D)*sqrt(D)*x')
        ctx.close((r * r) * x, d * x, eps * 1000, '(sqrt(D)*sqrt(D))*x')
        ctx.close(r.T * (r.T * x), d * x, eps * 1000, 'sqrt(D).T*sqrt(D).T*x')
        ctx.close(r.H * (r.H * x), d.conj() * x, eps * 1000, 'sqrt(D).H*sqrt(D).H*x')
        ctx.label('root')
    ctx.close(op * x, d * x, eps * 100, 'diagonal operator after taking functions')
    # Later changes to the caller's array.
    if c['given'] == 'array':
        src[c['poke']] += 1
    elif c['given'] == 'view':
        big[2 * c['poke']] += 1
    ctx.close(op * x, d * x, eps * 100, 'diagonal operator after the caller changed the array')
    ctx.close(op.T * x, d * x, eps * 100, 'its transpose after the caller changed the array')
    ctx.close(op.H * x, d.conj() * x, eps * 100, 'its adjoint after the caller changed the array')
    ctx.close(np.asarray(op.diag), d, 0, 'reported diagonal after the caller changed the array')
    m, k = c['zero']
    z = L.ZeroOperator(m, k)
    for f, what in ((L.sqrt, 'sqrt'), (abs, 'abs')):
        w = f(z)
        ctx.ensure(tuple(w.shape) == (k, m), '%s of a zero operator has another shape', what)
        ctx.close(w * np.ones(m), np.zeros(k), 0, what + ' of a zero operator')
    if np.any(d) and n > 1:
        ctx.nt()


CHECKS['L06'] = Check(s_l06, c_l06, 7000, 120000,
    'random integer-valued diagonals of five types given as array, list or strided view, then an in-place change by the caller; non-trivial: length above 1 and not all zero',
    ['diagonals are Gaussian integers'])


# ---------------------------------------------------------------- L07
def s_l07(tier):
    st = st_()

    @st.composite
    def case(draw):
        lim = 6 if tier == 'quick' else 9
        m = size(draw, st, lim, 25)
        n = m if draw(st.booleans()) else size(draw, st, lim, 25)
        e = draw_expr(draw, st, m, n, draw(st.sampled_from((0, 0, 0, 1))), None, 1)
        steps = []
        for _ in range(draw(st.integers(1, 3))):
            sym = m == n and draw(st.booleans())
            pm = draw(st.permutations(list(range(m))))
            rows = list(pm)[:draw(st.integers(1, m))]
            if sym:
                cols = rows
            else:
                pn = draw(st.permutations(list(range(n))))
                cols = list(pn)[:draw(st.integers(1, n))]
            if not draw(st.integers(0, 3)):      # Positions counted from the end.
                rows = [i - m if draw(st.booleans()) else i for i in rows]
                cols = rows if sym else [i - n if draw(st.booleans()) else i for i in cols]
            steps.append({'sym': sym, 'r': rows, 'c': cols, 'arr': draw(st.booleans())})
            m, n = len(rows), len(cols)
        return {'e': e, 'steps': steps, 's': draw(seeds(st))}
    return case()


def c_l07(c, ctx):
    L = wl.L
    nd = build(c['e'])
    op, A, B = nd.op, nd.A, nd.bound
    if B.size and B.max() > 1e10:
        ctx.skip('entries too large for exact arithmetic')
    for stp in c['steps']:
        r, q = list(stp['r']), list(stp['c'])
        cv = (lambda v: np.array(v)) if stp['arr'] else (lambda v: v)
        if stp['sym']:
            gi = cv(r)
            new = L.SymmetricallyReducedLinearOperator(op, gi)
            ctx.ensure(new.symmetric == op.symmetric and new.hermitian == op.hermitian,
                       'the symmetric reduction has flags (%s, %s) instead of (%s, %s)',
                       new.symmetric, new.hermitian, op.symmetric, op.hermitian)
        else:
            new = L.ReducedLinearOperator(op, cv(r), cv(q))
        ctx.ensure(stp['r'] == r and stp['c'] == q, 'the index lists were changed')
        op, A, B = new, A[np.ix_(r, q)], B[np.ix_(r, q)]
        if op.symmetric:
            ctx.ensure(np.allclose(A, A.T), 'flagged symmetric, but the submatrix is not')
        if op.hermitian:
            ctx.ensure(np.allclose(A, A.conj().T), 'flagged Hermitian, but the submatrix is not')
        sub = Node(op, A, B * 1.0, nd.single)
        act_all(ctx, sub, c['s'], 'reduced ', ('f8', 'c16', 'i8'))
        dense(ctx, sub, 'reduced ')
        act(ctx, sub, op.T.T, A, B, int_vector(c['s'] + 5, A.shape[1], 'c16'), 'reduced .T.T')
        act(ctx, sub, op.H.H, A, B, int_vector(c['s'] + 6, A.shape[1], 'c16'), 'reduced .H.H')
    unchanged(ctx, nd, c['s'])
    if np.any(A) and nd.A.size > A.size:
        ctx.nt()
    ctx.label('symmetric' if c['steps'][0]['sym'] else 'general')


CHECKS['L07'] = Check(s_l07, c_l07, 3500, 80000,
    'one to three successive reductions with duplicate-free index lists in any order, counted from the start or the end, of operators of every kind; non-trivial: the final submatrix is proper and nonzero',
    [INTEGER])


# ---------------------------------------------------------------- L11
BADS = ('add', 'sub', 'mul', 'powshape', 'powneg', 'powfrac', 'divop', 'divvec', 'addvec', 'addnum', 'subvec', 'subnum', 'diag2',
        'dtype', 'symxor', 'symxor2', 'blkrag', 'blkrow', 'blkcol', 'blksymdiag', 'blkhermdiag', 'blksymshape', 'blksymcount',
        'tkind', 'hkind', 'negpowT', 'blkvec', 'bdvec', 'blkgrid', 'blkgrid', 'blkgrid', 'blkboth')


def s_l11(tier):
    st = st_()

    @st.composite
    def case(draw):
        m, n = draw(st.integers(1, 4)), draw(st.integers(1, 4))
        c = {'bad': draw(st.sampled_from(BADS)), 'm': m, 'n': n, 'dm': draw(st.integers(-3, 3)), 'dn': draw(st.integers(-3, 3)),
             'z': draw(st.integers(0, 10)), 's': draw(seeds(st))}
        c['a'] = draw_expr(draw, st, m, n, draw(st.sampled_from((0, 0, 1))), None, 1)
        m2, n2 = max(1, m + c['dm']), max(1, n + c['dn'])
        c['b'] = draw_expr(draw, st, m2, n2, 0, None, 1)
        c['q'] = draw_expr(draw, st, n, n, 0, None, 0)
        c['rev'] = draw(st.booleans())
        return c
    return case()


def c_l11(c, ctx):
    L = wl.L
    SE = (L.ShapeError, ValueError)
    a, b, q = build(c['a']), build(c['b']), build(c['q'])
    A, B, Q = a.op, b.op, q.op
    if c['rev']:
        A, B = B, A
    bad = c['bad']
    (m, n), (m2, n2) = A.shape, B.shape
    z = c['z']
    done = True
    x = np.ones(n)
    if bad in ('add', 'sub'):
        if A.shape == B.shape:
            done = False
        else:
            ctx.refuses('%s of shapes %s and %s' % (bad, A.shape, B.shape), (lambda: A + B) if bad == 'add' else (lambda: A - B), L.ShapeError)
    elif bad == 'mul':
        if n == m2:
            done = False
        else:
            ctx.refuses('product of shapes %s and %s' % (A.shape, B.shape), lambda: A * B, L.ShapeError)
    elif bad == 'powshape':
        if m == n:
            done = False
        else:
            ctx.refuses('power %d of a %s operator' % (z, A.shape), lambda: A ** z, SE)
    elif bad == 'powneg':
        ctx.refuses('a negative power', lambda: Q ** (-1 - z), ValueError)
    elif bad == 'negpowT':
        ctx.refuses('a negative power', lambda: Q.T ** (-1 - z), ValueError)
    elif bad == 'powfrac':
        for e in (z + .5, float(z), None, 'a', [2]):
            ctx.refuses('power %r' % (e,), lambda: Q ** e, ValueError)
    elif bad == 'divop':
        ctx.refuses('division by an operator', lambda: A / B, ValueError)
        ctx.refuses('division by an operator', lambda: wl.div(A, B), ValueError)
    elif bad == 'divvec':
        ctx.refuses('division by a vector', lambda: A / x, ValueError)
        ctx.refuses('division by a vector', lambda: wl.div(A, x), ValueError)
    elif bad in ('addvec', 'addnum', 'subvec', 'subnum'):
        w = x if bad.endswith('vec') else z
        ctx.refuses('%s' % bad, (lambda: A + w) if bad.startswith('add') else (lambda: A - w), ValueError)
    elif bad == 'diag2':
        for sh in ((n, m), (n, 1), (1, n), (), (1, 1, 2)):
            ctx.refuses('a diagonal of shape %s' % (sh,), lambda: L.DiagonalOperator(np.ones(sh)), ValueError)
    elif bad == 'dtype':
        old = A.dtype
        for t in ('nonsense', str, object, None, 3, list):
            def f():
                A.dtype = t
            ctx.refuses('type %r' % (t,), f, TypeError)
            ctx.ensure(A.dtype == old, 'a refused type changed the type')
        A.dtype = np.complex128
        ctx.ensure(A.dtype == np.complex128, 'the type cannot be set')
        A.dtype = old
        ctx.ensure(A.dtype == old, 'the type cannot be set')
    elif bad in ('symxor', 'symxor2'):
        M = spec.symmetrise(int_matrix(c['s'], n, n, ('f8', 'i8', 'f4')[z % 3]), 's')
        flags = {'symmetric': bad == 'symxor', 'hermitian': bad != 'symxor'}
        ctx.refuses('a real array with %s' % flags, lambda: L.linop_from_ndarray(M, **flags), ValueError)
    elif bad == 'blkrag':
        ctx.refuses('rows with different numbers of blocks', lambda: L.BlockLinearOperator([[A, A], [A]]), SE)
        ctx.refuses('rows with different numbers of blocks', lambda: L.BlockLinearOperator([[A], [A, A]]), SE)
    elif bad == 'blkrow':       # heights in one block row
        if m == m2:
            done = False
        else:
            ctx.refuses('blocks of height %d and %d in a row' % (m, m2), lambda: L.BlockLinearOperator([[A, B]]), SE)
            ctx.refuses('blocks of height %d and %d in a row' % (m, m2), lambda: L.BlockLinearOperator([[A, B], [A, B]]), SE)
            ctx.refuses('blocks of height %d and %d in a later row' % (m, m2), lambda: L.BlockLinearOperator([[A, A, B], [A, B, B]]), SE)
    elif bad == 'blkcol':       # widths in one block column
        if n == n2:
            done = False
        else:
            ctx.refuses('blocks of width %d and %d in a column' % (n, n2), lambda: L.BlockLinearOperator([[A], [B]]), SE)
            ctx.refuses('blocks of width %d and %d in a later column' % (n, n2),
                        lambda: L.BlockLinearOperator([[A, A], [A, L.ZeroOperator(n2, m)]]), SE)
            ctx.refuses('blocks of width %d and %d in a later column' % (n, n2),
                        lambda: L.BlockLinearOperator([[A, A, A], [A, A, A], [A, L.ZeroOperator(n2, m), A]]), SE)
    elif bad in ('blksymdiag', 'blkhermdiag'):
        G = int_matrix(c['s'], n, n, 'f8')
        N = L.LinearOperator(n, n, lambda v: np.dot(G, v), matvec_transp=lambda v: np.dot(G.T, v))
        E = L.IdentityOperator(n)
        kw = {'symmetric': True} if bad == 'blksymdiag' else {'hermitian': True}
        for lay in ([[N]], [[N, E], [E]], [[E, E], [N]], [[E, N, E], [E, N], [N]]):
            ctx.refuses('a diagonal block that is not %s' % list(kw)[0], lambda: L.BlockLinearOperator(lay, **kw), ValueError)
    elif bad == 'blksymshape':
        E, F = L.IdentityOperator(n), L.IdentityOperator(n + 1 + z % 3)
        for lay in ([[E, E], [F]], [[F, E], [E]], [[E, E, L.ZeroOperator(n + 5, n)], [E, E], [E]]):
            ctx.refuses('off-diagonal blocks that do not fit', lambda: L.BlockLinearOperator(lay, symmetric=True), SE)
    elif bad == 'blksymcount':
        E = L.IdentityOperator(n)
        for lay in ([[E, E]], [[E, E, E], [E, E]], [[E], [E]]):
            ctx.refuses('a symmetric layout that is not square', lambda: L.BlockLinearOperator(lay, symmetric=True), Exception)
            ctx.refuses('a Hermitian layout that is not square', lambda: L.BlockLinearOperator(lay, hermitian=True), Exception)
    elif bad == 'blkgrid':      # One block, anywhere in a grid, does not fit; or the widths of a row are permuted.
        r = wl.rng(c['s'])
        nr, nc = r.randint(1, 5), r.randint(1, 5)
        hs, ws = r.randint(1, 6, nr), r.randint(1, 6, nc)
        shp = [[[int(h), int(w)] for w in ws] for h in hs]
        i, j = r.randint(0, nr), r.randint(0, nc)
        how = ('height', 'width', 'swap', 'swapheight')[z % 4]
        if how == 'height':
            shp[i][j][0] += int(r.choice([1, 2, -1])) if shp[i][j][0] > 1 else 1
            done = nc > 1
        elif how == 'width':
            shp[i][j][1] += int(r.choice([1, 2, -1])) if shp[i][j][1] > 1 else 1
            done = nr > 1
        elif how == 'swap':
            k = r.randint(0, nc)
            shp[i][j][1], shp[i][k][1] = shp[i][k][1], shp[i][j][1]
            done = nr > 1 and ws[j] != ws[k]
        else:
            k = r.randint(0, nr)
            shp[i][j][0], shp[k][j][0] = shp[k][j][0], shp[i][j][0]
            done = nc > 1 and hs[i] != hs[k]
        if done:
            lay = [[L.ZeroOperator(w, h) if r.randint(0, 2) else L.LinearOperator(w, h, lambda v, h=h: np.zeros(h), matvec_transp=lambda v, w=w: np.zeros(w))
                    for h, w in row] for row in shp]
            ctx.refuses('a layout of shapes %s' % shp, lambda: L.BlockLinearOperator(lay), SE)
            ctx.label('blkgrid ' + how)
    elif bad == 'blkboth':      # Declared symmetric and Hermitian, one diagonal block is only one of the two.
        r = wl.rng(c['s'])
        nb = r.randint(1, 4)
        G = np.eye(n, dtype=complex) * (1. if z % 2 and n > 1 else 1j)
        if z % 2 and n > 1:
            G[0, 1], G[1, 0] = 1j, -1j
        D = L.linop_from_ndarray(G, symmetric=not (z % 2 and n > 1), hermitian=bool(z % 2 and n > 1))
        E = L.IdentityOperator(n)
        lay = [[E] * (nb - i) for i in range(nb)]
        lay[r.randint(0, nb)][0] = D
        ctx.refuses('a diagonal block that is not symmetric and Hermitian', lambda: L.BlockLinearOperator(lay, symmetric=True, hermitian=True), ValueError)
    elif bad in ('tkind', 'hkind'):
        key = 'transpose_of' if bad == 'tkind' else 'adjoint_of'
        for w in (3, np.eye(n), 'A'):
            ctx.refuses('%s=%r' % (key, w), lambda: L.LinearOperator(n, n, lambda v: v, **{key: w}), ValueError)
    elif bad == 'blkvec':
        K = L.BlockLinearOperator([[A, A]])
        for k in (2 * n + 1, max(0, 2 * n - 1), n):
            ctx.refuses('a vector of length %d for %d columns' % (k, 2 * n), lambda: K * np.ones(k), Exception)
    elif bad == 'bdvec':
        K = L.BlockDiagonalLinearOperator([A, A])
        for k in (2 * n + 1, max(0, 2 * n - 1), n):
            ctx.refuses('a vector of length %d for %d columns' % (k, 2 * n), lambda: K * np.ones(k), Exception)
    if not done:
        ctx.skip('shapes happen to match')
    unchanged(ctx, a, c['s'])
    unchanged(ctx, b, c['s'])
    ctx.nt()
    ctx.label(bad)


CHECKS['L11'] = Check(s_l11, c_l11, 4200, 80000,
    'each of %d kinds of ill-formed request on operators of every kind with random shapes, block grids to 4 by 4 with one block or two swapped sizes that do not fit included; non-trivial: the request really is ill-formed' % len(BADS))
