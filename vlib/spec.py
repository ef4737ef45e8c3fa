"""JSON specifications of operators and operator expressions, and their matrices.

`build(spec)` returns a Node: the pykrylov operator, the matrix it must equal
and a bound matrix (the same expression on moduli) used to scale tolerances.
"""
import numpy as np
from vlib import wl
from vlib.wl import DT, int_matrix, int_vector

REAL = ('i8', 'f8', 'f8', 'f4')
CPLX = ('c16', 'c16', 'c8')


# ---------------------------------------------------------------- strategies
UNIFORM = [False]       # Whether strategies are built for vlib.gen rather than Hypothesis.


def st_():
    if UNIFORM[0]:
        from . import gen
        return gen.st
    from hypothesis import strategies as st
    return st


def size(draw, st, hi, top=40, odds=30):
    """A size from 1 to hi; now and then a much larger one."""
    n = draw(st.integers(1, hi))
    if draw(st.integers(0, odds)) == odds:
        n += draw(st.integers(8, max(top - hi, 8)))
    return n


def seeds(st):
    return st.integers(0, 10 ** 6)


LEAVES = ('mat', 'mat', 'mat', 'arr', 'coord', 'redu', 'blk')
SQUARE = ('diag', 'eye', 'zero', 'msym', 'asym', 'sred', 'bd')


def draw_leaf(draw, st, m, n, kinds=None, dts=None, depth=1):
    ks = [k for k in LEAVES if depth > 0 or k not in ('redu', 'blk')]
    ks.append('zero')
    if m == n:
        ks += [k for k in SQUARE if depth > 0 or k not in ('sred', 'bd')]
    if kinds is not None:
        ks = [k for k in ks if k in kinds]
    k = draw(st.sampled_from(ks))
    dt = draw(st.sampled_from(dts or ('f8', 'c16', 'i8', 'c16', 'f8', 'f4', 'c8')))
    s = {'k': k, 'm': m, 'n': n, 'dt': dt, 's': draw(seeds(st))}
    if k == 'mat':
        s['sup'] = draw(st.sampled_from(('T', 'H', 'TH')))
    elif k in ('msym', 'asym'):
        s['flag'] = draw(st.sampled_from(('s', 'h'))) if dt[0] == 'c' else 's'
        if k == 'msym':
            s['sup'] = draw(st.sampled_from(('', 'T', 'H', 'TH')))
    elif k == 'redu':
        s['a'] = draw_leaf(draw, st, m + draw(st.integers(0, 2)), n + draw(st.integers(0, 2)), None, dts, depth - 1)
    elif k == 'sred':
        q = n + draw(st.integers(0, 2))
        s['a'] = draw_leaf(draw, st, q, q, None, dts, depth - 1)
    elif k == 'blk':
        rs, cs = cut(draw, st, m), cut(draw, st, n)
        s['b'] = [[draw_leaf(draw, st, p, q, None, dts, depth - 1) for q in cs] for p in rs]
    elif k == 'bd':
        s['b'] = [draw_leaf(draw, st, p, p, None, dts, depth - 1) for p in cut(draw, st, n)]
    return s


def draw_sym(draw, st, n, flag, dts=None, depth=1):
    """A leaf flagged symmetric ('s') or Hermitian ('h')."""
    ks = ['eye', 'msym', 'asym', 'msym', 'diag']
    if flag == 's':
        ks.append('zero')
    if depth > 0:
        ks += ['sred', 'sblk']
    k = draw(st.sampled_from(ks))
    dt = draw(st.sampled_from(dts or ('f8', 'c16', 'i8', 'c16', 'f8', 'f4')))
    if k == 'diag' and flag == 'h':
        dt = draw(st.sampled_from(('f8', 'i8', 'f4')))
    s = {'k': k, 'm': n, 'n': n, 'dt': dt, 's': draw(seeds(st))}
    if k in ('msym', 'asym'):
        s['flag'] = flag if dt[0] == 'c' else 's'
        if k == 'msym':
            s['sup'] = draw(st.sampled_from(('', 'TH') if dt[0] != 'c' else ('', 'T', 'H', 'TH')))
    elif k == 'sred':
        s['a'] = draw_sym(draw, st, n + draw(st.integers(0, 2)), flag, dts, depth - 1)
    elif k == 'sblk':
        s['flag'] = flag
        s['b'] = draw_upper(draw, st, cut(draw, st, n), flag, dts, depth - 1)
    return s


def draw_upper(draw, st, sizes, flag, dts=None, depth=1):
    """The upper triangle of a symmetric or Hermitian block layout."""
    return [[draw_sym(draw, st, p, flag, dts, depth) if j == i else draw_leaf(draw, st, p, sizes[j], None, dts, depth)
             for j in range(i, len(sizes))] for i, p in enumerate(sizes)]


def cut(draw, st, n):
    """A composition of n into at most three positive parts."""
    parts = []
    while n > 0 and len(parts) < 2:
        p = draw(st.integers(1, n))
        parts.append(p)
        n -= p
    if n:
        parts.append(n)
    return parts


SCALARS = (2, -1, 3, 0, 1, -2, 0.5, -1.25, 4.0, [1, 2], [0, -0.5], [-2, 0.25])


def draw_scalar(draw, st, zero=True):
    z = draw(st.sampled_from(SCALARS if zero else tuple(x for x in SCALARS if x != 0)))
    return z


def scalar(z, kind):
    if isinstance(z, list):
        z = complex(z[0], z[1])
        return np.complex128(z) if kind == 'np' else np.complex64(z) if kind == 'np32' else z
    if kind == 'np':
        return np.int64(z) if isinstance(z, int) else np.float64(z)
    if kind == 'np32':
        return np.int32(z) if isinstance(z, int) else np.float32(z)
    return z


def draw_expr(draw, st, m, n, depth, dts=None, leaf_depth=1, maxdim=4):
    if depth == 0:
        return draw_leaf(draw, st, m, n, None, dts, leaf_depth)
    ks = ['leaf', '+', '-', '*', '*', 'sm', 'neg', 'div', 'T', 'H', 'c']
    if m == n:
        ks += ['pow', 'flagged']
    k = draw(st.sampled_from(ks))
    go = lambda a, b: draw_expr(draw, st, a, b, depth - 1, dts, leaf_depth, maxdim)
    if k == 'flagged':      # Operands flagged symmetric, Hermitian or one of each.
        k = draw(st.sampled_from(('+', '-', '+', '-', 'sm', '*', 'leaf')))
        go = lambda a, b: draw_sym(draw, st, a, draw(st.sampled_from('sh')), dts, leaf_depth) if a == b else draw_leaf(draw, st, a, b, None, dts, leaf_depth)
        if k == 'leaf':
            return go(m, n)
    if k == 'leaf':
        return draw_leaf(draw, st, m, n, None, dts, leaf_depth)
    if k in '+-':
        return {'o': k, 'a': go(m, n), 'b': go(m, n)}
    if k == '*':
        q = draw(st.integers(1, maxdim))
        return {'o': k, 'a': go(m, q), 'b': go(q, n)}
    if k == 'sm':
        side = draw(st.sampled_from('lr'))
        return {'o': k, 'z': draw_scalar(draw, st), 'side': side, 'a': go(m, n),
                'zk': draw(st.sampled_from(('py', 'py', 'np', 'np32'))) if side == 'r' else 'py'}
    if k == 'div':
        return {'o': k, 'z': draw_scalar(draw, st, False), 'a': go(m, n), 'tru': draw(st.booleans()),
                'zk': draw(st.sampled_from(('py', 'py', 'np', 'np32')))}
    if k in 'TH':
        return {'o': k, 'a': go(n, m)}
    if k == 'pow':
        p = draw(st.sampled_from((2, 3, 0, 1, 4, 5, 6, 7, 8, 11, 0)))
        if not p and draw(st.booleans()):      # High powers of something that does not grow too fast.
            a = draw_leaf(draw, st, m, m, ('diag', 'diag', 'eye', 'arr'), dts, 0)
            return {'o': k, 'p': draw(st.integers(9, 40)), 'a': {'o': 'sm', 'z': draw(st.sampled_from((.5, .25, -.25, [0, .5]))), 'side': 'l', 'a': a, 'zk': 'py'}}
        return {'o': k, 'p': p, 'a': go(m, m)}
    return {'o': k, 'a': go(m, n)}


# ---------------------------------------------------------------- building
class Node(object):
    def __init__(self, op, A, bound=None, single=False, kids=(), nops=0, leaves=None, what=''):
        self.op = op
        self.A = A
        self.bound = np.abs(A).astype(float) if bound is None else bound
        self.single = single
        self.nops = nops + sum(k.nops for k in kids)
        self.leaves = list(leaves or ())
        for k in kids:
            self.leaves.extend(k.leaves)
        self.what = what

    def tol(self, xbound):
        return (2e-4 if self.single else 1e-11) * (1.0 + xbound)


def wide(A):
    return A.astype(np.complex128 if A.dtype.kind == 'c' else np.float64)


def leaf(op, A, s):
    nd = Node(op, wide(A), single=s['dt'] in ('f4', 'c8'), what=s['k'])
    nd.leaves = [(op, wide(A), op.shape, op.dtype, op.symmetric, op.hermitian, nd.single)]
    return nd


def closures(A, sup):
    kw = {}
    if 'T' in sup:
        kw['matvec_transp'] = lambda y: np.dot(A.T, y)
    if 'H' in sup:
        kw['matvec_adj'] = lambda y: np.dot(A.conj().T, y)
    return kw


def symmetrise(A, flag):
    if flag == 'h':
        B = np.tril(A, -1)
        return B + B.conj().T + np.diag(np.diag(A).real).astype(A.dtype)
    B = np.tril(A, -1)
    return B + B.T + np.diag(np.diag(A))


def build(s):
    if 'o' in s:
        return build_op(s)
    L = wl.L
    k, m, n, dt, seed = s['k'], s['m'], s['n'], s['dt'], s['s']
    if k in ('mat', 'arr'):
        A = int_matrix(seed, m, n, dt)
        if k == 'mat':
            return leaf(L.LinearOperator(n, m, lambda x: np.dot(A, x), dtype=A.dtype, **closures(A, s['sup'])), A, s)
        return leaf(L.linop_from_ndarray(A), A, s)
    if k in ('msym', 'asym'):
        flag = s['flag']
        A = symmetrise(int_matrix(seed, n, n, dt), flag)
        fl = {'symmetric': True, 'hermitian': True}
        if dt[0] == 'c':
            fl = {'symmetric': flag == 's', 'hermitian': flag == 'h'}
        if k == 'asym':
            return leaf(L.linop_from_ndarray(A, **fl), A, s)
        kw = dict(fl)
        kw.update(closures(A, s['sup']))
        return leaf(L.LinearOperator(n, n, lambda x: np.dot(A, x), dtype=A.dtype, **kw), A, s)
    if k == 'diag':
        d = int_vector(seed, n, dt)
        return leaf(L.DiagonalOperator(d), np.diag(d), s)
    if k == 'eye':
        return leaf(L.IdentityOperator(n, dtype=DT[dt]), np.eye(n), s)
    if k == 'zero':
        return leaf(L.ZeroOperator(n, m, dtype=DT[dt]), np.zeros((m, n)), s)
    if k == 'coord':
        r = wl.rng(seed + 17)
        nnz = r.randint(1, m * n + 2)
        rows, cols = r.randint(0, m, nnz), r.randint(0, n, nnz)
        vals = int_vector(seed, nnz, dt)
        A = np.zeros((m, n), vals.dtype)
        for a, i, j in zip(vals, rows, cols):
            A[i, j] += a
        return leaf(L.CoordLinearOperator(vals, rows, cols, nargin=n, nargout=m), A, s)
    if k == 'redu':
        a = build(s['a'])
        r = wl.rng(seed)
        ri = [int(i) for i in r.permutation(a.A.shape[0])[:m]]
        ci = [int(i) for i in r.permutation(a.A.shape[1])[:n]]
        op = L.ReducedLinearOperator(a.op, ri, ci)
        return Node(op, a.A[np.ix_(ri, ci)], a.bound[np.ix_(ri, ci)], a.single, [a], 1, what=k)
    if k == 'sred':
        a = build(s['a'])
        ri = [int(i) for i in wl.rng(seed).permutation(a.A.shape[0])[:n]]
        op = L.SymmetricallyReducedLinearOperator(a.op, ri)
        return Node(op, a.A[np.ix_(ri, ri)], a.bound[np.ix_(ri, ri)], a.single, [a], 1, what=k)
    if k == 'blk':
        bs = [[build(b) for b in row] for row in s['b']]
        flat = [b for row in bs for b in row]
        op = L.BlockLinearOperator([[b.op for b in row] for row in bs])
        A, B = assemble(bs)
        return Node(op, A, B, any(b.single for b in flat), flat, 1, what=k)
    if k == 'sblk':
        bs = [[build(b) for b in row] for row in s['b']]
        flat = [b for row in bs for b in row]
        op = L.BlockLinearOperator([[b.op for b in row] for row in bs], symmetric=s['flag'] == 's', hermitian=s['flag'] == 'h')
        A, B = assemble(fill(bs, s['flag']))
        return Node(op, A, B, any(b.single for b in flat), flat, 1, what=k)
    if k == 'bd':
        bs = [build(b) for b in s['b']]
        op = L.BlockDiagonalLinearOperator([b.op for b in bs])
        return Node(op, blkdiag([b.A for b in bs]), blkdiag([b.bound for b in bs]).real,
                    any(b.single for b in bs), bs, 1, what=k)
    raise wl.Harness('unknown leaf %r' % k)


def fill(upper, flag):
    """The full layout of nodes from its upper triangle."""
    n = len(upper)
    full = [[None] * n for _ in range(n)]
    for i, row in enumerate(upper):
        for j, b in enumerate(row):
            full[i][i + j] = b
            if j:
                t = b.A.T if flag == 's' else b.A.conj().T
                full[i + j][i] = Node(None, t, b.bound.T, b.single)
    return full


def assemble(bs):
    return (np.vstack([np.hstack([wide(b.A) for b in row]) for row in bs]),
            np.vstack([np.hstack([b.bound for b in row]) for row in bs]))


def blkdiag(mats):
    m, n = sum(a.shape[0] for a in mats), sum(a.shape[1] for a in mats)
    dt = np.complex128 if any(a.dtype.kind == 'c' for a in mats) else np.float64
    A = np.zeros((m, n), dt)
    i = j = 0
    for a in mats:
        A[i:i + a.shape[0], j:j + a.shape[1]] = a
        i += a.shape[0]
        j += a.shape[1]
    return A


def build_op(s):
    k = s['o']
    a = build(s['a'])
    if k in ('+', '-', '*'):
        b = build(s['b'])
        if k == '+':
            op, A, B = a.op + b.op, a.A + b.A, a.bound + b.bound
        elif k == '-':
            op, A, B = a.op - b.op, a.A - b.A, a.bound + b.bound
        else:
            op, A, B = a.op * b.op, np.dot(a.A, b.A), np.dot(a.bound, b.bound)
        return Node(op, A, B, a.single or b.single, [a, b], 1)
    if k == 'sm':
        z = scalar(s['z'], s['zk'])
        op = a.op * z if s['side'] == 'r' else z * a.op
        return Node(op, z * a.A, abs(z) * a.bound, a.single, [a], 1)
    if k == 'div':
        z = scalar(s['z'], s['zk'])
        op = a.op / z if s['tru'] else wl.div(a.op, z)
        return Node(op, a.A / z, a.bound / abs(z), a.single or s['zk'] == 'np32', [a], 1)
    if k == 'neg':
        return Node(-a.op, -a.A, a.bound, a.single, [a], 1)
    if k == 'T':
        return Node(need(a.op.T, 'transpose'), a.A.T, a.bound.T, a.single, [a], 1)
    if k == 'H':
        return Node(need(a.op.H, 'adjoint'), a.A.conj().T, a.bound.T, a.single, [a], 1)
    if k == 'c':
        return Node(a.op.bar, a.A.conj(), a.bound, a.single, [a], 1)
    if k == 'pow':
        A, B = np.eye(len(a.A)), np.eye(len(a.A))
        for _ in range(s['p']):
            A, B = np.dot(A, a.A), np.dot(B, a.bound)
        return Node(a.op ** s['p'], A, B, a.single, [a], 1)
    raise wl.Harness('unknown operation %r' % k)


def need(op, what):
    if op is None:
        raise wl.Fail('the %s of an operator that has one is absent' % what)
    return op


def act(ctx, nd, op, A, bound, x, what):
    """op * x must equal A x."""
    if not (isinstance(op.shape, tuple) and tuple(op.shape) == A.shape):
        raise wl.Fail('%s: shape %s instead of %s' % (what, op.shape, A.shape))
    xb = float(np.max(np.dot(bound, np.abs(x)))) if x.size else 0.
    if xb > 1e13:
        raise wl.Skip('entries too large for exact arithmetic')
    ctx.close(op * x, np.dot(A, x), nd.tol(xb), what)


def act_all(ctx, nd, seed, what='', dts=('f8', 'c16')):
    """The operator, its transpose and its adjoint against the matrix."""
    m, n = nd.A.shape
    for i, dt in enumerate(dts):
        x, y = int_vector(seed + i, n, dt), int_vector(seed + 7 + i, m, dt)
        act(ctx, nd, nd.op, nd.A, nd.bound, x, what + 'A*x')
        act(ctx, nd, need(nd.op.T, 'transpose'), nd.A.T, nd.bound.T, y, what + 'A.T*y')
        act(ctx, nd, need(nd.op.H, 'adjoint'), nd.A.conj().T, nd.bound.T, y, what + 'A.H*y')


def dense(ctx, nd, what=''):
    for f in ('to_array', 'full'):
        got = getattr(nd.op, f)()
        ctx.close(got, nd.A, nd.tol(float(nd.bound.max()) if nd.bound.size else 0.), what + f)


def unchanged(ctx, nd, seed):
    """The leaves still are what they were built as."""
    for (op, A, shape, dtype, sy, he, single) in nd.leaves:
        ctx.ensure(tuple(op.shape) == tuple(shape) and op.dtype == dtype and op.symmetric == sy and op.hermitian == he,
                   'an operand changed its shape, type or flags: %r', op)
        x = int_vector(seed + 3, A.shape[1], 'f8')
        ctx.close(op * x, np.dot(A, x), 1e-3 if single else 1e-10, 'operand after use')
