"""L08-L10: block and block diagonal operators."""
import numpy as np
from vlib import wl, spec
from vlib.check import Check
from vlib.spec import (st_, seeds, size, draw_leaf, draw_sym, draw_upper, build, act, act_all, dense, unchanged, Node, assemble, fill,
                       blkdiag)
from vlib.wl import int_vector

CHECKS = {}
INTEGER = 'blocks have small integer entries, so comparisons are exact up to a rounding allowance for single precision'


def draw_index(draw, st, n, rows=True):
    """An integer or a slice [a, b, c] selecting at least one of n positions."""
    if draw(st.booleans()):
        return draw(st.integers(-n, n - 1))
    while True:
        lim = st.one_of(st.none(), st.integers(-n - 1, n + 1))
        a, b, c = draw(lim), draw(lim), draw(st.sampled_from((None, None, 1, 2, -1, -2)))
        if range(n)[slice(a, b, c)]:
            return [a, b, c]
        if draw(st.booleans()):
            return [None, None, None]


def idx(i):
    return slice(*i) if isinstance(i, list) else i


def positions(i, n):
    return list(range(n))[idx(i)] if isinstance(i, list) else [i % n]


def sizes(draw, st, top):
    """Sizes of blocks: up to top of up to three, now and then more or one larger."""
    odd = draw(st.integers(0, 30))
    rs = draw(st.lists(st.integers(1, 3), min_size=1, max_size=top if odd < 30 else 8))
    if odd == 29:
        rs[-1] += draw(st.integers(8, 20))
    return rs


# ---------------------------------------------------------------- L08
def s_l08(tier):
    st = st_()
    big = tier == 'thorough'

    @st.composite
    def case(draw):
        flag = draw(st.sampled_from(('', '', 's', 'h')))
        dts = draw(st.sampled_from((None, None, ('f8', 'i8'), ('c16',))))
        depth = draw(st.sampled_from((0, 1, 1, 2 if big else 1)))
        rs = sizes(draw, st, 4 if big else 3)
        cs = rs if flag else sizes(draw, st, 4 if big else 3)
        if flag:
            b = draw_upper(draw, st, rs, flag, dts, depth)
        else:
            b = [[draw_leaf(draw, st, p, q, None, dts, depth) for q in cs] for p in rs]
        c = {'flag': flag, 'b': b, 's': draw(seeds(st)), 'pre': draw(st.booleans())}
        c['idx'] = [[draw_index(draw, st, len(rs)), draw_index(draw, st, len(cs))] if draw(st.integers(0, 3)) else
                    [draw_index(draw, st, len(rs))] for _ in range(draw(st.integers(1, 3)))]
        return c
    return case()


def build_block(c, ctx):
    L = wl.L
    nodes = [[build(b) for b in row] for row in c['b']]
    given = [[b.op for b in row] for row in nodes]
    keep = [list(row) for row in given]
    cls = L.BlockPreconditioner if c.get('pre') else L.BlockLinearOperator
    K = cls(given, symmetric=c['flag'] == 's', hermitian=c['flag'] == 'h')
    ctx.ensure(len(given) == len(keep) and all(len(p) == len(q) and all(u is v for u, v in zip(p, q)) for p, q in zip(given, keep)),
               'the lists passed in were changed')
    full = fill(nodes, c['flag']) if c['flag'] else nodes
    return K, nodes, full, given


def node_of(K, full, kids):
    A, B = assemble(full)
    flat = [b for row in full for b in row]
    nd = Node(K, A, B, any(b.single for b in flat))
    for k in kids:
        nd.leaves += k.leaves
    return nd


def same_flags(ctx, K, c, flat_ops):
    ctx.ensure(K.symmetric == (c['flag'] == 's') and K.hermitian == (c['flag'] == 'h'),
               'flags (%s, %s) for kind %r', K.symmetric, K.hermitian, c['flag'])
    want = np.result_type(*[o.dtype for o in flat_ops])
    ctx.ensure(np.dtype(K.dtype) == want, 'type %s instead of %s', K.dtype, want)


def c_l08(c, ctx):
    L = wl.L
    K, nodes, full, given = build_block(c, ctx)
    flat = [b for row in nodes for b in row]
    nd = node_of(K, full, flat)
    act_all(ctx, nd, c['s'], 'block operator: ', ('f8', 'c16'))
    dense(ctx, nd, 'block operator: ')
    same_flags(ctx, K, c, [b.op for b in flat])
    nr, nc = len(full), len(full[0])
    if c['pre']:
        x = int_vector(c['s'] + 9, nd.A.shape[1], 'c16')
        ctx.close(K.solve(x), np.dot(nd.A, x), nd.tol(float(np.dot(nd.bound, np.abs(x)).max())), 'solve')
    # Blocks by position.
    for i in range(nr):
        for j in range(nc):
            blk = K[i, j]
            if not c['flag'] or i == j:
                want = nodes[i][j if not c['flag'] else 0].op
                ctx.ensure(blk is want, 'block (%d, %d) is another operator: %r instead of %r', i, j, blk, want)
            b = full[i][j]
            act(ctx, b, blk, b.A, b.bound, int_vector(c['s'] + i, b.A.shape[1], 'c16'), 'block (%d, %d)' % (i, j))
    for ix in c['idx']:
        ri = positions(ix[0], nr)
        ci = positions(ix[1], nc) if len(ix) == 2 else list(range(nc))
        sub = [[full[i][j] for j in ci] for i in ri]
        got = K[idx(ix[0]), idx(ix[1])] if len(ix) == 2 else K[idx(ix[0])]
        if len(ix) == 2 and not isinstance(ix[0], list) and not isinstance(ix[1], list):
            b = sub[0][0]
            act(ctx, b, got, b.A, b.bound, int_vector(c['s'], b.A.shape[1], 'c16'), 'indexed block')
            continue
        ctx.ensure(isinstance(got, L.BlockLinearOperator), 'indexing with %r gives %r', ix, got)
        snd = node_of(got, sub, [])
        act_all(ctx, snd, c['s'] + 1, 'indexed %r: ' % (ix,), ('c16',))
        ctx.ensure(np.dtype(got.dtype) == np.result_type(*[o.dtype for row in got.blocks for o in row]), 'type of the submatrix')
    for bad in ((nr, 0), (0, nc), (-nr - 1, 0), (0, -nc - 1)):
        ctx.refuses('indexing a %d x %d block operator with %r' % (nr, nc, bad), lambda: K[bad], IndexError)
    # Iteration and containment.
    seen = [list(row) for row in K]
    ctx.ensure([len(r) for r in seen] == [nc] * nr, 'iteration gives rows of %r blocks', [len(r) for r in seen])
    for i in range(nr):
        for j in range(nc):
            b = full[i][j]
            act(ctx, b, seen[i][j], b.A, b.bound, int_vector(c['s'] + 2, b.A.shape[1], 'c16'), 'iterated block (%d, %d)' % (i, j))
            ctx.ensure(seen[i][j] in K, 'an iterated block is not contained')
            ctx.ensure(K.blocks[i][j] is seen[i][j], 'blocks and iteration differ')
    for b in flat:
        if b.op.T.T is b.op and b.op.H.H is b.op:
            ctx.ensure(b.op in K, 'a block is not contained')
    ctx.ensure(L.IdentityOperator(2) not in K, 'a foreign operator is contained')
    # Not shared with the caller.
    Z = L.ZeroOperator(1, 1)
    for row in given:
        row[0] = Z
        row.append(Z)
    del given[-1]
    act_all(ctx, nd, c['s'] + 2, 'after the caller changed the lists: ', ('c16',))
    unchanged(ctx, nd, c['s'])
    if nr * nc > 1 and np.any(nd.A):
        ctx.nt()
    ctx.label(c['flag'] or 'plain')


CHECKS['L08'] = Check(s_l08, c_l08, 2100, 40000,
    'plain, symmetric and Hermitian layouts of 1-3 (thorough 1-4) block rows and columns of blocks of every kind, with random index pairs; non-trivial: more than one block and a nonzero matrix',
    [INTEGER])


# ---------------------------------------------------------------- L09
def s_l09(tier):
    st = st_()
    big = tier == 'thorough'

    @st.composite
    def case(draw):
        dts = draw(st.sampled_from((None, None, ('f8', 'i8'), ('c16',))))
        k = size(draw, st, 6 if big else 4, 12)
        mode = draw(st.sampled_from(('any', 'any', 's', 'h', 'mix')))
        b = []
        for _ in range(k):
            if mode == 'any':
                b.append(draw_leaf(draw, st, draw(st.integers(1, 3)), draw(st.integers(1, 3)), None, dts, 1))
            else:
                f = mode if mode in 'sh' else draw(st.sampled_from('sh'))
                b.append(draw_sym(draw, st, draw(st.integers(1, 3)), f, dts, 1))
        return {'b': b, 's': draw(seeds(st)), 'pre': draw(st.booleans()),
                'idx': [draw_index(draw, st, k) for _ in range(draw(st.integers(1, 3)))]}
    return case()


def bd_node(op, nodes):
    return Node(op, blkdiag([b.A for b in nodes]), blkdiag([b.bound for b in nodes]).real, any(b.single for b in nodes), nodes, 1)


def bd_same(ctx, D, nodes, seed, what, dts=('f8', 'c16')):
    nd = bd_node(D, nodes)
    act_all(ctx, nd, seed, what, dts)
    ctx.ensure(D.symmetric == all(b.op.symmetric for b in nodes), '%ssymmetric flag is %s', what, D.symmetric)
    ctx.ensure(D.hermitian == all(b.op.hermitian for b in nodes), '%sHermitian flag is %s', what, D.hermitian)
    want = np.result_type(*[b.op.dtype for b in nodes])
    ctx.ensure(np.dtype(D.dtype) == want, '%stype %s instead of %s', what, D.dtype, want)
    ctx.ensure(len(D.blocks) == len(nodes), '%s%d blocks instead of %d', what, len(D.blocks), len(nodes))
    for i, b in enumerate(nodes):
        ctx.ensure(D[i] is b.op and D.blocks[i] is b.op, '%sblock %d is another operator', what, i)
    return nd


def c_l09(c, ctx):
    L = wl.L
    nodes = [build(b) for b in c['b']]
    given = [b.op for b in nodes]
    D = (L.BlockDiagonalPreconditioner if c['pre'] else L.BlockDiagonalLinearOperator)(given)
    ctx.ensure(len(given) == len(nodes) and all(u is b.op for u, b in zip(given, nodes)), 'the list passed in was changed')
    nd = bd_same(ctx, D, nodes, c['s'], '')
    dense(ctx, nd, '')
    if c['pre']:
        x = int_vector(c['s'] + 9, nd.A.shape[1], 'c16')
        ctx.close(D.solve(x), np.dot(nd.A, x), nd.tol(float(np.dot(nd.bound, np.abs(x)).max())), 'solve')
    k = len(nodes)
    for ix in c['idx']:
        if isinstance(ix, list):
            S = D[idx(ix)]
            ctx.ensure(isinstance(S, L.BlockDiagonalLinearOperator), 'slicing gives %r', S)
            bd_same(ctx, S, nodes[idx(ix)], c['s'] + 1, 'slice %r: ' % (ix,), ('c16',))
        else:
            ctx.ensure(D[ix] is nodes[ix].op, 'block %d is another operator', ix)
    for bad in (k, -k - 1):
        ctx.refuses('block %d of %d' % (bad, k), lambda: D[bad], IndexError)
    given[0] = L.ZeroOperator(1, 1)
    given.append(given[0])
    bd_same(ctx, D, nodes, c['s'] + 2, 'after the caller changed the list: ', ('c16',))
    unchanged(ctx, nd, c['s'])
    if k > 1 and np.any(nd.A):
        ctx.nt()
    ctx.label('symmetric' if D.symmetric else 'general', 'rectangular' if any(b.A.shape[0] != b.A.shape[1] for b in nodes) else 'square')


CHECKS['L09'] = Check(s_l09, c_l09, 3500, 60000,
    'lists of 1-4 (thorough 1-6) blocks of every kind, rectangular or square, symmetric, Hermitian or mixed, with random positions and slices; non-trivial: more than one block and a nonzero matrix',
    [INTEGER])


# ---------------------------------------------------------------- L10
def s_l10(tier):
    st = st_()
    lim = 8 if tier == 'thorough' else 4

    def anyblock(draw, sizes, flag, dts, i, j, cs):
        """A block for position (i, j), of the right kind most of the time."""
        if flag and i == j:
            if draw(st.integers(0, 3)):
                return draw_sym(draw, st, sizes[i], flag, dts, 1)
            return draw_leaf(draw, st, sizes[i], sizes[i], ('mat', 'arr', 'diag', 'coord'), dts, 0)
        p, q = sizes[i], cs[j]
        if not draw(st.integers(0, 3)):
            p, q = max(1, p + draw(st.integers(-1, 1))), max(1, q + draw(st.integers(-1, 1)))
        return draw_leaf(draw, st, p, q, None, dts, 1)

    @st.composite
    def case(draw):
        kind = draw(st.sampled_from(('plain', 'plain', 's', 'h', 'bd', 'bd')))
        dts = draw(st.sampled_from((None, ('f8', 'i8', 'c16'))))
        c = {'kind': kind, 's': draw(seeds(st)), 'steps': []}
        if kind == 'bd':
            k = size(draw, st, 4, 12)
            mk = lambda: (draw_leaf(draw, st, draw(st.integers(1, 3)), draw(st.integers(1, 3)), None, dts, 1)
                          if draw(st.booleans()) else draw_sym(draw, st, draw(st.integers(1, 3)), draw(st.sampled_from('sh')), dts, 1))
            c['b'] = [mk() for _ in range(k)]
            for _ in range(draw(st.integers(1, lim))):
                how = draw(st.sampled_from(('one', 'one', 'slice', 'slice', 'bad', 'badlist')))
                stp = {'how': how}
                if how in ('slice', 'badlist'):
                    a = draw(st.integers(0, k - 1))
                    b = draw(st.integers(a, k))
                    step = draw(st.sampled_from((None, None, 2)))
                    if step:
                        cnt = len(range(k)[a:b:step])
                    else:
                        cnt = draw(st.integers(1, 3))
                        if how == 'slice':
                            k = k - (b - a) + cnt
                    stp['i'] = [a, b, step]
                    stp['v'] = [mk() for _ in range(cnt)]
                    stp['tuple'] = draw(st.booleans())
                else:
                    stp['i'] = draw(st.integers(-k, k - 1))
                    stp['v'] = mk()
                if how.startswith('bad'):
                    stp['bad'] = draw(st.integers(0, 4))
                c['steps'].append(stp)
            return c
        flag = kind if kind != 'plain' else ''
        rs = sizes(draw, st, 3)
        cs = rs if flag else sizes(draw, st, 3)
        c['flag'] = flag
        c['b'] = draw_upper(draw, st, rs, flag, dts, 1) if flag else [[draw_leaf(draw, st, p, q, None, dts, 1) for q in cs] for p in rs]
        for _ in range(draw(st.integers(1, lim))):
            how = draw(st.sampled_from(('one', 'one', 'one', 'many', 'spread', 'bad')))
            i = draw(st.integers(0, len(rs) - 1))
            j = draw(st.integers(i if flag else 0, len(cs) - 1))
            if how in ('many', 'spread') and flag:
                how = 'one'
            if how == 'many':
                i2, j2 = draw(st.integers(i, len(rs) - 1)), draw(st.integers(j, len(cs) - 1))
                v = [[anyblock(draw, rs, flag, dts, p, q, cs) for q in range(j, j2 + 1)] for p in range(i, i2 + 1)]
                c['steps'].append({'how': how, 'i': [i, i2 + 1], 'j': [j, j2 + 1], 'v': v})
            elif how == 'spread':
                i2, j2 = draw(st.integers(i, len(rs) - 1)), draw(st.integers(j, len(cs) - 1))
                c['steps'].append({'how': how, 'i': [i, i2 + 1], 'j': [j, j2 + 1], 'v': anyblock(draw, rs, flag, dts, i, j, cs)})
            else:
                neg = draw(st.booleans())
                stp = {'how': how, 'i': i - (len(rs) if neg else 0), 'j': j - (len(cs) if neg else 0),
                       'v': anyblock(draw, rs, flag, dts, i, j, cs)}
                if how == 'bad':
                    stp['bad'] = draw(st.integers(0, 4))
                c['steps'].append(stp)
        return c
    return case()


def bads(i):
    return (3, None, 'A', 2.5, np.ones((2, 2)))[i]


def c_l10(c, ctx):
    (l10_bd if c['kind'] == 'bd' else l10_blk)(c, ctx)


def l10_bd(c, ctx):
    L = wl.L
    nodes = [build(b) for b in c['b']]
    D = L.BlockDiagonalLinearOperator([b.op for b in nodes])
    done = 0
    bd_same(ctx, D, nodes, c['s'], 'at first: ', ('c16',))
    for t, stp in enumerate(c['steps']):
        what = 'after assignment %d: ' % t
        n0 = D.nMatvec
        if stp['how'] == 'one':
            v = build(stp['v'])
            D[stp['i']] = v.op
            nodes[stp['i']] = v
            done += 1
        elif stp['how'] == 'slice':
            v = [build(b) for b in stp['v']]
            given = [b.op for b in v]
            D[idx(stp['i'])] = tuple(given) if stp['tuple'] else given
            nodes[idx(stp['i'])] = v
            ctx.ensure(all(g is b.op for g, b in zip(given, v)), 'the assigned list was changed')
            done += 1
        elif stp['how'] == 'bad':
            def f():
                D[stp['i']] = bads(stp['bad'])
            ctx.refuses('block %r' % (bads(stp['bad']),), f)
            ctx.label('refused')
        else:
            v = [build(b).op for b in stp['v']]
            v.insert(stp['bad'] % (len(v) + 1), bads(stp['bad']))

            def f():
                D[idx(stp['i'])] = v
            ctx.refuses('blocks %r' % (v,), f)
            ctx.label('refused')
        ctx.ensure(D.nMatvec == n0, 'an assignment changed the product count')
        nd = bd_same(ctx, D, nodes, c['s'] + t, what)
    dense(ctx, nd, 'finally: ')
    if done:
        ctx.nt()
    ctx.label('block diagonal')


def consistent(nodes, flag):
    """Whether the layout of nodes (upper triangle if flagged) is consistent."""
    if flag:
        for i, row in enumerate(nodes):
            if not (row[0].op.symmetric if flag == 's' else row[0].op.hermitian):
                return False
        full = fill(nodes, flag)
    else:
        full = nodes
    for row in full:
        if len(set(b.A.shape[0] for b in row)) > 1:
            return False
    for col in zip(*full):
        if len(set(b.A.shape[1] for b in col)) > 1:
            return False
    return True


def l10_blk(c, ctx):
    L = wl.L
    flag = c['flag']
    K, nodes, full, given = build_block(c, ctx)

    def same(what, dts=('f8', 'c16')):
        full = fill(nodes, flag) if flag else nodes
        flat = [b for row in nodes for b in row]
        nd = node_of(K, full, [])
        act_all(ctx, nd, c['s'], what, dts)
        same_flags(ctx, K, c, [b.op for b in flat])
        for i, row in enumerate(nodes):
            for j, b in enumerate(row):
                j2 = j + (i if flag else 0)
                got = K[i, j2]
                if not flag or j == 0:
                    ctx.ensure(got is b.op, '%sblock (%d, %d) is another operator', what, i, j2)
                act(ctx, b, got, b.A, b.bound, int_vector(c['s'] + 3, b.A.shape[1], 'c16'), what + 'block (%d, %d)' % (i, j2))
                if flag and j:
                    t = full[j2][i]
                    act(ctx, t, K[j2, i], t.A, t.bound, int_vector(c['s'] + 3, t.A.shape[1], 'c16'), what + 'block (%d, %d)' % (j2, i))
        ctx.ensure(len(K.blocks) == len(nodes) and all(len(r) == len(full[0]) for r in K.blocks), '%sthe layout changed', what)
        return nd

    nd = same('at first: ', ('c16',))
    done = 0
    for t, stp in enumerate(c['steps']):
        new = [list(row) for row in nodes]
        n0 = K.nMatvec
        if stp['how'] in ('one', 'bad'):
            i, j = stp['i'] % len(full), stp['j'] % len(full[0])
            v = build(stp['v'])
            new[i][j - (i if flag else 0)] = v
            if stp['how'] == 'bad':
                w = bads(stp['bad'])
                if isinstance(w, np.ndarray):
                    w = 'B'
                ok = False
            else:
                w, ok = v.op, consistent(new, flag)
            where = (stp['i'], stp['j'])
        else:
            (i, i2), (j, j2) = stp['i'], stp['j']
            where = (slice(i, i2), slice(j, j2))
            if stp['how'] == 'spread':
                v = build(stp['v'])
                for p in range(i, i2):
                    for q in range(j, j2):
                        new[p][q] = v
                w = v.op
            else:
                vs = [[build(b) for b in row] for row in stp['v']]
                for p in range(i, i2):
                    for q in range(j, j2):
                        new[p][q] = vs[p - i][q - j]
                # An object array: numpy under PyPy cannot assign nested lists of objects.
                w = np.empty((i2 - i, j2 - j), dtype=object)
                for p in range(i2 - i):
                    for q in range(j2 - j):
                        w[p, q] = vs[p][q].op
            ok = consistent(new, flag)

        def f():
            K[where] = w
        if ok:
            f()
            nodes = new
            done += 1
            ctx.label('accepted ' + stp['how'])
        else:
            ctx.refuses('an inconsistent assignment (%s) at %r' % (stp['how'], where), f)
            ctx.label('refused')
        ctx.ensure(K.nMatvec == n0, 'an assignment changed the product count')
        nd = same('after assignment %d: ' % t)
    dense(ctx, nd, 'finally: ')
    if done:
        ctx.nt()
    ctx.label(flag or 'plain')


CHECKS['L10'] = Check(s_l10, c_l10, 2100, 40000,
    'sequences of 1-4 (thorough 1-8) assignments, some of them ill-formed, to block operators (plain, symmetric, Hermitian: upper triangle) and block diagonal operators (positions and slices, possibly changing the number of blocks), compared with the matrix assembled from a model of the blocks after every step; non-trivial: at least one accepted assignment',
    [INTEGER, 'in symmetric and Hermitian operators only positions of the upper triangle, which defines the operator, are assigned'])
