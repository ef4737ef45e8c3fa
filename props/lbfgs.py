"""Q01-Q03: limited-memory BFGS operators."""
import numpy as np
from vlib import wl
from vlib.check import Check
from vlib.spec import st_, seeds, size

CHECKS = {}


def s_hist(tier, structured=False):
    st = st_()
    lim = 25 if tier == 'thorough' else 10

    @st.composite
    def case(draw):
        n = size(draw, st, 8 if tier == 'thorough' else 6)
        long_ = not draw(st.integers(0, 7))      # A large memory that fills up.
        if long_:
            n = draw(st.integers(3, 12))
        kinds = ('good', 'good', 'good', 'good', 'rand', 'rand', 'rej', 'rej', 'restart', 'restart', 'thin') if not structured else ('good', 'good', 'good', 'good', 'tiny', 'restart')
        steps = []
        for _ in range(draw(st.integers(8, 18)) if long_ else size(draw, st, lim, 30) - (1 if structured else 0)):
            k = draw(st.sampled_from(kinds))
            if long_ and k == 'restart' and draw(st.booleans()):
                k = 'good'
            p = {'k': k, 's': draw(seeds(st))}
            old = [q for q in steps if q['k'] != 'restart']
            if old and not draw(st.integers(0, 9)):      # A former pair once more.
                steps.append(dict(old[-min(len(old), draw(st.sampled_from((1, 1, 1, 2, 3))))]))
                continue
            if k == 'rej':
                p['how'] = draw(st.sampled_from(('neg', 'orth', 'zeros', 'zeroy')))
            if k != 'restart':
                p['e'] = draw(st.sampled_from((0, 0, 0, -3, 3, -8, 8) if structured else (0, 0, 0, 0, -3, 3, -8, 8, -25, 25)))
                p['mul'] = draw(st.booleans())
            steps.append(p)
        return {'n': n, 'np': draw(st.integers(6, 13)) if long_ else size(draw, st, 6, 20), 'scaling': draw(st.booleans()), 'dflt': draw(st.booleans()),
                'h': draw(seeds(st)), 'cond': draw(st.sampled_from((2., 10., 50.))), 'steps': steps, 'v': draw(seeds(st)),
                'vt': draw(st.sampled_from(('f8', 'f8', 'i8', 'f4')))}
    return case()


def pair(c, stp, H):
    """The pair (s, y) of a step."""
    n, r = c['n'], wl.rng(stp['s'])
    k = stp['k']
    s = r.randn(n)
    s *= 2.0 ** stp['e'] / max(np.linalg.norm(s), 1e-3)
    y = np.dot(H, s)
    if k == 'rand':
        z = r.randn(n)
        z *= np.linalg.norm(y) / max(np.linalg.norm(z), 1e-3)
        y = y + .7 * z
        if np.dot(s, y) <= .05 * np.linalg.norm(s) * np.linalg.norm(y):
            y = np.dot(H, s)
    elif k == 'thin':      # Little curvature.
        z = r.randn(n)
        z -= np.dot(z, s) / np.dot(s, s) * s
        if np.linalg.norm(z) > 1e-3:
            y = z / np.linalg.norm(z) * np.linalg.norm(y) + 1e-2 * y
    elif k == 'rej':
        if stp['how'] == 'neg':
            y = -y
        elif stp['how'] == 'zeroy':
            y = np.zeros(n)
        elif stp['how'] == 'zeros':
            s = np.zeros(n)
        else:
            s, y = np.zeros(n), np.zeros(n)
            s[0] = 1.
            if n > 1:
                y[1] = -2.
    return s, y


def bfgs(B, s, y):
    Bs = np.dot(B, s)
    return B - np.outer(Bs, Bs) / np.dot(s, Bs) + np.outer(y, y) / np.dot(s, y)


def model(c, pairs):
    """Dense B and H of the recursion over `pairs`, the worst condition number met, and that of the compact form."""
    n = c['n']
    g = 1.0
    if c['scaling'] and pairs:
        s, y = pairs[-1]
        g = np.dot(s, y) / np.dot(y, y)
    B = np.eye(n) / g
    Hm = np.eye(n) * g
    worst = 1.0
    for s, y in pairs:
        B = bfgs(B, s, y)
        rho = 1. / np.dot(s, y)
        V = np.eye(n) - rho * np.outer(s, y)
        Hm = np.dot(np.dot(V, Hm), V.T) + rho * np.outer(s, s)
        worst = max(worst, np.linalg.cond(B))
    mid = 1.0
    if pairs:
        S = np.array([p[0] for p in pairs]).T
        Y = np.array([p[1] for p in pairs]).T
        SY = np.dot(S.T, Y)
        Lo = np.tril(SY, -1)
        d = np.sqrt(np.concatenate((np.diag(np.dot(S.T, S)) / g, np.diag(SY))))
        M = np.vstack((np.hstack((np.dot(S.T, S) / g, Lo)), np.hstack((Lo.T, -np.diag(np.diag(SY))))))
        mid = np.linalg.cond(M) + np.linalg.cond(M / np.outer(d, d))
    return B, Hm, worst, mid


def as_matrix(op, n):
    return np.array([op * e for e in np.eye(n)]).T


def run_history(c, ctx, visit):
    L = wl.L
    n = c['n']
    kw = {'scaling': True} if c['scaling'] else ({} if c['dflt'] else {'scaling': False})
    npairs = c['np']
    if c['dflt'] and c['np'] == 5:
        ops = [f(n, **kw) for f in (L.InverseLBFGSOperator, L.LBFGSOperator, L.CompactLBFGSOperator)]
    else:
        ops = [f(n, npairs, **kw) for f in (L.InverseLBFGSOperator, L.LBFGSOperator, L.CompactLBFGSOperator)]
    for op in ops:
        ctx.ensure(tuple(op.shape) == (n, n) and op.symmetric and op.T is op, 'an L-BFGS operator is not flagged symmetric')
        ctx.ensure(op.npairs == npairs, 'npairs is %r', op.npairs)
    H = wl.spd(wl.rng(c['h']), n, c['cond'])
    pairs = []
    visit(ops, pairs, None)
    dropped = rejected = False
    for t, stp in enumerate(c['steps']):
        if stp['k'] == 'restart':
            for op in ops:
                op.restart()
            pairs = []
            ctx.label('restart')
        else:
            s, y = pair(c, stp, H)
            for op in ops:
                s1, y1 = s.copy(), y.copy()
                op.store(s1, y1)
                ctx.ensure(np.array_equal(s1, s) and np.array_equal(y1, y), 'store changed its arguments')
                s1 += 1.
                y1 -= 1.
            if np.dot(s, y) > 0:
                ctx.ensure(np.dot(s, y) > 1e-18, 'generator')
                pairs = pairs + [(s, y)]
                if len(pairs) > npairs:
                    pairs = pairs[1:]
                    ctx.label('oldest pair dropped')
                    dropped = True
            else:
                ctx.label('rejected')
                rejected = True
            if stp['mul'] or t == len(c['steps']) - 1:
                visit(ops, pairs, (s, y))
            continue
        visit(ops, pairs, None)
    if len(pairs) > 1 or dropped or rejected:
        ctx.nt()


def c_q01(c, ctx):
    n = c['n']

    def visit(ops, pairs, last):
        B, Hm, worst, mid = model(c, pairs)
        if worst > 1e7:
            ctx.skip('ill-conditioned history')
        v = wl.int_vector(c['v'], n, c['vt'])
        for op, M, what, k in ((ops[0], Hm, 'inverse operator', 1.), (ops[1], B, 'forward operator', 1.), (ops[2], B, 'compact operator', mid)):
            if k > 1e9:
                ctx.label('compact form ill-conditioned')
                continue
            tol = 1e-12 * max(worst, k) * n * (len(pairs) + 1) * max(np.linalg.norm(M, 2), 1.)
            ctx.close(as_matrix(op, n), M, tol, '%s after %d pairs' % (what, len(pairs)))
            w = v.copy()
            ctx.close(op * w, np.dot(M, v.astype(float)), tol * (1 + np.linalg.norm(v)), what + ' times an %s vector' % c['vt'])
            ctx.ensure(np.array_equal(v, w), 'the vector was changed')
    run_history(c, ctx, visit)


CHECKS['Q01'] = Check(lambda tier: s_hist(tier), c_q01, 1800, 50000,
    'histories of 1-10 (thorough 25) stored, rejected and restart steps with memory 1-6 in dimension 1-6 (thorough 8), one in eight with 8-18 steps, memory 6-13 and dimension 3-12, pairs of lengths 2^-25 to 2^25 and of little curvature, products at random points of the history; non-trivial: at least two pairs in effect, or a pair dropped or rejected',
    ['histories whose dense matrices have condition number above 1e7 are left out; the compact form is compared when its middle matrix has condition number below 1e9',
     'accepted pairs have inner products well above the 1e-20 threshold'])


def c_q02(c, ctx):
    n = c['n']

    def visit(ops, pairs, last):
        B, Hm, worst, mid = model(c, pairs)
        if worst > 1e7:
            ctx.skip('ill-conditioned history')
        mats = [as_matrix(op, n) for op in ops]
        use = [0, 1] + ([2] if mid <= 1e9 else [])
        eps = [1e-12 * max(worst, mid if i == 2 else 1.) * n * (len(pairs) + 1) for i in range(3)]
        for i in use:
            M, what = mats[i], ('inverse', 'forward', 'compact')[i]
            nm = np.linalg.norm(M, 2)
            ctx.close(M - M.T, np.zeros((n, n)), eps[i] * nm, '%s operator is not symmetric: difference' % what)
            lam = np.linalg.eigvalsh(.5 * (M + M.T))
            if eps[i] * worst < .1:
                ctx.ensure(lam[0] > 0, '%s operator has eigenvalue %g', what, lam[0])
        for i in use[1:]:
            ctx.close(np.dot(mats[i], mats[0]), np.eye(n), eps[i] * worst, 'product of the %s and inverse operators' % ('', 'forward', 'compact')[i])
        if 2 in use:
            ctx.close(mats[1], mats[2], eps[2] * np.linalg.norm(mats[1], 2), 'forward and compact operators differ')
        if pairs:
            s, y = pairs[-1]
            ctx.close(ops[0] * y, s, eps[0] * np.linalg.norm(mats[0], 2) * np.linalg.norm(y), 'inverse operator times y')
            for i in use[1:]:
                ctx.close(ops[i] * s, y, eps[i] * np.linalg.norm(mats[1], 2) * np.linalg.norm(s), '%s operator times s' % ('', 'forward', 'compact')[i])
        else:
            for i in range(3):
                ctx.close(mats[i], np.eye(n), 0., 'operator without pairs')
    run_history(c, ctx, visit)


CHECKS['Q02'] = Check(lambda tier: s_hist(tier), c_q02, 1800, 50000,
    'the same histories as for Q01, the invariants evaluated at random points and at the end; non-trivial: at least two pairs in effect, or a pair dropped or rejected',
    CHECKS['Q01'].assumptions)


# ---------------------------------------------------------------- Q03
def structured_reference(c, trip):
    """Smallest |a's| / (|a||s|) and largest norm met by the structured recursion (as in [Nocedal06] with the
    curvature of the initial matrix), a measure of how close the update comes to breaking down."""
    n = c['n']
    g = 1.
    if c['scaling'] and trip:
        s, y, yd = trip[-1]
        g = np.dot(s, y) / np.dot(y, y)
    B = np.eye(n) / g
    worst, big = 1., np.linalg.norm(B)
    for s, y, yd in trip:
        coef = (g * np.dot(s, y) / np.dot(s, s)) ** .5
        Bs = np.dot(B, s)
        d = yd - Bs
        for a in (y + coef * Bs, y + np.sqrt(abs(np.dot(s, y) / np.dot(s, Bs))) * Bs if np.dot(s, Bs) else y):
            worst = min(worst, abs(np.dot(a, s)) / (np.linalg.norm(a) * np.linalg.norm(s)))
        if worst < 1e-3:
            return 0., 0.
        a = y + coef * Bs
        at = np.dot(a, s)
        B = B + (np.outer(d, a) + np.outer(a, d)) / at - np.dot(d, s) / at ** 2 * np.outer(a, a)
        big = max(big, np.linalg.norm(B))
    return worst, big


def c_q03(c, ctx):
    L = wl.L
    n = c['n']
    kw = {'scaling': True} if c['scaling'] else {}
    op = L.StructuredLBFGSOperator(n, c['np'], **kw)
    ctx.ensure(tuple(op.shape) == (n, n) and op.symmetric and op.T is op, 'the operator is not flagged symmetric')
    H = wl.spd(wl.rng(c['h']), n, c['cond'])
    ctx.close(as_matrix(op, n), np.eye(n), 0., 'operator before any pair')
    trip = []
    dropped = False
    for t, stp in enumerate(c['steps']):
        if stp['k'] == 'restart':
            op.restart()
            trip = []
            ctx.close(as_matrix(op, n), np.eye(n), 0., 'operator after a restart')
            ctx.label('restart')
            continue
        s, y = pair(c, stp, H)
        if stp['k'] == 'tiny':
            s, y = s * 1e-7, y * 1e-7
        r = wl.rng(stp['s'] + 5)
        yd = np.dot(wl.spd(r, n, 5.), s) if r.uniform() < .5 else y + .3 * np.linalg.norm(y) * r.randn(n)
        before = as_matrix(op, n)
        ys = np.dot(s, y)
        sBs = np.dot(s, np.dot(before, s))
        if sBs <= 1e-3 * np.dot(s, s) * np.linalg.norm(before):
            ctx.skip('curvature of the current operator not clearly positive')
        val = ys + np.sqrt(ys * sBs)
        if .5e-8 < val < 2e-8:
            ctx.skip('pair at the acceptance threshold')
        a3 = [s.copy(), y.copy(), yd.copy()]
        op.store(*a3)
        ctx.ensure(all(np.array_equal(p, q) for p, q in zip(a3, (s, y, yd))), 'store changed its arguments')
        for a in a3:
            a += 1.
        if val < 1e-8:
            ctx.close(as_matrix(op, n), before, 0., 'operator after a rejected pair')
            ctx.label('rejected')
            continue
        trip = trip + [(s, y, yd)]
        full = len(trip) > c['np']
        if full:
            trip = trip[1:]
            dropped = True
            ctx.label('oldest pair dropped')
        worst, big = structured_reference(c, trip)
        if worst < 1e-3 or big > 1e6:
            ctx.skip('update close to breaking down')
        eps = 1e-13 / worst ** 2 * big * (1 + len(trip)) ** 2 * n
        if stp['mul'] or t == len(c['steps']) - 1:
            M = as_matrix(op, n)
            ctx.close(M, M.T, eps, 'the operator is not symmetric: matrix')
            v = wl.int_vector(c['v'], n, c['vt'])
            ctx.close(op * v, np.dot(M, v.astype(float)), eps * (1 + np.linalg.norm(v)) * 10, 'product')
        ctx.close(op * s, yd, eps * (np.linalg.norm(s) + np.linalg.norm(yd)), 'operator times s')
        if not full and not c['scaling'] and n > 3:
            # The update has rank two: nothing changes across yd, y and the former product with s.
            v = wl.rng(stp['s'] + 9).randn(n)
            Bs = np.dot(before, s)
            Q = np.linalg.qr(np.array([w / np.linalg.norm(w) for w in (yd, y, Bs)]).T)[0]
            v = v - np.dot(Q, np.dot(Q.T, v))
            v = v - np.dot(Q, np.dot(Q.T, v))
            ctx.close(op * v, np.dot(before, v), eps * (1 + np.linalg.norm(v)) * 100, 'product with a vector orthogonal to the update')
            ctx.label('rank-two update')
        if n > 3 * len(trip):
            # Across all its vectors the operator is the initial matrix.
            v = wl.rng(stp['s'] + 9).randn(n)
            Q = np.linalg.qr(np.array([w / np.linalg.norm(w) for p in trip for w in p]).T)[0]
            v = v - np.dot(Q, np.dot(Q.T, v))
            v = v - np.dot(Q, np.dot(Q.T, v))
            g = ys / np.dot(y, y) if c['scaling'] else 1.
            ctx.close(op * v, v / g, eps * (1 + np.linalg.norm(v)) * 100, 'product with a vector orthogonal to all pairs')
            ctx.label('initial matrix')
        if (stp['mul'] or full) and all(np.dot(p[0], p[1]) > 1e-6 for p in trip):
            fresh = L.StructuredLBFGSOperator(n, c['np'], **kw)
            taken = True
            for p in trip:
                taken = taken and np.dot(p[0], fresh * p[0]) > 1e-6 * np.dot(p[0], p[0])     # Else it may refuse a pair.
                fresh.store(*[w.copy() for w in p])
            if not taken:
                continue
            ctx.close(as_matrix(op, n), as_matrix(fresh, n), eps, 'operator compared with one given the last pairs only: matrix')
            ctx.label('compared with a fresh operator')
    if len(trip) > 1 or dropped:
        ctx.nt()


CHECKS['Q03'] = Check(lambda tier: s_hist(tier, True), c_q03, 2800, 80000,
    'histories of up to 10 (thorough 25) structured pairs (s, y, yd) with positive curvature, tiny pairs that must be rejected and restarts; non-trivial: at least two pairs in effect',
    ['histories in which an update comes close to breaking down, or the current curvature is not clearly positive, are left out'])
