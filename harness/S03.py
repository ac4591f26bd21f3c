"""Multiplier estimates: sign conditions and stationarity of the least-squares problem they come from."""
from .common import Struct
import numpy as np

BOUNDS = ('n<=3 variables, me<=2 equality constraints, up to 2 slack variables; gradients, Jacobian, iterate, bounds in boxes of '
          'half-width 10; each bound present or infinite; the bounded least-squares solver is an arbitrary feasible answer '
          '(its own guarantee is a separate property)')
ASSUMPTIONS = ['the bounded least-squares solver returns a point within the bounds it is given',
               'the matrix handed to the convexity repair (a Gram matrix) comes back unchanged']
INF = 1e10


def mult(c):
    n, me, ns = c.case['n'], c.case['me'], c.case.get('ns', 0)
    kinds = c.case['bounds']
    x = c.col('x', n, -10, 10)
    lb, ub = [], []
    for i, k in enumerate(kinds):
        lb.append(c.real('lb%d' % i, -20, 20) if k in 'lb' else -1e20)
        ub.append(c.real('ub%d' % i, -20, 20) if k in 'ub' else 1e20)
        if k == 'b':
            c.assume(lb[i] < ub[i] - 1e-3)
        if k in 'lb':
            c.assume(lb[i] <= x[i, 0])
        if k in 'ub':
            c.assume(x[i, 0] <= ub[i])
    lb, ub = c.array(lb).reshape(-1, 1), c.array(ub).reshape(-1, 1)
    g = c.col('g', n, -10, 10)
    ae = c.mat('a', me, n, -10, 10) if me else c.array(np.zeros((0, n)))
    sl = c.col('s', ns, -5, 5) if ns else c.array([])
    glob = c.mod('sqpdfo_global_variables')
    glob.set_nbr_slacks(ns)
    glob.set_slacks(sl)
    rec = {}

    def blls(A, b, lo, up, **k):
        rec.update(A=A, b=b, lo=lo, up=up)
        m = len(lo)
        w = []
        for i in range(m):
            v = c.real('w%d' % i, -100, 100)
            for j in range(2):
                bd = (lo, up)[j][i, 0]
                if abs(bd) != np.inf:
                    c.assume(v >= bd if j == 0 else v <= bd)
            w.append(v)
        rec['w'] = c.array(w).reshape(-1, 1)
        return rec['w'], None, None, 0
    M = 'sqpdfo_compute_multiplier'
    c.stub(M, 'blls_', blls)
    c.stub(M, 'sqpdfo_check_convex_', lambda A, o: A)
    info = Struct(g=g, ae=ae, flag=7)
    o = Struct(inf=INF, dxmin=1e-6, verbose=0)
    g0, ae0, x0 = g.copy(), ae.copy(), x.copy()
    args = (x, lb, ub)
    lm, inf = c.mod(M).sqpdfo_compute_multiplier_(*args, info, o, Struct(success=0, fail_unexpected=30))
    c.check('status is success', inf.flag == 0)
    c.check('caller record keeps its status', info.flag == 7)
    c.eq('gradient and Jacobian unchanged', np.concatenate([g.ravel(), ae.ravel(), x.ravel()]),
         np.concatenate([g0.ravel(), ae0.ravel(), x0.ravel()]))
    c.check('one multiplier per variable and per constraint', lm.shape == (n + me, 1))
    free = []
    for i in range(n):
        li = lm[i, 0]
        lact = kinds[i] in 'lb' and bool(abs(x[i, 0] - lb[i, 0]) < 1e-6)
        uact = kinds[i] in 'ub' and bool(abs(x[i, 0] - ub[i, 0]) < 1e-6)
        if kinds[i] == 'f':
            c.eq('unbounded variable: zero multiplier', li, 0.0)
            continue
        if lact or kinds[i] == 'l':
            c.le('at the lower bound (or no upper bound): multiplier not positive', li, 0.0)
        if uact or kinds[i] == 'u':
            c.ge('at the upper bound (or no lower bound): multiplier not negative', li, 0.0)
        if not (lact and uact or kinds[i] == 'l' and uact or kinds[i] == 'u' and lact):
            free.append(i)
    # stationarity: extended operator [I; J] restricted to the free multipliers
    N = n + ns
    J = np.zeros((me, N), dtype=object)
    for k in range(me):
        for j in range(n):
            J[k, j] = ae0[k, j]
    for k in range(ns):
        J[me - ns + k, n + k] = -2 * sl[k, 0]
    rows = [[1.0 if j == i else 0.0 for j in range(N)] for i in free] + [list(J[k]) for k in range(me)]
    if not rows:
        c.eq('no free multiplier: all zero', lm, np.zeros((n + me, 1)))
        return
    c.check('least-squares problem over the free multipliers', rec.get('A') is not None and rec['A'].shape == (len(rows),) * 2)
    gx = [g0[i, 0] for i in range(n)] + [0.0] * ns
    w = rec['w']
    r = [gx[j] + sum(rows[k][j] * w[k, 0] for k in range(len(rows))) for j in range(N)]
    want = [sum(rows[k][j] * r[j] for j in range(N)) for k in range(len(rows))]
    got = rec['A'].dot(w) - rec['b']
    c.eq('residual of the solved system is the gradient of the Lagrangian along the free multipliers', got, want)
    idx = [i for i in free] + [n + k for k in range(me)]
    c.eq('free multipliers are the solver answer, in order', [lm[i, 0] for i in idx], [v for v in w.ravel()])
    for i in range(n):
        if i not in free:
            c.eq('fixed multipliers are zero', lm[i, 0], 0.0)


def cases(tier):
    out = []
    for b in 'flub':
        for me in (0, 1):
            out.append(('mult', dict(n=1, me=me, bounds=b), {}))
    for b in ('bb', 'lu', 'fb', 'ff', 'ul', 'bf'):
        for me in (0, 1, 2):
            out.append(('mult', dict(n=2, me=me, bounds=b), {}))
    for b, me, ns in (('f', 1, 1), ('b', 2, 1), ('b', 2, 2), ('lu', 2, 1), ('fb', 1, 1)):
        out.append(('mult', dict(n=len(b), me=me, ns=ns, bounds=b), {}))
    out.append(('mult', dict(n=3, me=1, bounds='lbf'), {}))
    if tier == 'thorough':
        out.append(('mult', dict(n=3, me=2, bounds='bbb'), {}))
        out.append(('mult', dict(n=3, me=2, ns=2, bounds='bub'), {}))
        out.append(('mult', dict(n=4, me=2, ns=1, bounds='fblu'), {}))
    return out
