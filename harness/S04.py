"""Optimality residuals: gradient of the Lagrangian and feasibility."""
from .common import Struct
import numpy as np

BOUNDS = 'n<=3 (thorough 4), me<=3, up to 2 slacks; all values in [-10,10]; every activity pattern of the bounds'
ASSUMPTIONS = []


def opt(c):
    n, me, ns = c.case['n'], c.case['me'], c.case.get('ns', 0)
    x, lb, ub, g = (c.col(k, n, -10, 10) for k in ('x', 'lb', 'ub', 'g'))
    for i in range(n):
        c.assume((lb[i, 0] <= x[i, 0]) & (x[i, 0] <= ub[i, 0]))
    ce = c.col('ce', me, -10, 10) if me else c.array([])
    ae = c.mat('a', me, n, -10, 10) if me else c.array([])
    lm = c.col('lm', n + me, -10, 10)
    sl = c.col('s', ns, -5, 5) if ns else c.array([])
    glob = c.mod('sqpdfo_global_variables')
    glob.set_nbr_slacks(ns)
    glob.set_slacks(sl)
    old = c.array(np.full((n, 1), 77.0))
    info = Struct(g=g, ae=ae, ce=ce, ci=c.array([]), glag=old)
    keep = [v.copy() for v in (x, lm, lb, ub, g, ce, ae)]
    feas, compl, inf = c.mod('sqpdfo_optimality').sqpdfo_optimality_(x, lm, lb, ub, info, Struct(verbose=0))
    for v, k in zip((x, lm, lb, ub, g, ce, ae), keep):
        if v.size:
            c.eq('arguments unchanged', v, k)
    c.check('caller record untouched', info.glag is old)
    c.check('gradient of the Lagrangian has the dimension of the problem', inf.glag.shape == (n, 1))
    for i in range(n):
        want = g[i, 0]
        if bool(abs(x[i, 0] - lb[i, 0]) < 1e-5) or bool(abs(ub[i, 0] - x[i, 0]) < 1e-5):
            want = want + lm[i, 0]
        for k in range(me):
            want = want + ae[k, i] * lm[n + k, 0]
        c.eq('gradient of the Lagrangian', inf.glag[i, 0], want)
    if me:
        wf = [ce[k, 0] - (sl[k - me + ns, 0] * sl[k - me + ns, 0] if k >= me - ns else 0.0) for k in range(me)]
        c.eq('feasibility residual', feas, wf)
    c.eq('no complementarity residual for bounds', compl, np.zeros(n))


def cases(tier):
    out = []
    for n in (1, 2, 3) + ((4,) if tier == 'thorough' else ()):
        for me in range(4 if n < 4 else 2):
            for ns in range(min(me, 2) + 1):
                out.append(('opt', dict(n=n, me=me, ns=ns), {}))
    return out
