"""Quasi-Newton update: secant condition, symmetry, positive definiteness, and refusal without damage."""
from .common import Struct
import numpy as np

BOUNDS = ('n=1 and n=2: any symmetric matrix / any positive definite matrix (as L L^T), any y, s in [-10,10]; n=3: secant and '
          'symmetry with a concrete family of matrices; first and later updates')
ASSUMPTIONS = []
ETA = 0.2


def mkopts():
    return Struct(verbose=0, fout=1), Struct(success=0, fail_unexpected=30), Struct(flag=0)


def matrix(c, n, kind):
    if kind == 'sym':
        return c.symmat('h', n, -10, 10)
    if kind == 'pd':
        L = [[c.real('l%d%d' % (i, j), 0.1 if i == j else -3, 3) if j <= i else 0.0 for j in range(n)] for i in range(n)]
        L = c.array(L)
        return L.dot(L.T)
    if kind == 'eye':
        return c.array(np.eye(n))
    return c.array([[2.0, 0.5, 0.0], [0.5, 1.0, -0.25], [0.0, -0.25, 1.5]])[:n, :n]


def update(c):
    n, kind, first = c.case['n'], c.case['kind'], c.case['first']
    H = matrix(c, n, kind)
    y = c.col('y', n, -10, 10)
    s = c.col('s', n, -10, 10)
    H0, y0, s0 = H.copy(), y.copy(), s.copy()
    opts, vals, info_ = mkopts()
    M, pc, info, _ = c.mod('sqpdfo_bfgs_update').sqpdfo_bfgs_update_(H, y, s, first, info_, opts, vals)
    c.eq('arguments unchanged', np.concatenate([H.ravel(), y.ravel(), s.ravel()]),
         np.concatenate([H0.ravel(), y0.ravel(), s0.ravel()]))
    c.check('caller status record untouched', info_.flag == 0)
    Hs = H0.dot(s)
    sHs = (s.T.dot(Hs))[0, 0]
    ys = (y0.T.dot(s))[0, 0]
    if info.flag == 30:
        c.eq('refused update leaves the matrix unchanged', M, H0)
        if kind != 'sym':
            c.check('a positive definite matrix is refused only for a null step or lost curvature',
                    (s.T.dot(s))[0, 0] == 0)
        return
    c.check('status is success or refusal', info.flag == 0)
    c.check('accepted only with positive curvature of the old matrix', sHs > 0)
    yt = pc * y0 + (1 - pc) * Hs
    c.eq('secant condition', M.dot(s), yt)
    c.eq('symmetric', M, M.T)
    yts = (yt.T.dot(s))[0, 0]
    c.ge('curvature condition', yts, (ETA - 1e-9) * sHs)
    c.check('damping factor positive', pc > 0)
    c.le('damping factor at most one', pc, 1 + 1e-9)
    if bool(ys >= (ETA + 1e-6) * sHs):
        c.eq('undamped when the curvature condition already holds', pc, 1.0)
    if c.case.get('pos') and kind != 'sym':
        if n == 1:
            c.check('positive definite', M[0, 0] > 0)
        else:
            c.check('positive definite (leading minor)', M[0, 0] > 0)
            c.check('positive definite (determinant)', M[0, 0] * M[1, 1] - M[0, 1] * M[1, 0] > 0)


def hessian(c):
    """the driver-level update: after a successful quasi-Newton update the matrix satisfies the secant equation for the change
    of the Lagrangian gradient along the step, and a refused update restarts from the identity"""
    n, me, first = c.case['n'], c.case['me'], c.case['first']
    c.mod('sqpdfo_computeHessian')
    calls = []

    def upd(M, y, s, fst, info, options, values, **k):
        i = Struct(**info.__dict__)
        i.flag = [0, 30][c.choice('refuse%d' % len(calls), [0, 1])]
        calls.append((M, y, s, fst))
        return (M if i.flag else 'new'), 1, i, values
    c.stub('sqpdfo_bfgs_update', 'sqpdfo_bfgs_update_', upd)
    g0, g1 = c.col('g', n, -10, 10), c.col('gx', n, -10, 10)
    a0, a1 = (c.mat('a', me, n, -10, 10), c.mat('ax', me, n, -10, 10)) if me else (c.array([]), c.array([]))
    lm = c.col('lm', n + me, -10, 10)
    s = c.col('s', n, -10, 10)
    M0 = c.array(np.eye(n) * 3.0)
    info = Struct(flag=0, g=g0, ae=a0, ai=c.array([]), niter=1 if first else 2, nsimul=[0, 5])
    vals = Struct(bfgs=130, model=131, fail_unexpected=30, fail_on_argument=1, success=0)
    o = Struct(hess_approx=130, verbose=0, bfgs_restart=0, fout=1)
    glob = c.mod('sqpdfo_global_variables')
    glob.set_nbr_slacks(0)
    glob.set_slacks(c.array([]))
    Y = c.array(np.zeros((n, n + 1)))
    M, pc, inf = c.mod('sqpdfo_computeHessian').sqpdfo_computeHessian_(
        None, None, 0, me > 0, lm, M0, n, me, 0, s, g1, c.array([]), a1, info, o, vals, None, Y, None, c.array([]),
        c.array([]), 1.0, None, 0, None, None, 0, None, 0, n + 1)
    c.check('update attempted', len(calls) in (1, 2))
    want = g1 - g0
    if me:
        want = want + (a1 - a0).T.dot(lm[n:n + me])
    for k, (Mi, y, si, f) in enumerate(calls):
        c.eq('update uses the change of the Lagrangian gradient', y, want)
        c.eq('update uses the step', si, s)
        c.check('initial scaling only in the first iteration', bool(f) == bool(first))
        c.eq('update starts from the current matrix, restart from the identity', Mi, M0 if k == 0 else c.array(np.eye(n)))
    if len(calls) == 1:
        c.check('accepted update is returned', isinstance(M, str))
    c.eq('derivatives of the new point are stored', inf.g, g1)
    if me:
        c.eq('constraint derivatives of the new point are stored', inf.ae, a1)
    c.eq('caller record untouched', info.g, g0)


def cases(tier):
    out = []
    o = dict(query_ms=60000)
    for first in (0, 1):
        out.append(('update', dict(n=1, kind='sym', first=first), o))
        out.append(('update', dict(n=1, kind='pd', first=first, pos=1), o))
        out.append(('update', dict(n=2, kind='eye', first=first, pos=1), o))
        if not first:
            out.append(('update', dict(n=2, kind='sym', first=first), o))
            out.append(('update', dict(n=2, kind='pd', first=first), o))
            out.append(('update', dict(n=2, kind='fix', first=first, pos=1), o))
            out.append(('update', dict(n=3, kind='fix', first=first), o))
        if tier == 'thorough':
            out.append(('update', dict(n=2, kind='pd', first=first, pos=1), dict(query_ms=250000, budget_s=800)))
            out.append(('update', dict(n=3, kind='sym', first=first), o))
        for n, me in ((1, 0), (2, 1), (2, 2), (3, 1)):
            out.append(('hessian', dict(n=n, me=me, first=first), o))
    return out
