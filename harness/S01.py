"""Truncated conjugate gradients: the step stays in the ball, never increases the quadratic, and the flag means what it says."""
import numpy as np

BOUNDS = ('n=1: any curvature, right-hand side, radius in (0,10], tolerance in [0,1], iteration limits 0..2; n=2: symmetric A in a '
          'family (each of several concrete indefinite/definite matrices, any b) plus symbolic diagonal A; iteration limits 0..3')
ASSUMPTIONS = ['symmetric A (the caller passes a reduced Hessian)']

MATS = {
    'pd': [[2.0, 0.5], [0.5, 1.0]], 'id': [[1.0, 0.0], [0.0, 1.0]], 'indef': [[1.0, 2.0], [2.0, -1.0]],
    'nd': [[-1.0, 0.0], [0.0, -2.0]], 'sing': [[1.0, 1.0], [1.0, 1.0]], 'zero': [[0.0, 0.0], [0.0, 0.0]],
    'scaled': [[100.0, 0.0], [0.0, 0.01]],
}


DIRS = {'e1': (1.0, 0.0), 'e2': (0.0, -1.0), '34': (3.0, 4.0), '512': (-5.0, 12.0)}


def tcg(c):
    n, kind, mx = c.case['n'], c.case['kind'], c.case['mx']
    if kind == 'sym':
        A = c.symmat('a', n, -10, 10)
    elif kind == 'diag':
        A = c.array([[c.real('a0', -10, 10), 0.0], [0.0, c.real('a1', -10, 10)]])
    else:
        A = c.array(MATS[kind])
    if 'dir' in c.case:
        be = c.real('beta', 0.01, 10)
        b = c.array([[be * v] for v in DIRS[c.case['dir']]])
    else:
        b = c.col('b', n, -10, 10)
    delta = c.real('delta', 0.01, 10) if 'delta' not in c.case else c.case['delta']
    tol = c.real('tol', 0, 1) if 'tol' not in c.case else c.case['tol']
    A0, b0 = A.copy(), b.copy()
    x, info = c.mod('sqpdfo_truncated_cg').sqpdfo_truncated_cg_(A, b, delta, mx, tol)
    c.eq('arguments unchanged', np.concatenate([A.ravel(), b.ravel()]), np.concatenate([A0.ravel(), b0.ravel()]))
    c.check('step has the dimension of the right-hand side', x.shape == (n, 1))
    nx = (x.T.dot(x))[0, 0]
    c.le('step inside the trust region', nx, delta * delta)
    m = 0.5 * (x.T.dot(A.dot(x)))[0, 0] - (b.T.dot(x))[0, 0]
    c.le('quadratic not increased from zero', m, 0.0)
    c.check('flag is one of the documented values', info.flag in (-1, 0, 1, 2))
    r = b - A.dot(x)
    rr = (r.T.dot(r))[0, 0]
    if info.flag == 0:
        c.cover('converged')
        c.le('flag 0: residual within tolerance', rr, tol * tol)
    elif info.flag == -1:
        c.cover('iteration limit')
        c.check('flag -1: iteration limit used up', info.iter == mx)
    else:
        c.cover('boundary')
        c.eq('flag 1/2: step on the boundary', nx, delta * delta)
    c.check('iteration count within the limit', info.iter <= mx or (info.flag == 0 and info.iter == mx + 1))
    if mx >= 1 and info.flag != 0 and n == 1:
        # one full step is the exact trust-region minimiser in one dimension when curvature is positive
        if bool(A[0, 0] > 0):
            st = b[0, 0] / A[0, 0]
            if bool(abs(st) <= delta):
                c.eq('1-d: interior minimiser', x[0, 0], st)
            else:
                c.check('1-d: boundary minimiser has the descent sign', x[0, 0] * b[0, 0] > 0)


def cases(tier):
    out = []
    o = dict(query_ms=60000)
    for mx in (0, 1, 2):
        out.append(('tcg', dict(n=1, kind='sym', mx=mx), o))
    for kind in MATS:
        for mx in (1, 2) + ((3,) if tier == 'thorough' else ()):
            for d in DIRS:
                if tier == 'quick' and mx == 2 and (kind not in ('pd', 'indef', 'sing') or d not in ('e1', '34') or (kind, d) == ('pd', '34')):
                    continue
                k = dict(delta=100.0) if kind == 'pd' and mx == 2 and tier == 'quick' else {}
                out.append(('tcg', dict(n=2, kind=kind, mx=mx, dir=d, **k), o))
    out.append(('tcg', dict(n=2, kind='diag', mx=1), o))
    out.append(('tcg', dict(n=2, kind='sym', mx=1, dir='e1', delta=1.0), o))
    out.append(('tcg', dict(n=2, kind='sym', mx=1, dir='e1'), o))
    if tier == 'thorough':
        out.append(('tcg', dict(n=2, kind='diag', mx=2, dir='34', tol=0.0), o))
        out.append(('tcg', dict(n=2, kind='sym', mx=2, dir='e1', delta=1.0, tol=0.0), o))
        out.append(('tcg', dict(n=2, kind='sym', mx=1), o))
    return out
