"""Bounded least squares: the answer is within its bounds, its residual norm is its own, and success means it is a minimiser."""
import numpy as np

BOUNDS = ('n=1: any column of length 1, any right-hand side in [-5,5], bounds in [-5,5] or infinite; n=2: identity with any right-hand side; '
          'four matrices (square, skew, tall, rank deficient) x four sign patterns x every scaling in [0.01,5] of three right-hand sides; '
          'thorough: seven matrices, nine patterns, six right-hand sides, and rays (n<=3) that need the projected backtracking')
ASSUMPTIONS = ['exact real arithmetic; the pseudo-inverse of a concrete matrix is the float one']
INF = float('inf')
MATS = {
    'id': [[1.0, 0.0], [0.0, 1.0]], 'sq': [[2.0, 1.0], [0.0, 1.0]], 'tall': [[1.0, 0.0], [0.0, 2.0], [1.0, 1.0]], 'def': [[1.0, 1.0], [1.0, 1.0]],
    'skew': [[2.0, 1.0], [-3.0, 1.0]], 'corr': [[1.0, 1.0], [1.0, 0.5]], 'neg': [[1.0, -2.0], [-1.0, 1.0]],
    'sk3': [[2.0, 1.0, 0], [-3.0, 1.0, 1.0], [0, -2.0, 1.0]], 'sq3': [[1.0, 0.5, 0], [0, 1.0, 0.5], [0.5, 0, 1.0]],
}

# problems whose answer needs the projected backtracking of the subspace search
RAYS = [('tall', 'pp', (0.25, -1.0, -0.5)), ('skew', 'pm', (-1.0, 1.0)), ('skew', 'mp', (0.5, -0.5)), ('neg', 'pm', (-2.0, 0.25)),
        ('corr', 'mm', (-1.0, 2.0)), ('sq', 'mm', (1.0, -0.5)), ('sq', 'pp', (-1.0, 0.25)), ('sq3', 'ppn', (-2.0, 1.0, -0.5)),
        ('sk3', 'pmn', (-2.0, 0.25, -2.0)), ('sk3', 'mnp', (0.25, -1.0, 1.0))]
SLOW = [('sq', 'pp', 1)]  # thorough tier only
DIRS = [(1.0, 0.5, 0.5), (-1.0, 0.5, 2.0), (1.0, -2.0, 0.5), (-0.5, -1.0, 1.0), (0.25, 1.0, -1.0), (-2.0, -0.5, -1.0)]



def lsq(c):
    k = c.case
    n = len(k['b'])
    if k['A'] == 'sym':
        A = c.mat('a', k['m'], 1, -5, 5)
    else:
        A = c.array(np.array(MATS[k['A']]))
    m = A.shape[0]
    if 'd' in k:
        be = c.real('beta', 0.01, 5)
        b = c.array([[be * v] for v in (DIRS[k['d']] if isinstance(k['d'], int) else k['d'])[:m]])
    else:
        b = c.col('b', m, -5, 5)
    lo, up = [], []
    for i, t in enumerate(k['b']):
        lo.append(c.real('l%d' % i, -5, 5) if t in 'lb' else 0.0 if t == 'p' else -INF)
        up.append(c.real('u%d' % i, -5, 5) if t in 'ub' else 0.0 if t == 'm' else INF)
        if t == 'b':
            c.assume(lo[i] <= up[i])
    lb, ub = c.array([[v] for v in lo]), c.array([[v] for v in up])
    keep = [v.copy() for v in (A, b, lb, ub)]
    s, resn, opt, exitc = c.mod('blls').blls_(A, b, lb, ub, nargout=4)
    for v, w in zip((A, b), keep):
        c.eq('arguments unchanged', v, w)
    c.check('shape of the answer', s.shape == (n, 1))
    for i in range(n):
        if k['b'][i] in 'lbp':
            c.ge('not below its bound', s[i, 0], lo[i])
        if k['b'][i] in 'ubm':
            c.le('not above its bound', s[i, 0], up[i])
    r = A.dot(s) - b
    rr = (r.T.dot(r))[0, 0]
    c.ge('residual norm not negative', resn, 0.0)
    c.near('residual norm is that of the answer', resn * resn, rr, 1e-9)
    if exitc == 0:
        c.cover('solved')
        g = A.T.dot(r)
        T = k.get('T', 1e-4)
        for i in range(n):
            # first-order optimality in every component, unless the residual vanishes
            e = g[i, 0]
            small = rr <= 1e-20
            free_up = True if up[i] == INF else s[i, 0] < up[i] - T
            free_lo = True if lo[i] == -INF else s[i, 0] > lo[i] + T
            c.check('no descent upwards', small | (e >= -T) | neg(free_up))
            c.check('no descent downwards', small | (e <= T) | neg(free_lo))
    else:
        c.cover('not solved')


def neg(v):
    return (not v) if isinstance(v, (bool, np.bool_)) else ~v


def cases(tier):
    out = []
    o = dict(query_ms=60000)
    th = tier == 'thorough'
    for b in 'lubnpm':
        out.append(('lsq', dict(A='sym', m=1, b=[b]), o))
    for b in ('pn', 'pm', 'bn', 'bb'):
        out.append(('lsq', dict(A='id', b=list(b)), o))
    for A in MATS if th else ('skew', 'sq', 'tall', 'def'):
        if A not in ('id', 'sq3', 'sk3'):
            for b in ('pn', 'mn', 'pm', 'pp') + (('mm', 'bn', 'bb', 'pb', 'mb') if th else ()):
                for d in range(3 if not th else 6):
                    if th or (A, b, d) not in SLOW:
                        out.append(('lsq', dict(A=A, b=list(b), d=d), o))
    for A, b, d in RAYS if th else ():
        out.append(('lsq', dict(A=A, b=list(b), d=list(d)), o))
    return out
