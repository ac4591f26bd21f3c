"""Projected gradient: sizes, signs and stationarity, bit-exact in IEEE arithmetic and as a projection in real arithmetic."""
import numpy as np

BOUNDS = ('FP: n<=2 (thorough 3), every finite double for point, gradient and bounds with lower <= point <= upper; infinite bounds '
          'included. Real: n<=3, values in [-10,10]')
ASSUMPTIONS = ['FP harness: IEEE-754 binary64, round to nearest even']


def proj_fp(c):
    n = c.case['n']
    x = [c.fp('x%d' % i, finite=True) for i in range(n)]
    g = [c.fp('g%d' % i, finite=True) for i in range(n)]
    bl = [c.fp('l%d' % i) for i in range(n)]
    bu = [c.fp('u%d' % i) for i in range(n)]
    for i in range(n):
        c.assume(bl[i] <= x[i])
        c.assume(x[i] <= bu[i])
    col = lambda v: c.array(v).reshape(-1, 1)
    gnorm, gn = c.mod('bcdfo_projgrad').bcdfo_projgrad_(n, col(x), col(g), col(bl), col(bu))
    c.check('shape', gn.shape == (n, 1))
    mx = False
    for i in range(n):
        v = gn[i, 0]
        c.check('no longer than the gradient component', abs(v) <= abs(g[i]))
        if bool(g[i] < 0):
            c.check('descent sign (negative gradient component)', v <= 0)
            c.check('no longer than the distance to the upper bound', -v <= bu[i] - x[i])
            c.check('zero only at the upper bound', (v < 0) | (bu[i] - x[i] == 0))
        else:
            c.check('descent sign (nonnegative gradient component)', v >= 0)
            c.check('no longer than the distance to the lower bound', v <= abs(bl[i] - x[i]))
            c.check('zero only at a zero gradient or at the lower bound', (v > 0) | (g[i] == 0) | (bl[i] - x[i] == 0))
        c.check('measure bounds every component', abs(v) <= gnorm)
        mx = (abs(v) == gnorm) | mx
    c.check('measure is attained', mx)


def proj_real(c):
    n = c.case['n']
    x, g, bl, bu = (c.col(k, n, -10, 10) for k in 'xglu')
    for i in range(n):
        c.assume((bl[i, 0] <= x[i, 0]) & (x[i, 0] <= bu[i, 0]))
    keep = np.concatenate([x.copy(), g.copy(), bl.copy(), bu.copy()])
    gnorm, gn = c.mod('bcdfo_projgrad').bcdfo_projgrad_(n, x, g, bl, bu)
    c.eq('arguments unchanged', np.concatenate([x, g, bl, bu]), keep)
    for i in range(n):
        t = x[i, 0] - g[i, 0]
        if bool(t < bl[i, 0]):
            t = bl[i, 0]
        elif bool(t > bu[i, 0]):
            t = bu[i, 0]
        c.eq('component is point minus projection of the gradient step', gn[i, 0], x[i, 0] - t)


def cases(tier):
    N = (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4)
    out = [('proj_real', dict(n=n), {}) for n in N]
    out += [('proj_fp', dict(n=n), dict(query_ms=120000)) for n in ((1, 2) if tier == 'quick' else (1, 2, 3))]
    return out
