"""The model's derivative routines return the exact derivatives of the model it evaluates."""
from .common import nq, monomials
import numpy as np

BOUNDS = ('n<=4 variables (thorough: 5), every coefficient-vector length from n+1 to the full quadratic, coefficients, points, '
          'base points in [-10,10], one scaling factor in [0.1,10]; with and without shifting')
ASSUMPTIONS = []


def setup(c):
    n, q, sh = c.case['n'], c.case['q'], c.case['sh']
    P = c.array([c.real('p%d' % i, -10, 10) for i in range(q)]).reshape(1, -1)
    x = c.col('x', n, -10, 10)
    xb = c.col('xb', n, -10, 10)
    s = c.real('s', 0.1, 10)
    scale = c.array([1.0] + [s] * n + [s * s] * (q - n - 1)).reshape(-1, 1)
    return n, q, sh, P, x, xb, scale, s


def taylor(c):
    """m(x+d) = m(x) + g'd + d'Hd/2 for every x, d: the only (g,H) with that property are the exact derivatives"""
    n, q, sh, P, x, xb, scale, s = setup(c)
    d = c.col('d', n, -10, 10)
    P0, x0, xb0, sc0 = P.copy(), x.copy(), xb.copy(), scale.copy()
    ev = c.mod('bcdfo_evalP').bcdfo_evalP_
    g = c.mod('bcdfo_gradP').bcdfo_gradP_(P, x, xb, scale, sh)
    H = c.mod('bcdfo_hessP').bcdfo_hessP_(P, x, xb, scale, sh)
    f0 = ev(P, x, xb, scale, sh)
    f1 = ev(P, x + d, xb, scale, sh)
    t = sum(g[i, 0] * d[i, 0] for i in range(n))
    t = t + sum(0.5 * H[i, j] * d[i, 0] * d[j, 0] for i in range(n) for j in range(n))
    c.eq('second-order expansion is exact', f1[0, 0], f0[0, 0] + t)
    c.eq('Hessian symmetric', H, H.T)
    c.eq('arguments unchanged', c.array(np.concatenate([P.ravel(), x.ravel(), xb.ravel(), scale.ravel()])),
         c.array(np.concatenate([P0.ravel(), x0.ravel(), xb0.ravel(), sc0.ravel()])))


def value(c):
    """the evaluated value is the polynomial written out in the documented basis"""
    n, q, sh, P, x, xb, scale, s = setup(c)
    v = c.mod('bcdfo_evalP').bcdfo_evalP_(P, x, xb, scale, sh)
    z = [(x[i, 0] - xb[i, 0]) * s if sh else x[i, 0] for i in range(n)]
    c.eq('value', v[0, 0], sum(P[0, k] * m for k, m in enumerate(monomials(z, q))))


def direct(c):
    """gradient and Hessian against the derivatives written out term by term"""
    n, q, sh, P, x, xb, scale, s = setup(c)
    g = c.mod('bcdfo_gradP').bcdfo_gradP_(P, x, xb, scale, sh)
    H = c.mod('bcdfo_hessP').bcdfo_hessP_(P, x, xb, scale, sh)
    z = [(x[i, 0] - xb[i, 0]) if sh else x[i, 0] for i in range(n)]
    w = [P[0, k] * (1.0 if not sh else 1.0 if k == 0 else s if k <= n else s * s) for k in range(q)]
    G = [0.0] * n
    HH = [[0.0] * n for _ in range(n)]
    k = 1
    for i in range(n):
        if k < q:
            G[i] = G[i] + w[k]
            k += 1
    for i in range(n):
        if k < q:
            G[i] = G[i] + w[k] * z[i]
            HH[i][i] = HH[i][i] + w[k]
            k += 1
    for o in range(1, n):
        for i in range(n - o):
            if k < q:
                G[i] = G[i] + w[k] * z[i + o]
                G[i + o] = G[i + o] + w[k] * z[i]
                HH[i][i + o] = HH[i][i + o] + w[k]
                HH[i + o][i] = HH[i + o][i] + w[k]
                k += 1
    c.eq('gradient', g, c.array(G))
    c.eq('Hessian', H, c.array(HH))


def cases(tier):
    out = []
    for n in (1, 2, 3, 4) + ((5,) if tier == 'thorough' else ()):
        for q in range(n + 1, nq(n) + 1):
            for sh in (0, 1):
                for h in ('taylor', 'value', 'direct'):
                    out.append((h, dict(n=n, q=q, sh=sh), {}))
    return out
