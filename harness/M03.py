"""The Lagrange polynomials of a sample set are 1 at their own point and 0 at the others, and rebuild the model."""
from .common import nq, wellcond, geometry
from .M01 import well_posed
import numpy as np

BOUNDS = ('symbolic sample sets: n<=2 (n=3 linear), set sizes up to the full quadratic, coordinates in [-10,10], poised sets; '
          'concrete sample sets: n<=3, every model kind, symbolic evaluation point in [-3,3]')
ASSUMPTIONS = ['QR kernel: any exact factorisation Z=QR with Q orthogonal (a fixed generic rational Q stands for it)',
               'sample sets below the ill-conditioning threshold']


def delta(c):
    n, p, sh, wm = c.case['n'], c.case['p'], c.case['sh'], c.case['wm']
    Y = c.mat('y', n, p, -10, 10)
    if sh:
        c.assume((Y[0, 1] - Y[0, 0]) * (Y[0, 1] - Y[0, 0]) > 0.01)
    well_posed(c, Y, n, p)
    Y0 = Y.copy()
    QZ, RZ, xb, sc = c.mod('bcdfo_build_QR_of_Y').bcdfo_build_QR_of_Y_(Y, wm, sh, 1.0, 1.0, 1e15)
    lj = c.mod('bcdfo_computeLj').bcdfo_computeLj_
    ev = c.mod('bcdfo_evalP').bcdfo_evalP_
    el = c.mod('bcdfo_evalL').bcdfo_evalL_
    for j in range(p):
        L = lj(QZ, RZ, j, Y, wm, sc, sh)
        for i in range(p):
            c.eq('L_j at the sample points', ev(L, Y[:, [i]], xb, sc, sh), c.array([[1.0 if i == j else 0.0]]), 1e-5)
    for i in range(p):
        v = el(QZ, RZ, Y, np.arange(p), Y[:, [i]], xb, wm, sc, sh)
        c.eq('all Lagrange values at a sample point', v, c.array([1.0 if i == j else 0.0 for j in range(p)]), 1e-5)
    c.eq('sample set untouched', Y, Y0)


def fixed(c):
    """concrete geometry through the real factorisation kernels; symbolic evaluation point and data"""
    n, p, sh, wm = c.case['n'], c.case['p'], c.case['sh'], c.case['wm']
    Y = c.array(geometry(n, p, c.case['g']))
    x = c.col('x', n, -3, 3)
    F = c.mat('f', 1, p, -1, 1)
    QZ, RZ, xb, sc = c.mod('bcdfo_build_QR_of_Y').bcdfo_build_QR_of_Y_(Y, wm, sh, 1.0, 1.0, 1e15)
    lj = c.mod('bcdfo_computeLj').bcdfo_computeLj_
    ev = c.mod('bcdfo_evalP').bcdfo_evalP_
    el = c.mod('bcdfo_evalL').bcdfo_evalL_
    Ls = [lj(QZ, RZ, j, Y, wm, sc, sh) for j in range(p)]

    near = c.near
    for j in range(p):
        for i in range(p):
            near('L_j at the sample points (fixed geometry)', ev(Ls[j], Y[:, [i]], xb, sc, sh)[0, 0],
                 1.0 if i == j else 0.0, 1e-7)
    v = el(QZ, RZ, Y, np.arange(p), x, xb, wm, sc, sh)
    P = c.mod('bcdfo_computeP').bcdfo_computeP_(QZ, RZ, Y, F, wm, c.array([[0.0] * nq(n)]), np.arange(p), 0, 0,
                                                c.array([[0.0]] * n), sc, sh)
    big = 1e-6
    for j in range(p):
        near('values routine agrees with the coefficients', v[j, 0], ev(Ls[j], x, xb, sc, sh)[0, 0], big)
    sub = np.array([p - 1, 0])
    v2 = el(QZ, RZ, Y, sub, x, xb, wm, sc, sh)
    for j in (p - 1, 0):
        near('subset of values', v2[j, 0], v[j, 0], big)
    for k in range(Ls[0].shape[1]):
        near('model coefficients = sum of data times Lagrange coefficients', P[0, k],
             sum(F[0, j] * Ls[j][0, k] for j in range(p)), big)


def cases(tier):
    out = []
    o = dict(svd=wellcond, singular='assume', query_ms=60000)
    sym = [(1, 2), (1, 3), (2, 3), (2, 4), (2, 5), (2, 6), (3, 4)]
    if tier == 'thorough':
        sym += [(3, 5), (3, 7), (3, 10)]
    for n, p in sym:
        for wm in (0, 1, 2, 3):
            if wm != 0 and p != nq(n) and not (wm == 1 and p == n + 1):
                continue
            for sh in (0, 1):
                if sh and p > 4 and tier != 'thorough':
                    continue
                out.append(('delta', dict(n=n, p=p, sh=sh, wm=wm), o))
    for n in (1, 2, 3):
        for wm in (0, 1, 2, 3):
            for p in sorted({n + 1, 2 * n + 1, nq(n)} | ({n + 2} if n == 2 else set())):
                for sh in (0, 1):
                    for g in (0, 1) if tier == 'quick' else (0, 1, 2):
                        out.append(('fixed', dict(n=n, p=p, sh=sh, wm=wm, g=g), {}))
    return out
