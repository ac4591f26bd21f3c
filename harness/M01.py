"""Interpolation models reproduce the data they are built from."""
from .common import nq, wellcond, monomials, geometry
import numpy as np

BOUNDS = ('symbolic sample sets: n<=2 variables (n=3 linear), set sizes n+1, 2n+1 and (n+1)(n+2)/2 up to the solver limit, '
          'coordinates in [-10,10], well-conditioned sets (below the ill-conditioning switch), 1-2 interpolated '
          'functions with values in [-100,100], with and without shifting/scaling; concrete sample sets: n<=3, all four '
          'model kinds, all function values in [-1,1]')
ASSUMPTIONS = ['QR kernel: any exact factorisation Z=QR with Q orthogonal (a fixed generic rational Q stands for it)',
               'sample sets below the ill-conditioning threshold']


def interp(c):
    n, p, sh, m = c.case['n'], c.case['p'], c.case['sh'], c.case['m']
    wm = c.case['wm']
    Y = c.mat('y', n, p, -10, 10)
    if sh:
        # the scaling radius is well defined only for distinct points
        c.assume((Y[0, 1] - Y[0, 0]) * (Y[0, 1] - Y[0, 0]) > 0.01)
    well_posed(c, Y, n, p)
    F = c.mat('f', m, p, -100, 100)
    Y0 = Y.copy()
    QZ, RZ, xb, sc = c.mod('bcdfo_build_QR_of_Y').bcdfo_build_QR_of_Y_(Y, wm, sh, 1.0, 1.0, 1e15)
    c.eq('building the factorisation leaves the sample set untouched', Y, Y0)
    P = c.mod('bcdfo_computeP').bcdfo_computeP_(QZ, RZ, Y, F, wm, c.array([[0.0] * nq(n)]), np.arange(p), 0, 0,
                                                c.array([[0.0]] * n), sc, sh)
    c.eq('building the model leaves the sample set untouched', Y, Y0)
    ev = c.mod('bcdfo_evalP').bcdfo_evalP_
    for i in range(p):
        v = ev(P, Y[:, [i]], xb, sc, sh)
        c.eq('model value at sample point', v, F[:, [i]], 1e-5)


def well_posed(c, Y, n, p):
    """the sample set is poised: the determinant of its (shifted) basis matrix is bounded away from zero"""
    from symx.shim import det
    rows = [monomials([Y[i, j] - Y[i, 0] for i in range(n)], p) for j in range(p)]
    M = np.array(rows, dtype=object)
    d = det(M)
    c.assume(d * d > 0.01)


def interp_fixed(c):
    """concrete geometry through the real factorisation kernels, symbolic function values"""
    n, p, sh, wm = c.case['n'], c.case['p'], c.case['sh'], c.case['wm']
    Yc = geometry(n, p, c.case['g'])
    Y = c.array(Yc)
    F = c.mat('f', 2, p, -1, 1)
    QZ, RZ, xb, sc = c.mod('bcdfo_build_QR_of_Y').bcdfo_build_QR_of_Y_(Y, wm, sh, 1.0, 1.0, 1e15)
    P = c.mod('bcdfo_computeP').bcdfo_computeP_(QZ, RZ, Y, F, wm, c.array([[0.0] * nq(n)]), np.arange(p), 0, 0,
                                                c.array([[0.0]] * n), sc, sh)
    ev = c.mod('bcdfo_evalP').bcdfo_evalP_
    for i in range(p):
        v = ev(P, Y[:, [i]], xb, sc, sh)
        for k in range(2):
            c.near('model value at sample point (fixed geometry)', v[k, 0], F[k, i], 1e-7)


def basis(c):
    n, q, m = c.case['n'], c.case['q'], c.case['m']
    X = c.mat('x', n, m, -10, 10)
    Z = c.mod('bcdfo_evalZ').bcdfo_evalZ_(X, q)
    want = [monomials([X[i, j] for i in range(n)], q) for j in range(m)]
    W = c.array([[want[j][k] for j in range(m)] for k in range(q)])
    c.eq('basis matrix', Z, W)


def cases(tier):
    out = []
    for n in (1, 2, 3, 4):
        for q in range(1, nq(n) + 1):
            out.append(('basis', dict(n=n, q=q, m=2), {}))
    o = dict(svd=wellcond, singular='assume', query_ms=60000)
    sym = [(1, 2), (1, 3), (2, 3), (2, 4), (2, 5), (2, 6), (3, 4)]
    if tier == 'thorough':
        sym += [(3, 5), (3, 7), (3, 10)]
    for n, p in sym:
        for sh in (0, 1):
            if sh and p > 4 and tier != 'thorough':
                continue
            out.append(('interp', dict(n=n, p=p, sh=sh, m=2 if p < 5 else 1, wm=0), o))
    for n in (1, 2, 3):
        for wm in (0, 1, 2, 3):
            for p in sorted({n + 1, 2 * n + 1, nq(n)} | ({n + 2} if n == 2 else set())):
                if wm == 3 and p < nq(n):
                    pass
                for sh in (0, 1):
                    for g in (0, 1) if tier == 'quick' else (0, 1, 2, 3):
                        out.append(('interp_fixed', dict(n=n, p=p, sh=sh, wm=wm, g=g), {}))
    return out
