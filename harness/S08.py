"""Repairs of indefinite and ill-conditioned matrices."""
from .common import Struct
from symx import shim
import numpy as np

BOUNDS = ('A = V diag(d) V^T (resp. U diag(s) V^T) for symbolic d in [-10,10] (s in [0,10]) and concrete orthogonal V, U (identity, '
          'permutation-like and rational rotations), n<=3; any symmetric A for n=1 and any symmetric 2x2 A for the no-repair branch')
ASSUMPTIONS = ['the eigenvalue and singular value kernels return an exact decomposition (contract)']


def orth(n, k):
    if k == 0:
        return np.eye(n)
    if k == 1:
        return np.eye(n)[::-1].copy()
    if n == 1:
        return np.eye(1)
    # 3-4-5 type rotations with exactly representable scaled entries are not available in binary: use Fractions via Sym
    return None


def rot(c, n, k):
    V = orth(n, k)
    if V is not None:
        return c.array(V)
    if c.symbolic:
        return shim.rational_orthogonal(n)
    M = np.eye(n)
    trip = [(3 / 5, 4 / 5), (5 / 13, 12 / 13), (8 / 17, 15 / 17)]
    q = 0
    for a in range(n):
        for b in range(a + 1, n):
            cc, ss = trip[q]
            q += 1
            x, y = M[:, a].copy(), M[:, b].copy()
            M[:, a], M[:, b] = cc * x - ss * y, ss * x + cc * y
    return M


def compose(c, V, d, W):
    n = len(d)
    return c.array([[sum(V[i, k] * d[k] * W[j, k] for k in range(n)) for j in range(n)] for i in range(n)]).reshape(n, n)


def convex(c):
    n, k = c.case['n'], c.case['k']
    d = [c.real('d%d' % i, -10, 10) for i in range(n)]
    for i in range(n - 1):
        c.assume(d[i] <= d[i + 1])
    V = rot(c, n, k)
    A = compose(c, V, d, V)
    if c.symbolic:
        c.opts['eigh'] = lambda B: (c.array(list(d)), V.copy())
    A0 = A.copy()
    R = c.mod('sqpdfo_check_convex').sqpdfo_check_convex_(A, Struct(verbose=0))
    c.eq('argument unchanged', A, A0)
    if bool(d[0] >= 0):
        c.cover('convex')
        c.eq('positive semidefinite matrix returned unchanged', R, A0)
        return
    c.cover('repaired')
    c.eq('repaired matrix is symmetric', R, R.T)
    for i in range(n):
        for j in range(n):
            q = sum(V[a, i] * R[a, b] * V[b, j] for a in range(n) for b in range(n))
            if i != j:
                c.eq('eigenvectors kept', q, 0.0, 1e-9)
            elif bool(d[i] < 1e-10):
                c.le('raised eigenvalue is tiny', q, 1e-8, 1e-8)
                if c.symbolic:
                    c.check('raised eigenvalue is positive', q > 0)
            else:
                c.eq('positive eigenvalues kept', q, d[i], 1e-8)


def cond(c):
    n, k, k2 = c.case['n'], c.case['k'], c.case['k2']
    s = [c.real('s%d' % i, 0, 10) for i in range(n)]
    for i in range(n - 1):
        c.assume(s[i] >= s[i + 1])
    c.assume(s[-1] > 0)
    U, V = rot(c, n, k), rot(c, n, k2)
    A = compose(c, U, s, V)
    th = c.real('th', 1, 1e12)
    # the branch on the ratio must be the same in exact and in floating-point arithmetic
    c.assume((s[0] - th * s[-1] > 1e-3 * s[0]) | (s[0] - th * s[-1] < -1e-3 * s[0]))
    if c.symbolic:
        def svd(B, full_matrices=True, compute_uv=True):
            if not compute_uv:
                return c.array(list(s))
            return U.copy(), c.array(list(s)), V.T.copy()
        c.opts['svd'] = svd
    A0 = A.copy()
    R, bad = c.mod('sqpdfo_check_cond').sqpdfo_check_cond_(A, th, Struct(verbose=0))
    c.eq('argument unchanged', A, A0)
    ill = bool(s[0] > th * s[-1])
    c.check('flag tells whether the condition number exceeds the threshold', bool(bad) == ill)
    if not ill:
        c.cover('kept')
        c.eq('well-conditioned matrix returned unchanged', R, A0)
        return
    c.cover('repaired')
    t = [v if bool(v >= 1e-7) else 1e-7 for v in s]
    W = compose(c, U, t, V)
    if n > 1:
        c.near('small singular values raised to 1e-7, result symmetrised when it was not symmetric',
             R, W if (k == k2) else 0.5 * (W + W.T), 1e-9)
    else:
        c.near('small singular value raised to 1e-7', R, W, 1e-9)


def nonfinite(c):
    """NaN and infinite entries are replaced before the condition number is taken, the caller's matrix is not"""
    n = c.case['n']
    bad = c.choice('kind', [float('nan'), float('inf')])
    i, j = c.choice('i', list(range(n))), c.choice('j', list(range(n)))
    A = c.array(np.eye(n) * 2.0)
    A[i, j] = bad
    R, b = c.mod('sqpdfo_check_cond').sqpdfo_check_cond_(A, 1e30 if bad != bad else 1e15, Struct(verbose=0))
    c.check('no NaN or infinite entry in the result', bool(np.all(np.isfinite(np.asarray(R, dtype=float)))))


def cases(tier):
    out = []
    for n in (1, 2, 3) + ((4,) if tier == 'thorough' else ()):
        for k in (0, 1, 2):
            if n > 1 or k == 0:
                out.append(('convex', dict(n=n, k=k), {}))
                for k2 in ((0, 1, 2) if tier == 'thorough' and n < 4 else (k,) if n != 2 else (0, 2)):
                    out.append(('cond', dict(n=n, k=k, k2=k2), {}))
        if n < 4:
            out.append(('nonfinite', dict(n=n), {}))
    return out
