"""Trust-region subproblem (Moré-Sorensen): the step stays in the radius, solves the shifted system and everything reported about it is true."""
import numpy as np

BOUNDS = ('n=1: any curvature in [-10,10], gradient and radius, up to 3 factorisations (thorough 4); n=2: concrete definite, indefinite and '
          'singular Hessians with gradients along several directions of any length, up to 2 factorisations, and any diagonal Hessian with one '
          'factorisation; precision 0.01 (thorough also 1e-7, 0.1); hard case: no shifted matrix factorises, n<=2, gradient any multiple of fixed directions')
ASSUMPTIONS = ['runs that need more factorisations than stated are outside', 'hard case: the factorisations are stand-ins that all fail']

MATS = {
    'pd': [[2.0, 0.5], [0.5, 1.0]], 'id': [[1.0, 0.0], [0.0, 1.0]], 'indef': [[1.0, 2.0], [2.0, -2.0]],
    'nd': [[-1.0, 0.0], [0.0, -2.0]], 'sing': [[1.0, 1.0], [1.0, 1.0]], 'zero': [[0.0, 0.0], [0.0, 0.0]],
    'dind': [[1.0, 0.0], [0.0, -1.0]], 'hd': [[-2.0, 0.0], [0.0, 1.0]], 'rot': [[1.0, 2.0], [2.0, 1.0]],
}
DIRS = {'e1': (1.0, 0.0), 'e2': (0.0, -1.0), '34': (3.0, 4.0), 'm11': (1.0, 1.0)}


def data(c):
    k = c.case
    n, kind = k['n'], k['kind']
    if kind == 'sym':
        H = c.symmat('h', n, -10, 10)
    elif kind == 'diag':
        H = c.array([[c.real('h0', -10, 10), 0.0], [0.0, c.real('h1', -10, 10)]])
    else:
        H = c.array(MATS[kind])
    if 'dir' in k:
        b = c.real('beta', 0.001, 1.4) if 'mu' in k else c.real('beta', 0, 10)
        g = c.array([[b * v] for v in DIRS[k['dir']]])
    else:
        g = c.col('g', n, -10, 10)
    delta = c.real('delta', 0, 10) if 'delta' not in k else k['delta']
    return n, H, g, delta


def kind_exact(c):
    return c.case['kind'] in ('sym', 'diag')


def truth(c, H, g, s, norms, value, gplus):
    Hs = H.dot(s)
    c.check('shape of the step', s.shape == g.shape)
    c.eq('value is the model at the step', value, (g.T.dot(s) + 0.5 * s.T.dot(Hs))[0, 0])
    c.eq('gradient at the step', gplus, g + Hs)
    ss = (s.T.dot(s))[0, 0]
    c.eq('reported length', norms * norms, ss)
    c.ge('length not negative', norms, 0.0)
    return ss


def ms(c):
    n, H, g, delta = data(c)
    eps, K = c.case.get('eps', 0.01), c.case['K']
    H0, g0 = H.copy(), g.copy()
    M = c.mod('bcdfo_solve_TR_MS')
    chol = M.chol_
    cnt = []

    def counted(*a, **k):
        cnt.append(1)
        c.assume(len(cnt) <= K)
        return chol(*a, **k)
    c.stub('bcdfo_solve_TR_MS', 'chol_', counted)
    if 'hard' not in c.case:
        def none(*a, **k):
            c.assume(False)
        c.stub('bcdfo_solve_TR_MS', 'eig_', none)
    s, lam, norms, value, gplus, nfact, neigd, msg, hard = M.bcdfo_solve_TR_MS_(g, H, delta, eps, nargout=9)
    c.eq('arguments unchanged', np.concatenate([H.ravel(), g.ravel()]), np.concatenate([H0.ravel(), g0.ravel()]))
    c.ge('multiplier not negative', lam, 0.0)
    if bool(delta == 0):
        c.eq('no step for a zero radius', s, 0 * g)
        return
    gg = (g.T.dot(g))[0, 0]
    if 'zero gradient' in msg:
        c.cover('zero gradient')
        c.le('zero gradient only if it is zero', gg, 1e-12, tol=0)
        c.eq('no step for a zero gradient', s, 0 * g)
        return
    ss = truth(c, H, g, s, norms, value, gplus)
    c.le('inside the trust region', norms, (1 + eps) * delta)
    c.check('number of factorisations', nfact == len(cnt))
    r = H.dot(s) + lam * s + g
    if kind_exact(c):
        c.eq('the step solves the shifted system', r, 0 * g)
    else:
        c.near('the step solves the shifted system', r, 0 * g, 1e-9)
    # positive semidefinite shifted matrix
    for i in range(n):
        c.ge('shifted matrix has a nonnegative diagonal', H[i, i] + lam, 0.0)
    if n == 2:
        c.ge('shifted matrix is positive semidefinite', (H[0, 0] + lam) * (H[1, 1] + lam) - H[0, 1] * H[1, 0], 0.0)
    lim = (1 - eps) * delta
    c.check('a nonzero multiplier only on the boundary', (lam <= 1e-12) | (norms >= lim))
    if 'interior' in msg:
        c.cover('interior')
        c.check('interior: shorter than the radius', norms <= lim)
    else:
        c.cover('boundary')
        c.check('boundary: as long as the radius', norms >= lim)
    c.le('model not increased', value, 0.0)


def hardcase(c):
    n, H, g, delta = data(c)
    H0, g0 = H.copy(), g.copy()
    c.assume(delta > 0.01)
    M = c.mod('bcdfo_solve_TR_MS')
    c.stub('bcdfo_solve_TR_MS', 'chol_', lambda A, nargout=2: (c.array([]), 1))
    s, lam, norms, value, gplus, nfact, neigd, msg, hard = M.bcdfo_solve_TR_MS_(g, H, delta, 0.01, nargout=9)
    c.eq('arguments unchanged', np.concatenate([H.ravel(), g.ravel()]), np.concatenate([H0.ravel(), g0.ravel()]))
    if 'zero gradient' in msg:
        return
    c.cover('hard case')
    c.check('real step', not np.iscomplexobj(s))
    c.check('hard case reported', hard == 1)
    Hs = H.dot(s)
    v = (g.T.dot(s) + 0.5 * s.T.dot(Hs))[0, 0]
    ss = (s.T.dot(s))[0, 0]
    c.le('inside the trust region', ss, delta * delta)
    c.near('value is the model at the step', value, v, 1e-14)
    if c.case.get('orth'):
        c.le('model not increased', v, 0.0)
        mu = c.case['mu']
        c.near('multiplier is minus the smallest eigenvalue', lam, -mu, 1e-9)
        if bool(ss > 0):
            c.near('the step solves the shifted system', H.dot(s) + lam * s, -g, 1e-8)
            c.near('on the boundary', ss, delta * delta, 1e-8)


def broken(c):
    n = c.case['n']
    H = np.eye(n)
    i, j = c.choice('i', list(range(n))), c.choice('j', list(range(n)))
    v = c.choice('v', [float('nan'), float('inf'), float('-inf')])
    H[i, j] = v
    g, delta = c.col('g', n, -10, 10), c.real('delta', 0, 10)
    s, lam, norms, value, gplus, nfact, neigd, msg, hard = c.mod('bcdfo_solve_TR_MS').bcdfo_solve_TR_MS_(g, c.array(H), delta, 0.01, nargout=9)
    c.check('unusable Hessian reported', msg.startswith('error'))
    c.eq('no step with an unusable Hessian', s, 0 * g)
    c.eq('gradient unchanged with no step', gplus, g)
    c.check('length and value of no step', (norms == 0) and (value == 0))


def cases(tier):
    out = []
    o = dict(query_ms=60000)
    th = tier == 'thorough'
    for d in (0.5,) + ((0.125, 20.0) if th else ()):
        out.append(('ms', dict(n=1, kind='sym', K=2 if not th else 3, delta=d), o))
    if th:
        out.append(('ms', dict(n=1, kind='sym', K=2), o))
        out.append(('ms', dict(n=1, kind='sym', K=3, delta=1.0, eps=1e-7), o))
        out.append(('ms', dict(n=1, kind='sym', K=3, delta=1.0, eps=0.1), o))
    for kind in MATS:
        for d in DIRS:
            if th or d in ('e1', '34') and kind not in ('hd', 'rot'):
                out.append(('ms', dict(n=2, kind=kind, dir=d, K=1, delta=0.5), o))
            if th:
                out.append(('ms', dict(n=2, kind=kind, dir=d, K=1), o))
                out.append(('ms', dict(n=2, kind=kind, dir=d, K=2, delta=1.0), o))
    if th:
        out.append(('ms', dict(n=2, kind='diag', K=1, delta=1.0), o))
    for n in (1, 2):
        out.append(('broken', dict(n=n), o))
    # hard case: gradient along an axis orthogonal to the leftmost eigenvector, or not
    out.append(('hardcase', dict(n=1, kind='sym', delta=0.75, K=0), o))
    for kind, d, mu in (('dind', 'e1', -1.0), ('hd', 'e2', -2.0), ('rot', 'm11', -1.0)):
        out.append(('hardcase', dict(n=2, kind=kind, dir=d, orth=1, mu=mu, delta=0.75, K=0), o))
    for kind, d in (('dind', '34'), ('nd', '34'), ('id', '34'), ('indef', 'e1')):
        out.append(('hardcase', dict(n=2, kind=kind, dir=d, delta=1.5, K=0), o))
    return out
