"""Variables fixed by equal bounds stay fixed; the rest of the run is that of the reduced problem."""
from . import front
from .common import Struct
import numpy as np

BOUNDS = 'n<=4 with any proper subset of the variables fixed at any value in [-100,100], 0-2 constraints; other bounds in [-100,100] or absent'
ASSUMPTIONS = front.CONTRACT + ['any multipliers and any recorded point may be returned by the main loop']


def fixed(c):
    k = c.case
    n, fx, me, mi = k['n'], k['fixed'], k.get('me', 0), k.get('mi', 0)
    free = [i for i in range(n) if i not in fx]
    x0 = [c.real('x%d' % i, -100, 100) for i in range(n)]
    lo, up = [], []
    for i in range(n):
        a = c.real('l%d' % i, -100, 100) if i in fx or k.get('bounds') else -1e20
        b = a if i in fx else c.real('u%d' % i, -100, 100) if k.get('bounds') else 1e20
        if i not in fx and k.get('bounds'):
            c.assume(b - a >= 1e-3)
        lo.append(a)
        up.append(b)
    val = [[c.real('F%d' % j, -10, 10) for j in range(len(free) + 1)],
           [[c.real('C%d_%d' % (j, i), -10, 10) for i in range(me + mi)] for j in range(len(free) + 1)]]
    m = me + mi
    best = c.choice('best', list(range(len(free) + 1)))
    lmf = c.vec('lm', len(free) + m, -5, 5)

    def one(idx):
        r = front.Rec()
        front.install(c, r)
        f, cf = front.users(c, r, m, fvals=lambda q: val[0][q], cvals=lambda q, i: val[1][q][i])
        r.best = lambda q: best
        r.lm = lambda q: lmf.reshape(-1, 1).copy()
        front.call(c, r, Struct(verbose=0), f, c.array([[x0[i] for i in idx]]), c.array([[lo[i]] for i in idx]),
                   c.array([[up[i]] for i in idx]), me, mi, *([cf] if m else []))
        return r
    r = one(list(range(n)))
    c.check('served', len(r.main) == 1)
    R = r.main[0]
    for e in r.evals:
        c.check('points have all variables', len(e.x) == n)
        for i in fx:
            c.eq('fixed variables have their value in every evaluation', e.x[i], lo[i])
    c.check('the main loop works with the free variables', R.n == len(free))
    x = np.asarray(r.x).ravel()
    c.check('all variables are returned', len(x) == n)
    c.eq('the point of the main loop is returned', c.array(list(x)), c.array(r.evals[best].x))
    for i in fx:
        c.eq('fixed variables have their value in the result', x[i], lo[i])
    lm = np.asarray(r.lm).ravel()
    c.check('one multiplier per variable and constraint', len(lm) == n + m)
    for i in fx:
        c.eq('multiplier of a fixed variable is zero', lm[i], 0.0)
    for q, i in enumerate(free):
        c.eq('multipliers of the free variables', lm[i], lmf[q])
    for q in range(m):
        c.eq('multipliers of the constraints', lm[n + q], lmf[len(free) + q])
    c.eq('reported value', r.info.f, r.evals[best].f)
    # the reduced problem
    s = one(free)
    S = s.main[0]
    c.check('same number of evaluations as the reduced problem', len(r.evals) == len(s.evals))
    for e, g in zip(r.evals, s.evals):
        c.eq('same points as the reduced problem', c.array([e.x[i] for i in free]), c.array(g.x))
    c.eq('same radius as the reduced problem', R.delta, S.delta)
    c.check('same degrees as the reduced problem', (R.plin, R.pdiag, R.pquad, R.cur_degree, R.rep_degree) == (
        S.plin, S.pdiag, S.pquad, S.cur_degree, S.rep_degree))
    for a, b in zip(r.fit[-1], s.fit[-1]):
        c.eq('same model data as the reduced problem', a, b)
    c.cover('done')


def cases(tier):
    out = []
    pats = [(2, [0]), (2, [1]), (3, [0]), (3, [1]), (3, [2]), (3, [0, 2]), (3, [1, 2]), (3, [0, 1])]
    if tier == 'thorough':
        pats += [(4, [0, 3]), (4, [1, 2]), (4, [2]), (4, [0, 1, 3])]
    for n, fx in pats:
        out.append(('fixed', dict(n=n, fixed=fx), {}))
        if n - len(fx) == 1 or tier == 'thorough' and n < 4:
            out.append(('fixed', dict(n=n, fixed=fx, bounds=1, me=1), {}))
            out.append(('fixed', dict(n=n, fixed=fx, bounds=1, me=1, mi=1), {}))
    out.append(('fixed', dict(n=3, fixed=[1], bounds=1), {}))
    return out
