"""Record of evaluated points: every evaluation is recorded once, aligned with its point, clamped, and nothing else changes."""
from .common import Struct
import numpy as np

BOUNDS = ('n<=2, up to 3 points already recorded, up to 2 constraint values; up to two of three variables fixed; recorded data and new values: every double '
          '(NaN and infinities included for the new values)')
ASSUMPTIONS = ['FP: IEEE-754 binary64']
BIG = 1e25


def isnan(v):
    return v != v


def neg(v):
    return (not v) if isinstance(v, (bool, np.bool_)) else ~v


def run(c, msg=0, finite=True):
    n, k, me = c.case['n'], c.case['k'], c.case['me']
    fx = c.fp('f')
    ce = [c.fp('c%d' % i) for i in range(me)]
    nm = '%s%d_%d'
    X = c.array([[c.fp(nm % ('x', i, j), finite=True) for j in range(k)] for i in range(n)]) if k else c.array([])
    fX = c.array([c.fp('fx%d' % j, finite=True) for j in range(k)]) if k else c.array([])
    ceX = c.array([[c.fp(nm % ('cx', i, j), finite=True) for j in range(k)] for i in range(me)]) if me and k else c.array([])
    fixed = list(c.case.get('fixed', []))
    free = [i for i in range(n) if i not in fixed]
    y = c.array([c.fp('y%d' % i, finite=True) for i in free]).reshape(-1, 1)
    fxmax = c.choice('fxmax', [1e25, 1e20])
    xs, ss, ds = (np.arange(k) + 5.0 * q for q in (1, 2, 3))
    sc = 'scale' in c.case
    fac = c.array([[c.case['scale']] * n]).T if sc else None
    seen = []

    def f(key, p):
        seen.append((key, p))
        return msg, fx, c.array([]), (c.array(ce).reshape(-1, 1) if me else c.array([]))
    info = Struct(nsimul=[7, 11, 13, 17], flag=0, f='old')
    opt, val = Struct(verbose=0), Struct(fail_on_simul=3)
    xfix = c.array([[c.fp('xf%d' % i, finite=True)] if i in fixed else [0.0] for i in range(n)])
    keep = [v.copy() for v in (X, fX, ceX, y)]
    r = c.mod('sqpdfo_augmX_evalf').sqpdfo_augmX_evalf_(
        f, y, k, X, fX, c.array([]), ceX, len(fixed), xfix, np.array(fixed), np.array(free), fxmax, 11, xs, 9.0, ss, ds, int(sc), fac, info, opt, val)
    X2, fX2, ci2, ce2, neval, xs2, ss2, ds2, inf, m = r
    c.check('function evaluated exactly once', len(seen) == 1 and seen[0][0] == 2)
    for i in range(n):
        full = xfix[i, 0] if i in fixed else y[free.index(i), 0]
        want = full / c.case['scale'] if sc else full
        c.check('function evaluated at the (unscaled) point', seen[0][1][i, 0] == want)
    c.check('evaluation counter advanced by one', list(inf.nsimul) == [7, 12, 13, 17])
    same = True
    for a, b in zip((X, fX, ceX, y), keep):
        for u, v in zip(a.ravel(), b.ravel()):
            same = same & (u == v)
        c.check('arguments keep their size', a.shape == b.shape)
    c.check('arguments unchanged', same)
    for a, q in ((xs2, 1), (ss2, 2), (ds2, 3)):
        c.check('status arrays keep the earlier entries', list(a[:k]) == [j + 5.0 * q for j in range(k)] and len(a) == k + 1)
    c.check('status of the new point', xs2[k] == 9.0 and ss2[k] == 1 and ds2[k] == 0)
    bad = isnan(fx) | (abs(fx) == np.inf)
    for v in ce:
        bad = bad | isnan(v)
    return Struct(fx=fx, ce=ce, X=keep[0], fX=keep[1], ceX=keep[2], y=[xfix[i, 0] if i in fixed else keep[3][free.index(i), 0] for i in range(n)], X2=X2, fX2=fX2, ce2=ce2, neval=neval, inf=inf,
                  bad=bad, fxmax=fxmax, msg=m, info=info)


def record(c):
    n, k, me = c.case['n'], c.case['k'], c.case['me']
    s = run(c)
    if bool(s.bad):
        c.cover('failed evaluation')
        c.check('an evaluation that gives NaN or infinity raises the failure flag', s.inf.flag == 3)
        c.check('failed evaluation leaves the recorded values alone', s.fX2.shape == s.fX.shape and s.ce2.shape == s.ceX.shape)
        c.check('failed evaluation is not counted as a recorded one', s.neval == 11)
        return
    c.cover('recorded')
    c.check('no failure flag', s.inf.flag == 0)
    c.check('caller status untouched', s.info.f == 'old')
    c.check('one more point, value and constraint column',
            s.X2.shape == (n, k + 1) and s.fX2.shape == (k + 1,) and (not me or s.ce2.shape == (me, k + 1)))
    ok = True
    for j in range(k):
        for i in range(n):
            ok = ok & (s.X2[i, j] == s.X[i, j])
        ok = ok & (s.fX2[j] == s.fX[j])
        for i in range(me):
            ok = ok & (s.ce2[i, j] == s.ceX[i, j])
    c.check('earlier records untouched', ok)
    for i in range(n):
        c.check('new point recorded', s.X2[i, k] == s.y[i])
    v = s.fX2[k]
    c.check('objective recorded, limited from above only', (v == s.fx) | ((s.fx > s.fxmax) & (v == s.fxmax)))
    c.check('recorded objective never above the limit', v <= s.fxmax)
    c.check('status carries the plain objective value', s.inf.f == s.fx)
    for i in range(me):
        w, t = s.ce2[i, k], s.ce[i]
        c.check('constraint value recorded, limited to +-1e25',
                ((w == t) & (abs(t) <= BIG)) | ((t > BIG) & (w == BIG)) | ((t < -BIG) & (w == -BIG)))
    c.check('number of recorded evaluations advanced', s.neval == 12)


def refused(c):
    s = run(c, msg=c.choice('message', [1, 'error in the constraint function']))
    c.check('an evaluation that raised an error raises the failure flag', s.inf.flag == 3)
    c.check('failed evaluation is not counted as a recorded one', s.neval == 11)


def cases(tier):
    out = []
    for k, me in ((0, 0), (1, 1)):
        out.append(('refused', dict(n=1, k=k, me=me), {}))
    for k in (0, 1, 3):
        out.append(('record', dict(n=2, k=k, me=1, fixed=(0,)), {}))
        out.append(('record', dict(n=2, k=k, me=0, fixed=(1,)), {}))
        out.append(('record', dict(n=3, k=k, me=1, fixed=(0, 2)), {}))
    for n in (1, 2):
        for k in (0, 1, 3):
            for me in (0, 1, 2):
                out.append(('record', dict(n=n, k=k, me=me), {}))
    out.append(('record', dict(n=1, k=0, me=0, scale=2.0), {}))
    if tier == 'thorough':
        for n, k, me in ((3, 5, 3), (4, 1, 4)):
            out.append(('record', dict(n=n, k=k, me=me), {}))
    return out
