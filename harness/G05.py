"""The iterate is the best sample point: choice of the new base point after a geometry improvement."""
from .common import Struct
import numpy as np

BOUNDS = ('n<=2, up to 4 points, up to 2 constraint values, up to 1 slack; all points, values, bounds in [-10,10], any penalty '
          'parameter in [0,1000]; fixed variables and discarded points included')
ASSUMPTIONS = ['the factorisation is recorded, not computed (its own guarantee is a separate property)']


def neg(v):
    return (not v) if isinstance(v, (bool, np.bool_)) else ~v


def best(c):
    n, p, me, ns = c.case['n'], c.case['p'], c.case['me'], c.case.get('ns', 0)
    nfull = c.case.get('nfull', n)
    free = np.array(c.case.get('free', range(n)))
    Y = c.mat('y', n, p, -10, 10)
    f = c.vec('f', p, -10, 10)
    ce = c.mat('ce', me, p, -10, 10) if me else c.array([])
    sl = c.col('sl', ns, -3, 3) if ns else c.array([])
    sigma = c.real('sigma', 0, 1000)
    if c.case.get('sigarr'):
        sigma = c.array([[sigma]])
    lo = c.col('lo', nfull, -10, 10)
    if c.case.get('lower'):
        hi = c.array(np.full((nfull, 1), 1e20))
    else:
        hi = c.col('hi', nfull, -10, 10)
    for i in range(nfull):
        c.assume(lo[i, 0] <= hi[i, 0])
    ind = np.array([4 + 3 * k for k in range(p)])
    dst = np.zeros(ind[-1] + 1)
    dummy = c.case.get('dummy')
    if dummy is not None:
        dst[ind[dummy]] = 2
    glob = c.mod('sqpdfo_global_variables')
    glob.set_nbr_slacks(ns)
    glob.set_slacks(sl)
    rec = []

    def build(Y, *a, **k):
        rec.append(Y.copy())
        return 'Q2', 'R2', Y[:, [0]], 's2'
    c.stub('sqpdfo_swap_in_Y', 'bcdfo_build_QR_of_Y_', build)
    shift = c.case.get('shift', 1)
    x = Y[:, [0]].copy()
    info = Struct(f='f?', ce='ce?', ci=c.array([]), other='o')
    # earlier figures of the base point, in the record
    keep = [v.copy() for v in (Y, f, ce, lo, hi, sl)]
    lb = np.concatenate((lo, c.array(np.zeros((ns, 1))))) if ns else lo
    ub = np.concatenate((hi, c.array(np.full((ns, 1), 1e20)))) if ns else hi
    r = c.mod('sqpdfo_find_smallf').sqpdfo_find_smallf_(
        Struct(dummy=2), 'Q', 'R', Y, f, c.array([]), ce, ind, ind[0], p, free, x, lb, ub, f[0], dst, 0, 's', shift, 1.0, 1.0,
        1e15, sigma, info)
    x2, fx2, QZ, RZ, Y2, f2, ci2, ce2, ind2, ib, sc, inf = r
    for a, b in zip((Y, f, ce, lo, hi, sl), keep):
        if a.size:
            c.eq('arguments unchanged', a, b)
    c.check('arguments unchanged', info.f == 'f?' and list(ind) == [4 + 3 * k for k in range(p)])
    # which point became the base
    moved = bool(rec)
    j = int(np.argwhere(np.asarray(ind) == ind2[0])[0, 0])
    perm = list(range(p))
    perm[0], perm[j] = perm[j], perm[0]
    c.check('indices follow their points', list(ind2) == [ind[k] for k in perm])
    c.eq('points keep their values (points)', Y2, keep[0][:, perm])
    c.eq('points keep their values (objective)', f2, keep[1][perm])
    if me:
        c.eq('points keep their values (constraints)', ce2, keep[2][:, perm])
    c.check('factorisation follows a move', moved == (j != 0) and (QZ == ('Q2' if moved else 'Q')))
    c.check('index of the iterate', ib == ind2[0])
    c.eq('value of the iterate', fx2, f2[0])
    c.eq('reported value is that of the iterate', inf.f, f2[0])
    if me:
        c.eq('reported constraint values are those of the iterate', inf.ce, keep[2][:, [j]])
    if not shift and moved:
        c.eq('iterate is the first point', x2, keep[0][:, [j]])
    if moved:
        c.cover('moved')
        c.eq('factorisation is that of the new set', rec[0], Y2)

    def merit(k):
        if not me:
            return keep[1][k]
        v = keep[2][:, k]
        if ns:
            v = c.array([v[i] - (sl[i - me + ns, 0] ** 2 if i >= me - ns else 0.0) for i in range(me)])
        nrm = abs(v[0]) if me == 1 else c.mod('runtime').norm_(v)
        return keep[1][k] + (sigma[0, 0] if c.case.get('sigarr') else sigma) * nrm

    def inside(k):
        ok = True
        for q, i in enumerate(free):
            ok = ok & ((lo[i, 0] <= keep[0][q, k]) & (keep[0][q, k] <= hi[i, 0]))
        return ok
    m = [merit(k) for k in range(p)]
    c.le('merit never worse than before', m[j], m[0])
    if j:
        c.check('no discarded point is chosen', j != dummy)
        c.check('only a point within the bounds is chosen', inside(j))
    for k in range(1, p):
        if k != dummy:
            c.check('no admissible sample point is better than the iterate', neg(inside(k)) | (m[j] <= m[k] + 1e-7 * (1 + abs(m[k]))))


def cases(tier):
    out = []
    for n, p in ((1, 2), (1, 3), (2, 3)) + (((2, 4), (3, 4)) if tier == 'thorough' else ()):
        out.append(('best', dict(n=n, p=p, me=0), {}))
        lo = dict(lower=1) if n > 1 else {}
        out.append(('best', dict(n=n, p=p, me=1, **lo), {}))
        if n == 1 or tier == 'thorough':
            out.append(('best', dict(n=n, p=p, me=1, ns=1, **lo), {}))
    out.append(('best', dict(n=1, p=3, me=1, shift=0), {}))
    out.append(('best', dict(n=1, p=2, me=2), {}))
    out.append(('best', dict(n=1, p=3, me=1, sigarr=1), {}))
    out.append(('best', dict(n=1, p=2, me=2, ns=1), {}))
    out.append(('best', dict(n=1, p=3, me=0, dummy=1), {}))
    out.append(('best', dict(n=1, p=3, me=1, nfull=2, free=(1,)), {}))
    out.append(('best', dict(n=2, p=2, me=0, nfull=3, free=(0, 2)), {}))
    return out
