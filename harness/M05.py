"""Geometry repair: the base point is kept, every replacement stays close to it, and the reported figures are what they claim."""
import numpy as np
from . import common

BOUNDS = ('new-point search: n<=3, linear/diagonal/quadratic Lagrange polynomials with arbitrary coefficients, any base point, scaling '
          'and radius; repair and poisedness: n<=2, up to 4 points, arbitrary sets, radii and thresholds, at most 2 improvement '
          'rounds above the threshold')
ASSUMPTIONS = ['the trust-region solver answers with a step inside the radius and reports the quadratic value of that step (its own '
               'guarantee is a separate property)', 'the factorisation is recorded, not computed']


def newpt(c):
    n, q, shift = c.case['n'], c.case['q'], c.case['shift']
    Lj = c.mat('L', 1, q, -5, 5)
    Y = c.mat('y', n, 2, -5, 5)
    Delta = c.real('delta', 0.1, 5)
    Lj[0, 0] = 0.0
    if shift:
        sc = c.case['sc'] if 'sc' in c.case else c.real('sc', 0.1, 5)
        scale = [1.0] + [sc] * n + [sc * sc] * (common.nq(n) - 1 - n)
        scale = c.array(scale[:q]).reshape(-1, 1)
        xbase = Y[:, [0]].copy()
    else:
        scale = c.array([1.0] * q).reshape(-1, 1)
        xbase = c.array(np.zeros((n, 1)))
    M = 'bcdfo_find_new_yj'
    c.stub(M, 'bcdfo_computeLj_', lambda QZ, RZ, j, *a, **k: Lj)
    calls = []

    def tr(g, H, D, eps, **k):
        i = len(calls)
        s = c.col('s%d_' % i, n, -30, 30)
        c.assume((s.T.dot(s))[0, 0] <= D * D)
        v = (g.T.dot(s))[0, 0] + 0.5 * (s.T.dot(H.dot(s)))[0, 0]
        c.assume(v <= 0)
        calls.append((g, H, D, s, v))
        return s, 0.0, None, v, None, 0, None, '', 0
    c.stub(M, 'bcdfo_solve_TR_MS_', tr)
    Y0, L0 = Y.copy(), Lj.copy()
    y, imp, msg = c.mod(M).bcdfo_find_new_yj_('Q', 'R', Y, 1, Delta, 0.001, xbase, 1, 0, scale, shift)
    c.eq('arguments unchanged', np.concatenate([Y.ravel(), Lj.ravel()]), np.concatenate([Y0.ravel(), L0.ravel()]))
    c.check('both signs of the polynomial are explored', len(calls) == 2)
    c.eq('second search is for the opposite sign', calls[1][0], -1 * calls[0][0])
    c.eq('second search is for the opposite sign (curvature)', calls[1][1], -1 * calls[0][1])
    d = y - Y0[:, [0]]
    c.le('new point within the radius of the base point', (d.T.dot(d))[0, 0], Delta * Delta)
    if shift:
        z = [(y[i, 0] - xbase[i, 0]) * scale[1, 0] for i in range(n)]
        val = sum(L0[0, k] * m for k, m in enumerate(common.monomials(z, q)))
        c.eq('improvement is the absolute value of the Lagrange polynomial at the new point', imp, abs(val))
    else:
        val = sum(L0[0, k] * m for k, m in enumerate(common.monomials([v for v in y.ravel()], q)))
        b0 = sum(L0[0, k] * m for k, m in enumerate(common.monomials([v for v in Y0[:, 0]], q)))
        c.eq('improvement is the absolute change of the Lagrange polynomial', imp, abs(val - b0))
    for k in range(2):
        c.ge('improvement is the better of the two searches', imp, abs(calls[k][4]))


def nobase(c):
    n = c.case['n']
    Y = c.mat('y', n, 2, -5, 5)
    y, imp, msg = c.mod('bcdfo_find_new_yj').bcdfo_find_new_yj_('Q', 'R', Y, 0, 1.0, 0.001, Y[:, [0]], 1, 0, None, 1)
    c.check('the base point is never offered for replacement', imp == 0)


def repair(c):
    n, p, rounds = c.case['n'], c.case['p'], c.case['rounds']
    Y = c.mat('y', n, p, -8, 8)
    if 'delta' in c.case:
        Y[:, 0] = 0.0
    Delta = c.case['delta'] if 'delta' in c.case else c.real('delta', 0.1, 2)
    far = c.case['far']
    eps = 0.001
    closethr = c.real('close', 1, 3)
    M = 'bcdfo_repair_Y'
    offers = []
    built = []

    def newyj(QZ, RZ, Yc, j, D, *a, **k):
        i = len(offers)
        s = c.col('s%d_' % i, n, -4, 4)
        c.assume((s.T.dot(s))[0, 0] <= Delta * Delta)
        lim = i >= rounds * (p - 1)
        imp = c.real('imp%d' % i, 0, 5)
        if c.opt_round is not None:
            lim = c.opt_round(i)
        if lim:
            c.assume(imp < closethr)
        y = Yc[:, [0]] + s
        offers.append((int(j), D, y, imp, Yc.copy()))
        return y, imp, ''
    c.opt_round = None
    c.stub(M, 'bcdfo_find_new_yj_', newyj)

    def build(Yc, *a, **k):
        built.append(Yc.copy())
        return 'Q%d' % len(built), 'R', Yc[:, [0]], 'sc'
    c.stub('bcdfo_replace_in_Y', 'bcdfo_build_QR_of_Y_', build)
    d2 = lambda A, j: sum((A[i, j] - A[i, 0]) * (A[i, j] - A[i, 0]) for i in range(n))
    thr = far * (1 + eps) * Delta
    nfar = [j for j in range(1, p) if bool(d2(Y, j) > thr * thr)]
    c.opt_round = lambda i: i >= len(nfar) + rounds * (p - 1)
    Y0 = Y.copy()
    QZ, RZ, Y2, rep, imp, rad, xb, sc = c.mod(M).bcdfo_repair_Y_(
        'Q', 'R', Y, Delta, far, 1e-10, closethr, eps, 'xb', 1, 0, 0, None, None, None, 1, 'sc', 1, 1.0, 1e15)
    rep = sorted(int(v) for v in np.asarray(rep).ravel())
    c.eq('argument unchanged', Y, Y0)
    c.eq('the base point is kept', Y2[:, 0], Y0[:, 0])
    c.check('the base point is never listed as replaced, no point listed twice', 0 not in rep and len(set(rep)) == len(rep))
    for j in range(1, p):
        if j not in rep:
            c.eq('points not listed as replaced are untouched', Y2[:, j], Y0[:, j])
            c.le('points left in place are not far away', d2(Y0, j), thr * thr)
        else:
            c.le('replacements stay within the radius', d2(Y2, j), Delta * Delta)
    for j in nfar:
        c.check('every far point is replaced', j in rep)
    if rep:
        c.check('factorisation follows the set', len(built) > 0 and QZ == 'Q%d' % len(built))
        c.eq('factorisation is that of the final set', built[-1], Y2)
    else:
        c.check('nothing replaced: factorisation kept', QZ == 'Q' and not built)
        c.check('nothing replaced: improvement zero', imp == 0)
    c.check('radius reported is attained or bounds the set', rad >= 0)
    for j in range(1, p):
        c.le('radius reported covers the set', d2(Y2, j), rad * rad)
    if rep:
        last = offers[-(p - 1):]
        one = False
        for o in last:
            c.le('poisedness reported bounds the last round', o[3], imp)
            one = (o[3] == imp) | one
        c.check('poisedness reported is attained', one | (imp == 0))
        c.check('repair stops only when no improvement reaches the threshold', imp < closethr)


def poised(c):
    n, p = c.case['n'], c.case['p']
    Y = c.mat('y', n, p, -8, 8)
    M = 'bcdfo_poisedness_Y'
    offers = []

    def newyj(QZ, RZ, Yc, j, D, *a, **k):
        imp = c.real('imp%d' % len(offers), 0, 5)
        offers.append((int(j), D, imp))
        return None, imp, ''
    c.stub(M, 'bcdfo_find_new_yj_', newyj)
    lam, rad = c.mod(M).bcdfo_poisedness_Y_('Q', 'R', Y, 0.001, 'xb', 1, 0, 0, None, None, None, 1, 'sc', 1)
    c.check('every point but the base is examined once', [o[0] for o in offers] == list(range(1, p)))
    one, two = False, False
    for k in range(p - 1):
        c.le('poisedness bounds every polynomial', offers[k][2], lam)
        one = (offers[k][2] == lam) | one
        d = sum((Y[i, k + 1] - Y[i, 0]) * (Y[i, k + 1] - Y[i, 0]) for i in range(n))
        c.le('radius covers the set', d, rad * rad)
        two = (d == rad * rad) | two
        c.eq('polynomials are explored over the ball containing the set', offers[k][1], rad)
    c.check('poisedness is attained', one)
    if c.symbolic:
        c.check('radius is attained', two)


def cases(tier):
    out = []
    for n in (1, 2, 3):
        for q in (n + 1, 2 * n + 1, common.nq(n)):
            if n == 3 and q > 4 and tier == 'quick':
                continue
            for sh in (0, 1):
                k = dict(sc=0.75) if sh and n >= 2 and q > n + 1 and tier == 'quick' else {}
                out.append(('newpt', dict(n=n, q=q, shift=sh, **k), {}))
        out.append(('nobase', dict(n=n), {}))
    for n, p in ((1, 2), (1, 3), (2, 3)) + (((2, 4), (3, 4)) if tier == 'thorough' else ()):
        for r in (0, 1, 2):
            if p == 3 and r == 2 and tier == 'quick':
                continue
            k = dict(delta=0.5) if n > 1 and tier == 'quick' else {}
            out.append(('repair', dict(n=n, p=p, rounds=r, far=10, **k), {}))
    for n, p in ((1, 2), (1, 3), (2, 3), (2, 4)):
        out.append(('poised', dict(n=n, p=p), {}))
    return out
