"""Updates of the sample set keep points, indices and values aligned and touch nothing else."""
import numpy as np

BOUNDS = ('n<=2 (thorough 3), up to a full quadratic set (6 points), every pair of positions, up to 2 constraints of each kind; all '
          'values in [-10,10]. The factorisation is recorded, not computed (its own guarantee is a separate property)')
ASSUMPTIONS = []


def fac(c, mod, rec):
    def build(Y, *a, **k):
        rec.append((Y.copy(), a))
        return 'QZ%d' % len(rec), 'RZ', Y[:, [0]], 'sc'
    c.stub(mod, 'bcdfo_build_QR_of_Y_', build)


def data(c, n, p, mi, me):
    Y = c.mat('y', n, p, -10, 10)
    f = c.vec('f', p, -10, 10)
    ci = c.mat('ci', mi, p, -10, 10) if mi else c.array([])
    ce = c.mat('ce', me, p, -10, 10) if me else c.array([])
    ind = np.array([10 + 3 * k for k in range(p)])
    return Y, f, ci, ce, ind


def swap(c):
    n, p, mi, me = c.case['n'], c.case['p'], c.case['mi'], c.case['me']
    Y, f, ci, ce, ind = data(c, n, p, mi, me)
    i, j = c.choice('i', list(range(p))), c.choice('j', list(range(p)))
    rec = []
    fac(c, 'sqpdfo_swap_in_Y', rec)
    old = [v.copy() for v in (Y, f, ci, ce, ind)]
    QZ, RZ, Y2, ind2, f2, ci2, ce2, xb, sc = c.mod('sqpdfo_swap_in_Y').sqpdfo_swap_in_Y_(
        i, j, 'Q', 'R', Y, ind, f, ci, ce, 'xb', 0, 's', 1, 1.0, 1.0, 1e15)
    for a, b in zip((Y, f, ci, ce, ind), old):
        if a.size:
            c.eq('arguments unchanged', a, b)
    perm = list(range(p))
    perm[i], perm[j] = perm[j], perm[i]
    c.eq('points exchanged, others untouched', Y2, old[0][:, perm])
    c.eq('function values follow their points', f2, old[1][perm])
    if mi:
        c.eq('inequality values follow their points', ci2, old[2][:, perm])
    if me:
        c.eq('equality values follow their points', ce2, old[3][:, perm])
    c.check('indices follow their points', list(ind2) == [10 + 3 * k for k in perm])
    if i == j:
        c.check('nothing to do', QZ == 'Q' and xb == 'xb' and not rec)
    else:
        c.check('factorisation rebuilt once', QZ == 'QZ1' and len(rec) == 1)
        c.eq('factorisation is that of the new set', rec[0][0], Y2)
        c.eq('base point is the new first point', xb, Y2[:, [0]])


def replace(c):
    n, p = c.case['n'], c.case['p']
    Y, f, ci, ce, ind = data(c, n, p, 0, 0)
    y = c.col('new', n, -10, 10)
    j = c.choice('j', list(range(p)))
    rec = []
    fac(c, 'bcdfo_replace_in_Y', rec)
    Y0 = Y.copy()
    QZ, RZ, Y2, xb, sc = c.mod('bcdfo_replace_in_Y').bcdfo_replace_in_Y_('Q', 'R', y, Y, j, 'xb', 0, 's', 1, 1.0, 1.0, 1e15)
    c.eq('argument unchanged', Y, Y0)
    want = Y0.copy()
    want[:, j] = y.reshape(-1)
    c.eq('only the chosen point is replaced', Y2, want)
    c.check('factorisation rebuilt once', len(rec) == 1 and QZ == 'QZ1')
    c.eq('factorisation is that of the new set', rec[0][0], want)


def augment(c):
    n, p = c.case['n'], c.case['p']
    Y = c.mat('y', n, p, -10, 10)
    y = c.col('new', n, -10, 10)
    rec = []
    fac(c, 'bcdfo_augment_Y', rec)
    Y0 = Y.copy()
    p1, QZ, RZ, Y2, xb, sc = c.mod('bcdfo_augment_Y').bcdfo_augment_Y_(y, Y, 0, 1, 1.0, 1.0, 1e15)
    c.eq('argument unchanged', Y, Y0)
    full = p >= (n + 1) * (n + 2) // 2
    want = Y0 if full else np.concatenate([Y0, y], axis=1)
    c.check('size of the set', p1 == p + (not full) and Y2.shape == (n, p1))
    c.eq('the point is appended (unless the set is already fully quadratic), others untouched', Y2, want)
    c.check('factorisation rebuilt once', len(rec) == 1)
    c.eq('factorisation is that of the new set', rec[0][0], want)


def include(c):
    """the replaced point is the one the criterion prefers among the admissible candidates"""
    n, p, crit, succ = c.case['n'], c.case['p'], c.case['crit'], c.case['succ']
    Y = c.mat('y', n, p, -5, 5)
    x = c.col('x', n, -5, 5)
    L = c.mat('L', 1, p, -5, 5)
    thr = c.real('thr', 0.1, 3)
    mask = [c.choice('m%d' % k, [0, 1]) for k in range(p)]
    cs = np.array([k for k in range(p) if mask[k]]).reshape(-1, 1)
    M = 'bcdfo_include_in_Y'
    seen, rec = [], []

    def evalL(QZ, RZ, Yc, choice, xx, *a, **k):
        seen.append([int(v) for v in np.asarray(choice).ravel()])
        out = c.array(np.zeros((p, 1)))
        for q in seen[-1]:
            out[q, 0] = L[0, q]
        return out
    c.stub(M, 'bcdfo_evalL_', evalL)

    def rep(QZ, RZ, ynew, Yc, j, xbase, *a, **k):
        rec.append((ynew, j))
        Z = Yc.copy()
        Z[:, j] = ynew.reshape(-1)
        return 'Q2', 'R2', Z, 'xb2', 'sc2'
    c.stub(M, 'bcdfo_replace_in_Y_', rep)
    Y0 = Y.copy()
    if not len(cs):
        cs = []
    QZ, RZ, Y2, pos, xb, sc = c.mod(M).bcdfo_include_in_Y_(x, 'Q', 'R', Y, cs, thr, crit, 'xb', 0, succ, 'sc', 1, 1.0, 1.0, 1e15)
    c.eq('argument unchanged', Y, Y0)
    adm = [k for k in range(p) if mask[k] and bool(abs(L[0, k]) > thr)]

    def crit2(k):
        ref = x if succ == 1 else Y0[:, [0]]
        d2 = sum((Y0[i, k] - ref[i, 0]) * (Y0[i, k] - ref[i, 0]) for i in range(n))
        if crit == 'distance':
            return d2
        a = abs(L[0, k])
        return a if crit == 'standard' else d2 * a
    if pos == -1:
        c.check('unchanged set when no replacement is made', not rec and QZ == 'Q' and xb == 'xb')
        c.eq('unchanged points when no replacement is made', Y2, Y0)
        for k in adm:
            c.le('an admissible candidate with positive merit is never passed over', crit2(k), 0.0)
        return
    c.cover('replaced')
    c.check('the replaced point is an admissible candidate', pos in adm)
    c.check('replaced through the factorising update', len(rec) == 1 and QZ == 'Q2' and xb == 'xb2' and rec[0][1] == pos)
    want = Y0.copy()
    want[:, pos] = x.reshape(-1)
    c.eq('the new point takes the chosen position, others untouched', Y2, want)
    for k in adm:
        c.le('no admissible candidate is preferred by the criterion', crit2(k), crit2(pos))


def cases(tier):
    out = []
    S = [(1, 2), (1, 3), (2, 3), (2, 5), (2, 6)] + ([(3, 4), (3, 10)] if tier == 'thorough' else [])
    for n, p in S:
        for mi, me in ((0, 0), (1, 2), (0, 1), (2, 0)):
            out.append(('swap', dict(n=n, p=p, mi=mi, me=me), {}))
        out.append(('replace', dict(n=n, p=p), {}))
        for q in range(2, p + 1):
            out.append(('augment', dict(n=n, p=q), {}))
    for n, p in ((1, 2), (2, 3)) + (((3, 4), (1, 3)) if tier == 'thorough' else ()):
        for crit in ('weighted', 'standard', 'distance'):
            for succ in (0, 1):
                out.append(('include', dict(n=n, p=p, crit=crit, succ=succ), {}))
    return out
