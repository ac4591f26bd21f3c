"""A trial point becomes the iterate only if it decreases the merit function sufficiently; the record of the iterate, its values, its
slacks and the sample set stay aligned."""
from . import mainloop
from .common import Struct
import numpy as np

BOUNDS = ('one full iteration of the main loop (or two or three, the first with fixed values), n=1 (n=2 without constraints), sample sets of 2 points growing to 3, up '
          'to 1 equality and 1 inequality constraint, objective values in [-10,10], constraint values in [-5,5], any step in '
          '[-3,3], any predicted reduction of the constraints in [-5,-1e-6], 0 or [1e-6,5], any gradient in [-5,5], curvature 2, 0 or -2')
ASSUMPTIONS = mainloop.CONTRACT + ['trial points and replaced sample points are at least 1e-3 away from all other evaluated points']
ETA1 = 1e-4


# first steps with fixed values (before them: objective 2, 3 and constraints 1, -1 at the sample points, gradient 1, slack 1)
HIST = {
    'good': [dict(s=-0.5, rp=0.25, sl=0.5, f=1.0, c=0.25)],          # accepted
    'zero': [dict(s=-0.5, rp=0.25, sl=0.0, f=1.0, c=0.25)],          # accepted, slack moved away from zero
    'bad': [dict(s=-0.5, rp=0.25, sl=0.5, f=4.0, c=0.75)],           # rejected
    'badgood': [dict(s=-0.5, rp=0.25, sl=0.5, f=4.0, c=0.75), dict(s=-0.25, rp=0.25, sl=0.5, f=-3.0, c=0.25)],
    'pen': [dict(s=0.5, rp=0.1, sl=0.5, f=1.0, c=0.25)],             # penalty raised
    'unusable': [dict(s=0.5, rp=-0.25, sl=0.5, f=1.0, c=0.25)],
    'rejimpr': [dict(s=-0.5, rp=0.25, sl=0.5, f=4.0, c=0.75), dict(s=0.5, rp=-0.25, sl=0.5, f=1.0, c=0.25)],
}


def dist(a, b):
    d = [abs(u - v) for u, v in zip(a, b)]
    return d[0] if len(d) == 1 else d[0] + d[1]


class Book:
    """all evaluated points with their values"""

    def __init__(self, c, r):
        self.c, self.r = c, r
        self.pts = [(list(r.X0[:, j]), r.f0[j], r.ce0[:, j] if r.me else None) for j in range(r.p)]
        for e in r.evals:
            if e.f is None:
                continue
            self.pts.append((e.x, e.f, e.c))
        for i in range(r.p, len(self.pts)):
            for j in range(i):
                c.assume(dist(self.pts[i][0], self.pts[j][0]) >= 1e-3)

    def which(self, x):
        x = list(np.asarray(x).ravel())
        for i, q in enumerate(self.pts):
            if bool(dist(x, q[0]) <= 1e-7):
                return i
        return None


def iteration(c):
    k = c.case
    r = mainloop.start(c, n=k.get('n', 1), p=k['p'], me=k['me'], ns=k['ns'], degree=k['degree'], rp=k['rp'], curv=k.get('curv', 2.0),
                       steps=k.get('steps', 1), hist=HIST[k['hist']] if 'hist' in k else (), repl=k.get('repl', (0, 1)), slfix=k.get('slfix'), gfix=k.get('gfix'), last=k.get('last')).go()
    B = Book(c, r)
    if not r.stopped:
        c.check('stops early only with a small trust region', r.info.flag == 15)
        i = B.which(r.x)
        c.check('an evaluated point is returned', i is not None)
        c.eq('reported value is that of the returned point', r.info.f, B.pts[i][1])
        return
    sigma = 1.0
    for t in range(r.steps):
        T, U = r.tr[t], r.tr[t + 1]
        ev = T.nev
        c.check('the step is followed by an evaluation', len(r.evals) > ev)
        e = r.evals[ev]
        s = np.asarray(T.s).ravel()
        for i in range(r.n):
            c.eq('the trial point is evaluated', e.x[i], T.x[i, 0] + s[i])
        it = r.p + ev
        q = 0.0
        for i in range(r.n):
            q = q + T.g[i, 0] * s[i] + 0.5 * (T.M[i, i] * (s[i] * s[i]))
        if k['rp'] == 'zero' or bool(T.rpred == 0):
            sb = 0.0
        else:
            sb = q / ((1 - 0.3) * T.rpred)
        if bool(sigma < sb):
            sigma = sb if bool(sb >= 1.5 * sigma) else 1.5 * sigma

        def merit(i, sl):
            return B.pts[i][1] + sigma * mainloop.resid(r, B.pts[i][2], sl)
        a, b = B.which(T.x), B.which(U.x)
        c.check('the iterate is an evaluated point', b is not None)
        m0, m1, m2 = merit(a, T.sl), merit(it, T.slp0), merit(b, U.sl)
        pred = -q + sigma * T.rpred
        ared = m0 - m1
        improved = U.nev > ev + 1 or U.nrep > T.nrep
        # the record of the iterate
        c.eq('objective value of the iterate', U.f, B.pts[b][1])
        if r.me:
            c.eq('constraint values of the iterate', U.ce[:, 0], B.pts[b][2])
        c.le('merit function never increases along the iterates', m2, m0)
        tol = 1e-7
        if b == it and not improved:
            c.cover('moved')
            c.check('moved only with sufficient decrease of the merit function',
                    (pred > 0) & (T.rpred >= 0) & (ared >= ETA1 * pred - tol))
            if r.ns:
                z = B.pts[it][2][r.me - 1]
                ok = (U.sl[0, 0] == T.slp0[0, 0]) | ((T.slp0[0, 0] == 0) & (z > 0.01) & (abs(U.sl[0, 0] * U.sl[0, 0] - z) <= 1e-6))
                c.check('slack of the new iterate', ok & (U.sl[0, 0] >= 0))
        elif not improved:
            c.cover('not moved')
            c.check('the iterate stays when the step is rejected', b == a)
            if r.ns:
                c.eq('slack unchanged when the step is rejected', U.sl, T.sl)
            # a good step whose point could be included in the sample set is never thrown away
            if not (U.ninc > T.ninc and r.inc[T.ninc].pos == -1):
                c.check('a step with sufficient decrease is not thrown away',
                        (pred <= tol) | (T.rpred < 0) | (ared <= ETA1 * pred + tol))
        else:
            c.cover('sample set improved')
    # the last model was fitted to aligned data with the iterate first
    if r.fit:
        Y, rhs = r.fit[-1]
        c.check('one value per sample point in the fit', rhs.shape == (1 + r.me, Y.shape[1]))
        c.eq('model is centred at the iterate', Y[:, [0]], r.tr[-1].x)
        for j in range(Y.shape[1]):
            i = B.which(Y[:, j])
            c.check('every sample point was evaluated', i is not None)
            c.eq('fitted objective value belongs to its point', rhs[0, j], B.pts[i][1])
            for q in range(r.me):
                c.eq('fitted constraint value belongs to its point', rhs[1 + q, j], B.pts[i][2][q])


def cases(tier):
    out = []
    for degree in ('linear', 'diagonal'):
        for me, ns, rp in ((0, 0, 'zero'), (1, 0, 'pos'), (1, 0, 'zero'), (1, 0, 'neg'), (1, 1, 'pos'), (1, 1, 'neg'), (1, 1, 'zero')):
            cv = (2.0, -2.0) if me == 0 or tier == 'thorough' else (2.0,) if degree == 'linear' else (-2.0,)
            fx = dict(slfix=1.0, gfix=-1.5) if rp == 'pos' and ns and tier != 'thorough' else {}
            for curv in cv:
                out.append(('iteration', dict(p=2, me=me, ns=ns, degree=degree, rp=rp, curv=curv, repl=(0,), **fx), {}))
    for me, ns, rp in ((0, 0, 'zero'), (1, 0, 'pos'), (1, 0, 'neg')):
        out.append(('iteration', dict(p=3, me=me, ns=ns, degree='diagonal', rp=rp, repl=(1,)), {}))
    out.append(('iteration', dict(p=3, n=2, me=0, ns=0, degree='linear', rp='zero', repl=(0, 2)), {}))
    for h in HIST:
        for me, ns in ((0, 0), (1, 0), (1, 1)):
            for degree in ('linear', 'diagonal'):
                if tier != 'thorough' and ((degree == 'linear') != (h in ('good', 'bad', 'badgood')) or h == 'zero' and not ns or h == 'rejimpr' and ns):
                    continue
                rp = 'pos' if me else 'zero'
                out.append(('iteration', dict(p=2, me=me, ns=ns, degree=degree, rp=rp, hist=h, steps=len(HIST[h]) + 1, gfix=1.0,
                                              repl=(0,) if h != 'rejimpr' else (1,), **(dict(slfix=1.0) if ns else {}),
                                              **(dict(last=(-0.75, 0.75)) if me and tier != 'thorough' else {})), {}))
    if tier == 'thorough':
        for degree in ('linear', 'diagonal'):
            out.append(('iteration', dict(p=2, me=0, ns=0, degree=degree, rp='zero', steps=2, repl=(0,)), dict(budget_s=800)))
        out.append(('iteration', dict(p=2, me=2, ns=1, degree='linear', rp='pos', repl=(0,)), dict(budget_s=800)))
    return out
