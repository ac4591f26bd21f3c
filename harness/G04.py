"""Trust-region radius from one step computation to the next."""
from . import mainloop
from .G03 import Book, ETA1
import numpy as np

BOUNDS = ('one iteration of the main loop, n=1 (n=2 without constraints), 2-3 sample points, 0-1 constraint and 0-1 slack; radius any '
          'value in [1e-12,2e5] (quick: without constraints) or 1; any step in [-3,3], values in [-10,10], gradients in [-5,5]')
ASSUMPTIONS = mainloop.CONTRACT + ['trial points and replaced sample points are at least 1e-3 away from all other evaluated points']
ETA2, DMAX = 0.9, 1e5


def radius(c):
    k = c.case
    d0 = c.real('delta', *k['delta']) if isinstance(k['delta'], list) else k['delta']
    r = mainloop.start(c, n=k.get('n', 1), p=k['p'], me=k['me'], ns=k['ns'], degree=k['degree'], rp=k['rp'], curv=k.get('curv', 2.0),
                       steps=1, repl=k.get('repl', (0, 1)), slfix=1.0 if k['ns'] else None, gfix=k.get('gfix'), activ=True, delta=d0,
                       last=k.get('last'), smax=k.get('smax', 3), wide=k.get('wide', 10)).go()
    B = Book(c, r)
    T = r.tr[0] if r.tr else None
    for q in r.rep:
        c.check('improvement radius is positive and not larger than needed', (q.radius > 0) & ((q.radius <= 1e-5) | (q.radius <= d0)))
    if r.stopped or (T and r.info.flag == 15):
        if r.rep and r.rep[0].ntr == 0:
            c.eq('radius after an improvement is that of the improved set', T.delta, r.rep[0].radius)
        else:
            c.eq('first radius is the initial one', T.delta, d0)
    if not r.stopped:
        c.check('stops early only with a small trust region', r.info.flag == 15)
        return
    U = r.tr[1]
    c.check('radius stays positive', U.delta > 0)
    if U.nrep > T.nrep:
        c.cover('improvement')
        c.eq('radius after an improvement is that of the improved set', U.delta, r.rep[-1].radius)
        return
    d, e = T.delta, U.delta
    s = np.asarray(T.s).ravel()
    norms = r.norm(np.concatenate((s, np.asarray(T.slp0 - T.sl).ravel()))) if r.ns else r.norm(s)
    q = 0.0
    for i in range(r.n):
        q = q + T.g[i, 0] * s[i] + 0.5 * (T.M[i, i] * (s[i] * s[i]))
    sigma = 1.0
    if k['rp'] != 'zero':
        sb = q / ((1 - 0.3) * T.rpred)
        if bool(sigma < sb):
            sigma = sb if bool(sb >= 1.5 * sigma) else 1.5 * sigma
    a, it = B.which(T.x), r.p + T.nev

    def merit(i, sl):
        return B.pts[i][1] + sigma * mainloop.resid(r, B.pts[i][2], sl)
    pred = -q + sigma * T.rpred
    ared = merit(a, T.sl) - merit(it, T.slp0)
    b = B.which(U.x)
    tol = 1e-9
    if b == it:
        first = not (U.ninc > T.ninc and r.inc[T.ninc].pos == -1)
        c.check('radius does not shrink after a successful step (but to the maximum)', (e >= d - tol) | (e >= DMAX))
        c.check('growth is bounded', (e <= 5 * d + tol) | (e <= 2 * norms + tol))
        if T.active and first:
            c.cover('active')
            c.check('radius grows by 2 at least after a successful step on the boundary', (e >= 2 * d - tol) | (d >= 5 - tol))
            c.check('moderately successful step: factor 2', (ared >= ETA2 * pred - 1e-7) | (e <= 2 * d + tol))
        elif first:
            c.cover('inactive')
            c.check('never beyond the maximum radius', (e <= DMAX + tol) | (e <= d + tol))
            c.check('radius tied to twice the step', (e <= d + tol) | (e <= 2 * norms + tol))
    else:
        c.cover('not moved')
        c.check('radius never grows after a rejected step', e <= d + tol)
        inter = not (U.ninc > T.ninc and any(x.pos >= 0 for x in r.inc[T.ninc:]))
        if k['p'] >= (2 if k['degree'] == 'linear' else 3) and inter:
            c.check('radius at most half after a rejected step', e <= 0.5 * d + tol)
            c.check('radius at most half the step after a rejected step', e <= 0.5 * norms + tol)
            c.check('radius not below a hundredth', (e >= 0.01 * d - tol) | (e >= 0.01 * norms - tol))
        else:
            c.check('radius halved or kept at tiny radii', (e <= 0.5 * d + tol) | (d <= 1e-5))


def cases(tier):
    out = []
    for degree in ('linear', 'diagonal'):
        for delta in ([1e-12, 1e-3], [1e-3, 1e3], [1e3, 2e5], 1.0):
            out.append(('radius', dict(p=2, me=0, ns=0, degree=degree, rp='zero', delta=delta), {}))
        out.append(('radius', dict(p=2, me=0, ns=0, degree=degree, rp='zero', delta=[1e3, 2e5], smax=2e5, gfix=-1e5, wide=1e11), {}))
        for rp in ('pos', 'zero', 'neg'):
            for delta in (1.0, 1e-6) + ((8.0, 8e4) if tier == 'thorough' else ()):
                for ns in (0, 1):
                    out.append(('radius', dict(p=2, me=1, ns=ns, degree=degree, rp=rp, delta=delta, gfix=-1.5, repl=(0,),
                                               **(dict(last=(0.5, 0.75)) if ns and tier != 'thorough' else {})), {}))
    out.append(('radius', dict(p=3, me=0, ns=0, degree='diagonal', rp='zero', delta=[1e-3, 1e2], repl=(0,)), {}))
    out.append(('radius', dict(p=3, n=2, me=0, ns=0, degree='linear', rp='zero', delta=1.0, repl=(0,), gfix=-1.5, last=(0.75, 0)), {}))
    return out
