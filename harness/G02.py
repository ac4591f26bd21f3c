"""What a successful end of the run (flag 0) means."""
from . import mainloop
from .G03 import HIST
import numpy as np

BOUNDS = ('one iteration of the main loop, n<=2, 2 or 3 sample points, 0-2 constraints; any residuals, poisedness, radius, gradients and '
          'values in the boxes, any of three tolerance settings')
ASSUMPTIONS = mainloop.CONTRACT + ['multipliers and residuals at a point are arbitrary']
CV = 100.0


def close(c, label, a, b):
    c.eq(label, a, b)


def success(c):
    k = c.case
    n, me, p = k['n'], k['me'], k['p']
    tg, tf, tb = tol = k.get('tol', (1e-5, 1e-5, 1e-5))
    r = mainloop.start(c, n=n, p=p, me=me, ns=k.get('ns', 0), degree=k['degree'], rp=k.get('rp', 'zero'), steps=k.get('steps', 0), conv=True, hist=HIST[k['hist']] if 'hist' in k else (), gconv=k.get('steps', 0),
                       tols=tol, repl=k.get('repl', (0, p - 1)), slfix=1.0 if k.get('ns') else None, gfix=k.get('gfix', 1.0),
                       delta=k.get('delta', 1.0), last=k.get('last')).go()
    R = r.resid
    first = R[0]
    ok1 = (first.gl <= tg) & (first.fe <= tf) & (first.cb <= tb)
    imp = len(r.rep) > 0
    # all multipliers were computed at the point, and with the bounds active there, that the residuals belong to
    for e in R:
        own = [q for q in r.mult if q.lm is e.lm]
        c.check('residuals use the multipliers computed for them', len(own) == 1)
        close(c, 'multipliers and residuals belong to the same point', own[0].x, e.x)
    close(c, 'residuals at the start of the iteration belong to the iterate', first.x, r.X0[:, [0]])
    if not r.stopped and r.info.flag == 0:
        last = R[-1]
        x = np.asarray(r.x).reshape(-1, 1)
        close(c, 'residuals belong to the returned point', last.x, x)
        close(c, 'returned multipliers are those of the residuals', r.lm, last.lm)
        if not (imp and r.rep[-1].ntr == len(r.tr)):
            ok1 = (last.gl <= tg) & (last.fe <= tf) & (last.cb <= tb)
            c.cover('converged at once')
            po = r.poised[-1]
            c.check('success without improvement: residuals within the tolerances', ok1)
            c.check('success without improvement: sample set poised', po[0] * po[1] / CV <= 1e-5)
            c.check('nothing evaluated after the test', last.nev == len(r.evals))
        else:
            c.cover('converged after an improvement')
            po = r.rep[-1].v
            c.check('success after an improvement: residuals within 100 times the tolerances',
                    (last.gl <= CV * tg + 1e-12) & (last.fe <= CV * tf + 1e-12) & (last.cb <= CV * tb + 1e-12))
            c.check('success after an improvement: sample set poised', po[0] * po[1] / CV <= 1e-5 + 1e-12)
            c.eq('derivatives used at the end are those of the last model', last.g, r.info.g)
        return
    if not r.stopped:
        c.check('otherwise stops early only with a small trust region', r.info.flag == 15)
    # no success claimed: either a residual was too large or the set was not poised
    if not r.tr and not imp or k.get('steps'):
        return
    po = r.poised[0] if r.poised else None
    if not imp:
        c.cover('plain step')
        c.check('a converged iterate is never left without testing the sample set', (not r.tr) | (ok1 == False))  # noqa: E712
    elif po is not None:
        c.cover('improved')
        c.check('improvement only when not converged', (ok1 == False) | (po[0] * po[1] / CV > 1e-5 - 1e-12))  # noqa: E712
        c.check('improvement only when residuals are small', ok1 | (len(R) == 0))
        if r.tr and len(R) > 1 and r.tr[0].nrep:
            # went on with a step: the improved set did not satisfy the relaxed test
            v, e = r.rep[0].v, R[1]
            c.check('the run ends when the improved set confirms convergence',
                    (e.gl > CV * tg - 1e-12) | (e.fe > CV * tf - 1e-12) | (e.cb > CV * tb - 1e-12) | (v[0] * v[1] / CV > 1e-5 - 1e-12))


def cases(tier):
    out = []
    for degree in ('linear', 'diagonal'):
        for me, ns in ((0, 0), (1, 0), (1, 1), (2, 1)):
            for tol in ((1e-5, 1e-5, 1e-5), (1e-3, 1e-4, 1e-2), (1e-7, 1e-2, 1e-4)):
                if tier != 'thorough' and tol[0] != 1e-5 and (me, ns) in ((1, 0), (2, 1)):
                    continue
                out.append(('success', dict(n=1, p=2, me=me, ns=ns, degree=degree, rp='pos' if me else 'zero', tol=tol), {}))
        for h in HIST:
            for me, ns in ((0, 0), (1, 0), (1, 1)):
                if tier == 'thorough' or me and len(HIST[h]) == 1:
                    out.append(('success', dict(n=1, p=2, me=me, ns=ns, degree=degree, rp='pos' if me else 'zero', hist=h,
                                                repl=(0, 1) if h != 'rejimpr' else (1,), steps=len(HIST[h])), {}))
    out.append(('success', dict(n=2, p=3, me=0, degree='linear'), {}))
    out.append(('success', dict(n=2, p=3, me=1, degree='linear', rp='pos', tol=(1e-5, 1e-3, 1e-5)), {}))
    return out
