"""Iteration and evaluation limits, and the counters."""
from . import mainloop
from .G03 import HIST
import numpy as np

BOUNDS = ('up to two full iterations of the main loop, n=1, 2 sample points growing to 3, 0-1 constraint; any counters and limits in '
          '[0,30]; any values as for the main loop')
ASSUMPTIONS = mainloop.CONTRACT


def limits(c):
    k = c.case
    n0, s0 = c.int_('niter', 0, 30), c.int_('nsimul', 0, 30)
    miter, msimul = c.int_('miter', 0, 30), c.int_('msimul', 0, 30)
    r = mainloop.start(c, n=1, p=k['p'], me=k['me'], ns=k.get('ns', 0), degree=k['degree'], rp='pos' if k['me'] else 'zero', steps=k['steps'], niter0=n0,
                       nsimul0=s0, miter=miter, msimul=msimul, repl=(k['p'] - 1,), hist=HIST[k['hist']] if 'hist' in k else (), gfix=1.0,
                       slfix=1.0 if k.get('ns') else None,
                       last=(-0.5, 0.75), nfixed=k.get('fx', 0)).go()
    ne = len(r.evals)
    for t, T in enumerate(r.tr):
        # a step is computed only while both budgets last
        c.check('iteration limit respected', T.niter <= miter + 1)
        c.check('evaluation limit respected when an iteration begins',
                s0 + T.nev - (T.nev - (r.tr[t - 1].nev + 1) if t else 0) < msimul)
        c.check('iteration limit respected when an iteration begins', T.niter - (2 if T.nrep > (r.tr[t - 1].nrep if t else 0) else 1) < miter)
    if r.stopped:
        c.cover('goes on')
        for t in range(r.steps):
            c.check('every iteration evaluates its trial point', r.tr[t + 1].nev > r.tr[t].nev)
        return
    i = r.info
    c.eq('evaluation counter is exact', i.nsimul[1], s0 + ne)
    c.check('one of the expected flags', i.flag in (5, 6, 15))
    nimp = len(r.rep)
    if i.flag == 5:
        c.cover('iteration limit')
        c.check('stopped for the iteration limit only when it is reached', i.niter >= miter)
    elif i.flag == 6:
        c.cover('evaluation limit')
        c.check('stopped for the evaluation limit only when it is reached', (i.nsimul[1] >= msimul) & (i.niter < miter))
    c.eq('iteration counter is exact', i.niter, n0 + len(r.tr) + nimp)
    # the run went on as long as both budgets lasted
    if not r.tr and i.flag in (5, 6):
        c.check('no evaluation after the limit', ne == 0)
    if r.tr and i.flag in (5, 6):
        c.check('the last iteration ends with its own evaluation', ne == r.tr[-1].nev + 1)


def cases(tier):
    out = []
    for degree in ('linear', 'diagonal'):
        out.append(('limits', dict(p=2, me=0, ns=0, degree=degree, steps=1 if tier == 'quick' else 2, fx=1), {}))
        out.append(('limits', dict(p=2, me=0, ns=0, degree=degree, steps=2), {}))
        for h in HIST:
            for me, ns in ((1, 0), (1, 1)):
                if tier == 'thorough' or len(HIST[h]) == 2 or h in ('pen', 'bad'):
                    # all steps fixed but the last
                    more = 1 if tier == 'thorough' and len(HIST[h]) == 1 else 0
                    out.append(('limits', dict(p=2, me=me, ns=ns, degree=degree, steps=len(HIST[h]) + more, hist=h), {}))
        if tier == 'thorough':
            out.append(('limits', dict(p=2, me=0, ns=0, degree=degree, steps=3), dict(budget_s=800)))
            out.append(('limits', dict(p=2, me=1, ns=0, degree=degree, steps=2), dict(budget_s=800)))
    return out
