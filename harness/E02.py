"""A failing user function ends the run at once, with its flag."""
from . import front, mainloop
from .common import Struct
import numpy as np

BOUNDS = ('failures (exceptions of the objective or of the constraints, NaN, infinities) at any of the first evaluations (n<=2) or at any '
          'evaluation of up to two main-loop iterations (trial point or geometry improvement), 0-2 constraints')
ASSUMPTIONS = front.CONTRACT + mainloop.CONTRACT


def first(c):
    k = c.case
    n, m, kind = k['n'], k['m'], k['kind']
    r = front.Rec()
    front.install(c, r)
    at = c.choice('at', list(range(n + 1)))
    bad = dict(nan=float('nan'), inf=float('inf'), ninf=float('-inf'))
    evals = r.evals = []

    def f(x):
        q = len(evals)
        evals.append(q)
        if q == at:
            if kind == 'exc':
                raise k.get('cls', ValueError)('objective fails')
            if kind in bad:
                return bad[kind]
        return c.real('F%d' % q, -10, 10)

    def cf(x):
        q = len(evals) - 1
        if q == at and kind == 'cexc':
            raise ArithmeticError('constraint fails')
        v = [c.real('C%d_%d' % (q, i), -10, 10) for i in range(m)]
        if q == at and kind == 'cnan':
            v[c.choice('row', list(range(m)))] = float('nan')
        return v
    front.call(c, r, Struct(verbose=0), f, c.mat('x0', 1, n, -5, 5), None, None, k.get('me', m), m - k.get('me', m), *([cf] if m else []))
    c.check('failure flag', r.info.flag == 3)
    c.check('nothing evaluated after the failure', len(evals) == at + 1)
    c.check('main loop not entered', not r.main)
    c.eq('evaluation counter', r.info.nsimul[1], float(at + 1))
    c.cover('failed')


def later(c):
    k = c.case
    kind, me = k['kind'], k['me']
    r = mainloop.start(c, n=1, p=2, me=me, ns=k.get('ns', 0), degree=k['degree'], rp=k.get('rp', 'pos' if me else 'zero'), steps=k.get('steps', 1),
                       repl=(1,), slfix=1.0 if k.get('ns') else None, gfix=k.get('g', 1.0), last=(k.get('s', -0.5), 0.75),
                       fails=kind).go()
    failed = [i for i, e in enumerate(r.evals) if not e.ok]
    c.check('nothing evaluated after a failure', not failed or failed == [len(r.evals) - 1])
    if not failed:
        c.check('failure flag only after a failure', r.stopped or r.info.flag != 3)
        return
    c.cover('failed')
    c.check('the run ends after a failure', not r.stopped)
    c.check('failure flag', r.info.flag == 3)
    c.eq('evaluation counter', r.info.nsimul[1], float(len(r.evals) + r.p))
    # the best point so far is returned with its value
    x = np.asarray(r.x).ravel()
    pts = [(list(r.X0[:, j]), r.f0[j]) for j in range(r.p)] + [(e.x, e.f) for e in r.evals if e.ok]
    hit = False
    for px, pf in pts:
        hit = hit | ((abs(x[0] - px[0]) <= 1e-9) & (abs(r.info.f - pf) <= 1e-9))
    c.check('an evaluated point is returned with its own value', hit)


def cases(tier):
    out = []
    for n in (1, 2):
        for m in (0, 1, 2):
            for kind in ('exc', 'nan', 'inf', 'ninf') + (('cexc', 'cnan') if m else ()):
                out.append(('first', dict(n=n, m=m, kind=kind), {}))
        out.append(('first', dict(n=n, m=1, me=0, kind='cnan'), {}))
    for degree in ('linear', 'diagonal'):
        for kind in ('exc', 'nan', 'inf', 'ninf'):
            for s in (-0.5, 0.5):
                out.append(('later', dict(me=0, degree=degree, kind=kind, s=s), {}))
        for kind in ('exc', 'cexc', 'cnan', 'nan', 'inf'):
            for ns in (0, 1):
                out.append(('later', dict(me=1, ns=ns, degree=degree, kind=kind), {}))
                out.append(('later', dict(me=1, ns=ns, degree=degree, kind=kind, rp='neg'), {}))
    if tier == 'thorough':
        for degree in ('linear', 'diagonal'):
            out.append(('later', dict(me=0, degree=degree, kind='exc', steps=2), {}))
    return out
