"""A run depends on its arguments only, not on earlier runs."""
from . import front
from .common import Struct
import numpy as np

BOUNDS = ('whatever an earlier run left behind: 0-2 slacks with any values, other user functions, any number of earlier slacks; '
          'then the start of a run with n=1,2, 0-2 constraints')
ASSUMPTIONS = front.CONTRACT


def dirty(c, glob, ns):
    """state left behind by another run"""
    def other(x):
        raise RuntimeError('function of an earlier run called')
    glob.set_nbr_slacks(ns)
    glob.set_slacks(c.col('old', ns, 0, 5) if ns else None)
    glob.set_filename_f(other)
    glob.set_filename_cons(other)
    glob.set_simul_not_initialized(c.choice('notinit', [0, 1]))
    glob.set_fileoutput(1)


def clean(glob):
    glob.set_nbr_slacks(0)
    glob.set_slacks(None)
    glob.set_filename_cons('')
    glob.set_simul_not_initialized(1)


FIELDS = 'n nb mi me m ind_Y delta cur_degree rep_degree plin pdiag pquad i_xbest xstatus sstatus dstatus normgx whichmodel shift_Y M lm'.split()


def after(c):
    k = c.case
    n, me, mi = k['n'], k['me'], k['mi']
    m = me + mi
    x0 = [c.real('x%d' % i, -5, 5) for i in range(n)]
    F = [c.real('F%d' % j, -10, 10) for j in range(n + 1)]
    C = [[c.real('C%d_%d' % (j, i), -10, 10) for i in range(m)] for j in range(n + 1)]
    opt = Struct(verbose=0, miter=50)
    keep = dict(opt.__dict__)
    runs = []
    for first in (1, 0):
        r = front.Rec()
        front.install(c, r)
        if first:
            clean(r.glob)
        elif k.get('real'):
            # a real earlier run with inequalities
            q = front.Rec()
            front.install(c, q)
            f, cf = front.users(c, q, k['ns'], tag='old')
            front.call(c, q, opt, f, c.mat('oldx', 1, 2, -5, 5), None, None, 0, k['ns'], cf)
            c.check('earlier run served', len(q.main) == 1)
            front.install(c, r)
        else:
            dirty(c, r.glob, k['ns'])
        f, cf = front.users(c, r, m, fvals=lambda q: F[q], cvals=lambda q, i: C[q][i])
        front.call(c, r, opt, f, c.array([x0]), None, None, me, mi, *([cf] if m else []))
        runs.append(r)
    a, b = runs
    c.check('both runs start', len(a.main) == 1 and len(b.main) == 1)
    A, B = a.main[0], b.main[0]
    c.check('options unchanged by the runs', opt.__dict__ == keep)
    c.check('same number of evaluations', len(a.evals) == len(b.evals))
    for e, g in zip(a.evals, b.evals):
        c.eq('same points', c.array(e.x), c.array(g.x))
        c.check('constraints evaluated alike', (e.cx is None) == (g.cx is None))
    for nm in FIELDS:
        u, v = getattr(A, nm), getattr(B, nm)
        c.eq('same state: ' + nm, c.array(np.asarray(u)) if not np.isscalar(u) else u, c.array(np.asarray(v)) if not np.isscalar(v) else v)
    for nm in ('X', 'fX', 'ceX', 'lb', 'ub'):
        u, v = getattr(A, nm), getattr(B, nm)
        c.check('same size: ' + nm, u.shape == v.shape)
        if u.size:
            c.eq('same record: ' + nm, u, v)
    c.check('same number of slacks', A.ns == B.ns)
    if A.ns:
        c.eq('same slacks', A.sl, B.sl)
    c.eq('same value reported', a.info.f, b.info.f)
    c.eq('same counters reported', a.info.nsimul, b.info.nsimul)
    c.eq('same point returned', c.array(a.x), c.array(b.x))
    c.cover('done')


def cases(tier):
    out = []
    for n in (1, 2):
        for me, mi in ((0, 0), (1, 0), (0, 1), (1, 1)) + (((0, 2), (2, 0)) if tier == 'thorough' or n == 1 else ()):
            for ns in (0, 1, 2):
                out.append(('after', dict(n=n, me=me, mi=mi, ns=ns), {}))
            out.append(('after', dict(n=n, me=me, mi=mi, ns=1, real=1), {}))
    return out
