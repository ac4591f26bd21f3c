"""Inequalities are served through slack variables."""
from . import front
from .common import Struct
import numpy as np

BOUNDS = ('n<=2, 0-2 equalities and 1-3 inequalities, constraint values in [-10,10], variable bounds in [-100,100], limits li/ui absent or '
          'any reals in [-1e9,1e9]')
ASSUMPTIONS = front.CONTRACT


def slacks(c):
    k = c.case
    n, me, mi = k['n'], k['me'], k['mi']
    r = front.Rec()
    front.install(c, r)
    two = 0
    extra = []
    if k.get('limits'):
        li = c.vec('li', me + mi, -1e9, 1e9)
        ui = c.vec('ui', me + mi, -1e9, 1e9)
        L, U = li.copy(), ui.copy()
        for i in range(me):
            c.assume((li[i] == 0) & (ui[i] == 0))
        for i in range(me, me + mi):
            two += 1 if bool((li[i] < ui[i]) & (li[i] > -1e7) & (ui[i] < 1e7)) else 0
        extra = [li, ui]
    f, cf = front.users(c, r, me + mi + two)
    x0 = c.mat('x0', 1, n, -100, 100)
    lb = ub = None
    if k.get('bounds'):
        lb, ub = c.col('lb', n, -100, 0), c.col('ub', n, 1, 100)
    front.call(c, r, Struct(verbose=0), f, x0, None if lb is None else lb.copy(), None if ub is None else ub.copy(), me, mi, cf, *extra)
    c.check('served', len(r.main) == 1)
    M = r.main[0]
    m = mi + two
    c.check('one slack per one-sided inequality', M.ns == m)
    c.check('every constraint becomes an equality of the main loop', M.me == me + m and M.mi == 0)
    c.check('bounds of the slacks appended', M.lb.shape[0] == n + m and M.ub.shape[0] == n + m)
    for i in range(n):
        c.eq('lower bounds of the variables', M.lb[i, 0], -1e20 if lb is None else lb[i, 0])
        c.eq('upper bounds of the variables', M.ub[i, 0], 1e20 if ub is None else ub[i, 0])
    c.check('one starting slack per inequality', M.sl.shape == (m, 1))
    for i in range(m):
        c.eq('slacks are nonnegative', M.lb[n + i, 0], 0.0)
        c.check('slacks are unbounded above', M.ub[n + i, 0] >= 1e20)
        v = r.evals[0].c[me + i]
        s = M.sl[i, 0]
        c.check('starting slack nonnegative', s >= 0)
        # the residual c-s^2 is then exactly the violation of c>=0
        c.near('starting slack cancels the satisfied part', s * s, v if bool(v > 0) else 0.0, 1e-6)
    for i in range(me + m):
        c.eq('constraint values as the user returned them', M.info.ce[i, 0], r.evals[0].c[i])
        for j in range(n + 1):
            c.eq('recorded constraint values as the user returned them', M.ceX[i, j], r.evals[j].c[i])
    c.cover('done')


def none(c):
    """without inequalities there are no slacks"""
    n, me = 2, c.case['me']
    r = front.Rec()
    front.install(c, r)
    f, cf = front.users(c, r, me)
    front.call(c, r, Struct(verbose=0), f, c.mat('x0', 1, n, -100, 100), None, None, me, c.choice('mi', [0, None]), *([cf] if me else []))
    M = r.main[0]
    c.check('no slacks', M.ns == 0 and M.lb.shape[0] == n and M.me == me)
    c.cover('done')


def cases(tier):
    out = []
    for me, mi in ((0, 1), (1, 1), (0, 2), (1, 2), (2, 1)) + (((0, 3), (2, 3)) if tier == 'thorough' else ()):
        for n in (1, 2):
            for b in (0, 1):
                out.append(('slacks', dict(n=n, me=me, mi=mi, bounds=b), {}))
        out.append(('slacks', dict(n=1, me=me, mi=mi, limits=1), {}))
    for me in (0, 1):
        out.append(('none', dict(me=me), {}))
    return out
