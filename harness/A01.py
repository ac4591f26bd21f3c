"""Calls that cannot be served are refused before anything is evaluated; all others reach the main loop."""
from . import front
from .common import Struct
import numpy as np

BOUNDS = ('n<=3, any bounds in [-100,100] or absent, 0-2 constraints; every combination of missing arguments; wrong shapes of the '
          'starting point')
ASSUMPTIONS = front.CONTRACT


def refused(c, r, flag, ne=0):
    c.check('flag of the refusal', r.info.flag == flag)
    c.check('main loop not entered', not r.main)
    c.check('nothing evaluated', len(r.evals) == ne)


def missing(c):
    k = c.case
    n = 2
    r = front.Rec()
    front.install(c, r)
    me, mi = c.choice('me', [None, 0, 1]), c.choice('mi', [None, 0, 1])
    hf, hx, hc = c.choice('f', [0, 1]), c.choice('x', [0, 1]), c.choice('c', [0, 1])
    nc = (me or 0) + (mi or 0)
    f, cf = front.users(c, r, nc)
    front.call(c, r, Struct(verbose=0), f if hf else None, c.mat('x0', 1, n, -10, 10) if hx else None, None, None, me, mi,
               cf if hc and nc else None)
    if not hf or not hx or (nc and not hc):
        c.cover('refused')
        refused(c, r, 1)
        c.check('no solution returned', len(np.asarray(r.x).ravel()) == 0)
    else:
        c.cover('served')
        c.check('served', len(r.main) == 1 and r.info.flag == 0)
        c.check('number of equality rows', r.main[0].me == nc)


def bounds(c):
    n, me, mi = c.case['n'], c.case.get('me', 0), c.case.get('mi', 0)
    r = front.Rec()
    front.install(c, r)
    x0 = c.mat('x0', 1, n, -100, 100)
    lb = c.col('lb', n, -100, 100)
    ub = c.col('ub', n, -100, 100)
    f, cf = front.users(c, r, me + mi)
    front.call(c, r, Struct(verbose=0), f, x0, lb, ub, me, mi, *([cf] if me + mi else []))
    bad, fixed = False, 0
    for i in range(n):
        bad = bad or bool(lb[i, 0] > ub[i, 0])
        fixed += 1 if bool(lb[i, 0] == ub[i, 0]) else 0
    if bad or fixed == n:
        c.cover('inconsistent bounds')
        refused(c, r, 2)
    else:
        c.cover('served')
        c.check('served', len(r.main) == 1 and r.info.flag == 0)
        c.check('number of free variables', r.main[0].n == n - fixed)


def shape(c):
    """starting points that are not vectors"""
    a, b = c.case['shape']
    r = front.Rec()
    front.install(c, r)
    f, cf = front.users(c, r, 0)
    x0 = c.mat('x0', a, b, -100, 100) if a and b else c.array(np.zeros((a, b)))
    front.call(c, r, Struct(verbose=0), f, x0, None, None)
    refused(c, r, 1)
    c.cover('refused')


def form(c):
    """starting points and bounds given as lists or arrays, row or column, mean the same"""
    k = c.case
    n = k['n']
    vals = [c.real('x%d' % i, -5, 5) for i in range(n)]
    lo = [c.real('l%d' % i, -50, -7) for i in range(n)]
    up = [c.real('u%d' % i, 7, 50) for i in range(n)]
    r = front.Rec()
    front.install(c, r)
    f, cf = front.users(c, r, k['nc'])
    x0 = dict(list=list(vals), row=c.array([vals]), col=c.array([[v] for v in vals]))[k['x0']]
    lb, ub = (list(lo), list(up)) if k['b'] == 'list' else (c.array([[v] for v in lo]), c.array([[v] for v in up]))
    front.call(c, r, Struct(verbose=0), f, x0, lb, ub, k['nc'], 0, *([cf] if k['nc'] else []))
    c.check('served', len(r.main) == 1)
    M = r.main[0]
    for i in range(n):
        c.eq('first point is the starting point', r.evals[0].x[i], vals[i])
        c.eq('lower bounds', M.lb[i, 0], lo[i])
        c.eq('upper bounds', M.ub[i, 0], up[i])
    c.cover('done')


def cases(tier):
    out = [('missing', dict(), {})]
    for n in (1, 2, 3):
        out.append(('bounds', dict(n=n), {}))
    out.append(('bounds', dict(n=2, me=1, mi=1), {}))
    for s in ((2, 2), (2, 3), (3, 2)):
        out.append(('shape', dict(shape=s), {}))
    for n in (1, 2, 3):
        for x0 in ('list', 'row', 'col'):
            for b in ('list', 'col'):
                out.append(('form', dict(n=n, x0=x0, b=b, nc=n - 1), {}))
    return out
