"""Trust-region step with bounds: the step respects bounds and radius; length and model value reported belong to it."""
import itertools

import numpy as np
from harness.common import Struct

BOUNDS = ('n=1: any curvature, gradient, radius in [0.01,10] and bounds around zero; n=2: concrete Hessians (definite, indefinite, singular), any '
          'gradient and bounds, radius fixed; present and infinite bounds; both strategies for the shift; up to 2 factorisations while the step is brought inside '
          'the bounds (thorough 3) and any number of rounds')
ASSUMPTIONS = ['the unconstrained trust-region solver answers with any step satisfying its own guarantee (shifted system, length, sign of the shift)',
               'runs that need more factorisations than stated are outside']
EB = 1e-5
MATS = {
    'pd': [[2.0, 0.5], [0.5, 1.0]], 'id': [[1.0, 0.0], [0.0, 1.0]], 'indef': [[1.0, 2.0], [2.0, -2.0]],
    'nd': [[-1.0, 0.0], [0.0, -2.0]], 'sing': [[1.0, 1.0], [1.0, 1.0]], 'zero': [[0.0, 0.0], [0.0, 0.0]], 'dg': [[4.0, 0.0], [0.0, 0.5]],
}


def standin(c):
    """the trust-region solver: the exact answer for one variable, any step in the radius for two"""
    calls = []

    def ms(g, H, Delta, eps_D, nargout=None):
        n, q = len(g), len(calls)
        calls.append((g.copy(), H.copy(), Delta))
        hard = 0
        if bool((g.T.dot(g))[0, 0] < 1e-12):
            s, lam = 0 * g, 0
        elif c.case['n'] == 1:
            h, a = H[0, 0], g[0, 0]
            if h > 0 and bool((a <= h * Delta) & (a >= -h * Delta)):
                s, lam = -g / h, 0
            elif bool(a > 0):
                s, lam = c.array([[-Delta]]), a / Delta - h
            else:
                s, lam = c.array([[Delta]]), -a / Delta - h
        else:
            s = c.col('s%d' % q, n, -5, 5)
            lam = c.choice('lam%d' % q, [0.0, 0.75] if c.case.get('lams') else [0.75])
            hard = c.choice('hard%d' % q, [0, 1]) if c.case.get('hard') else 0
            d = Delta * (1 + eps_D)
            if c.case.get('box'):
                for i in range(n):
                    c.assume((s[i, 0] <= d) & (s[i, 0] >= -d))
            else:
                c.assume((s.T.dot(s))[0, 0] <= d * d)
        calls[-1] += (s.copy(),)
        return s, lam, None, (g.T.dot(s) + 0.5 * s.T.dot(H.dot(s)))[0, 0], g + H.dot(s), 1, 0, 'boundary solution', hard
    c.stub('bcdfo_solve_TR_MS_bc', 'bcdfo_solve_TR_MS_', ms)
    return calls


def step(c):
    k = c.case
    n, K, eps = k['n'], k.get('K', 2), 1e-7
    H = c.array([[k['h']]]) if n == 1 else c.array(MATS[k['kind']])
    g = c.col('g', n, -10, 10)
    lb = c.array([[0.0 if k['b'][i] == 'z' else c.real('l%d' % i, -10, 0) if k['b'][i] in 'lb' else -0.5 if k['b'][i] in 'LB' else -1e20] for i in range(n)])
    ub = c.array([[0.0 if k['b'][i] == 'Z' else c.real('u%d' % i, 0, 10) if k['b'][i] in 'ubB' else 0.25 if k['b'][i] == 'U' else 1e20] for i in range(n)])
    delta = k['delta']
    M = c.mod('bcdfo_solve_TR_MS_bc')
    calls = standin(c)
    chol, cnt = M.chol_, []

    def factor(A, nargout=2):
        cnt.append(1)
        if k.get('never'):
            return c.array([]), 1
        c.assume(len(cnt) <= K)
        if n == 1:
            return chol(A, nargout=nargout)
        if c.case.get('nofac') and c.choice('p%d' % len(cnt), [0, 1]):
            return c.array([]), 1
        # with R = rho I the step of the shifted system is any vector (it is -g/rho^2 and g is arbitrary), shorter than the radius
        m, rho = len(A), (1.0, 2.0, 4.0)[len(cnt) - 1]
        gf = calls[-1][0]
        d = rho * rho * calls[-1][2]
        if c.case.get('box'):
            for i in range(m):
                c.assume((gf[i, 0] <= d) & (gf[i, 0] >= -d))
        else:
            c.assume((gf.T.dot(gf))[0, 0] <= d * d)
        return c.array(rho * np.eye(m)), 0
    c.stub('bcdfo_solve_TR_MS_bc', 'chol_', factor)
    keep = [v.copy() for v in (g, H, lb, ub)]
    s, lam, norms, value, gplus, nfact, neigd, msg = M.bcdfo_solve_TR_MS_bc_(g, H, lb, ub, delta, eps, k.get('strat', 1), Struct(verbose=0), nargout=8)
    for a, b in zip((g, H, lb, ub), keep):
        c.eq('arguments unchanged', a, b)
    c.check('shape of the step', s.shape == (n, 1))
    for i in range(n):
        c.ge('not below the lower bound', s[i, 0], lb[i, 0])
        c.le('not above the upper bound', s[i, 0], ub[i, 0])
    ss = (s.T.dot(s))[0, 0]
    lim = delta * (1 + eps) + 1e-5 * n
    if not k.get('box'):
        c.le('inside the trust region', ss, lim * lim)
    if msg.startswith('limit') or msg.startswith('error'):
        c.cover('no answer')
        if msg.startswith('limit'):
            c.eq('no answer: no step', s, 0 * s)
            c.eq('no answer: no length', norms, 0.0)
        return
    c.cover('msg ' + msg[:12])
    c.eq('reported length', norms * norms, ss)
    v = (g.T.dot(s) + 0.5 * s.T.dot(H.dot(s)))[0, 0]
    c.eq('value is the model at the step', value, v)
    if 'interior' in msg:
        # the last subproblem was the model around the part of the step made before it
        gl, Hl, Dl, sl = calls[-1]
        m = len(gl)
        alt = []
        for F in itertools.combinations(range(n), m):
            before = s.copy()
            for a, i in enumerate(F):
                before[i, 0] = before[i, 0] - sl[a, 0]
            gb = g + H.dot(before)
            ok = True
            for a, i in enumerate(F):
                d = gl[a, 0] - gb[i, 0]
                ok = ok & (d <= 1e-9) & (d >= -1e-9)
                for b, j in enumerate(F):
                    ok = ok & (Hl[a, b] == H[i, j])
            left = delta - Dl
            e = (before.T.dot(before))[0, 0] - left * left
            alt.append(ok & (e <= 1e-9) & (e >= -1e-9))
        one = alt[0]
        for a in alt[1:]:
            one = one | a
        c.check('the last subproblem is the model around the step so far in the remaining radius', one)
    if n == 1:
        c.ge('shift not negative', lam, 0.0)
        c.le('model not increased', v, 1e-3)


def cases(tier):
    out = []
    o = dict(query_ms=60000)
    th = tier == 'thorough'
    for b in 'lunB' + ('b' if th else ''):
        for h in (2.0, 0.0, -1.0):
            out.append(('step', dict(n=1, h=h, b=[b], delta=1.5), o))
    for kind in ('dg', 'pd', 'nd') + (('sing', 'zero', 'indef', 'id') if th else ()):
        for b in ('ln', 'nu') + (('bn', 'lu', 'bl') if th else ()):
            out.append(('step', dict(n=2, kind=kind, b=list(b), delta=1.5, K=1, box=1), o))
    for kind, b in (('pd', 'LU'), ('dg', 'Bn')) + ((('pd', 'lU'), ('nd', 'Lu')) if th else ()):
        out.append(('step', dict(n=2, kind=kind, b=list(b), delta=1.5, K=1, box=1), o))
    out.append(('step', dict(n=2, kind='nd', b=['l', 'n'], delta=1.5, K=2, box=1, hard=1), o))
    for kind, b in (('pd', 'zl'), ('nd', 'zu'), ('dg', 'Zl'), ('nd', 'uZ'), ('pd', 'lz')):
        out.append(('step', dict(n=2, kind=kind, b=list(b), delta=1.5, K=1, box=1), o))
    for kind, b in (('pd', 'ln'), ('nd', 'LU')):
        out.append(('step', dict(n=2, kind=kind, b=list(b), delta=1.5, K=1, box=1, never=1), o))
    out.append(('step', dict(n=2, kind='nd', b=['l', 'n'], delta=1.5, K=2, box=1, nofac=1), o))
    return out
