"""Composite step: bounds, restoration towards the linearised constraints, tangential step along them, slack variables."""
from fractions import Fraction

import numpy as np
from harness.common import Struct

BOUNDS = ('n<=3 with at most one fixed variable, one equality or inequality constraint (one slack), concrete Jacobian, radius 1; any restoration and '
          'tangential answer within bounds/radius, any iterate, gradient, constraint value and multipliers (concrete in the slack and n=3 cases); '
          'zero and positive definite Hessian, any number of rounds with the zero one')
ASSUMPTIONS = ['the bounded trust-region solver answers within the bounds and the (box) radius it is given',
               'the conjugate gradient answers within the (box) radius; the null space basis is exact; Gram matrices pass the convexity repair unchanged',
               'with a non-zero Hessian only runs of one round are followed']
M = 'sqpdfo_solve_TR_bc'
HESS = {'zero': lambda n: np.zeros((n, n)), 'pd': lambda n: np.eye(n) + np.ones((n, n))}


def nullspace(A):
    """exact basis of the null space of a concrete matrix (columns)"""
    A = [[Fraction(float(v)) for v in r] for r in A.tolist()]
    n = len(A[0])
    piv, r = [], 0
    for j in range(n):
        k = next((i for i in range(r, len(A)) if A[i][j] != 0), None)
        if k is None:
            continue
        A[r], A[k] = A[k], A[r]
        A[r] = [v / A[r][j] for v in A[r]]
        for i in range(len(A)):
            if i != r and A[i][j] != 0:
                A[i] = [a - A[i][j] * b for a, b in zip(A[i], A[r])]
        piv.append(j)
        r += 1
    free = [j for j in range(n) if j not in piv]
    Z = np.zeros((n, len(free)))
    for q, j in enumerate(free):
        Z[j, q] = 1.0
        for i, p in enumerate(piv):
            Z[p, q] = float(-A[i][j])
    return Z


def setup(c):
    k = c.case
    n, nf, ns, me = k['n'], k.get('nf', 0), k.get('ns', 0), len(k.get('J', []))
    r = Struct(n=n, ns=ns, me=me, nf=nf, k=k)
    bl = k['b'] + ['b'] * (n - len(k['b']))
    lo = [-1.0 if b in 'lb' else -1e20 for b in bl]
    up = [1.5 if b in 'ub' else 1e20 for b in bl]
    r.x = c.array([[c.real('x%d' % i, *{'L': (lo[i], lo[i]), 'U': (up[i], up[i])}.get(k.get('at', '-' * n)[i], (max(lo[i], -3), min(up[i], 3))))] for i in range(n)])
    if 'x' in k:
        r.x = c.array([[v] for v in k['x']])
    r.lo, r.up = lo, up
    # fixed variables keep their places in the full-length bounds
    L, U, free = list(lo), list(up), list(range(n))
    if nf:
        p = k.get('fpos', 0)
        L.insert(p, 0.25)
        U.insert(p, 0.25)
        free = [i + (i >= p) for i in range(n)]
    r.sl = c.array([[v] for v in k.get('sl', [])]) if ns else c.array([])
    r.slo, r.sup = [0.0] * ns, [k.get('smax', 4.0)] * ns
    r.lb, r.ub = c.array([[v] for v in L + r.slo]), c.array([[v] for v in U + r.sup])
    r.free = np.array(free)
    g = c.mod('sqpdfo_global_variables')
    g.set_nbr_slacks(ns)
    g.set_slacks(r.sl)
    g.set_threshold(1e-8)
    r.delta = k.get('delta', 1.0)
    r.M = c.array(HESS[k.get('H', 'pd')](n))
    q = k.get('conc')
    r.gx = c.array([[v] for v in (1.0, -0.5, 2.0)[:n]]) if q else c.col('g', n, -5, 5)
    r.ce = c.array([[v] for v in (0.5, -1.0)[:me]]) if q else c.col('c', me, -5, 5) if me else c.array([])
    r.J = c.array(np.array(k['J'], dtype=float)) if me else c.array(np.zeros((0, n)))
    r.lm = c.array(np.zeros((n + me, 1))) if q else c.col('m', n + me, -5, 5)
    r.info = Struct(ce=r.ce, ae=r.J, g=r.gx, flag=0)
    return r


def run(c, r):
    keep = [v.copy() for v in (r.x, r.lb, r.ub, r.gx, r.M, r.lm, r.J) + ((r.ce,) if r.me else ()) + ((r.sl,) if r.ns else ())]
    out = c.mod(M).sqpdfo_solve_TR_bc_(None, r.x, r.lb, r.ub, r.delta, 0, r.me, r.M, 1e-6, 1e-6, r.info, Struct(verbose=0, fout=None),
                                       Struct(success=0, fail_unexpected=30), 0, r.lm, None, None, r.gx, r.free, nargout=9)
    for v, w in zip((r.x, r.lb, r.ub, r.gx, r.M, r.lm, r.J) + ((r.ce,) if r.me else ()) + ((r.sl,) if r.ns else ()), keep):
        c.eq('arguments unchanged', v, w)
    return out


def cat(c, a, b):
    return c.array(a.ravel().tolist() + b.ravel().tolist()).reshape(-1, 1)


def boundstep(c):
    """no constraints but bounds: the bounded trust-region step is taken as it is"""
    r = setup(c)
    rec = {}

    def ms(g, H, lo, up, delta, prec, strat, opts, nargout=8):
        s = c.col('s', r.n, -5, 5)
        rec.update(g=g.copy(), H=H.copy(), lo=lo.copy(), up=up.copy(), delta=delta, s=s.copy())
        for i in range(r.n):
            c.assume((s[i, 0] >= lo[i, 0]) & (s[i, 0] <= up[i, 0]) & (s[i, 0] <= delta) & (s[i, 0] >= -delta))
        return s, 0, None, None, g, 1, 0, 'boundary'
    c.stub(M, 'bcdfo_solve_TR_MS_bc_', ms)
    x1, dl, rpred, ar, at, lmc, lm, info, sl1 = run(c, r)
    c.eq('the step minimises the model with the current gradient and Hessian', np.concatenate([rec['g'].ravel(), rec['H'].ravel()]),
         np.concatenate([r.gx.ravel(), r.M.ravel()]))
    c.check('within the current radius', rec['delta'] == r.delta)
    for i in range(r.n):
        c.eq('lower bound of the step', rec['lo'][i, 0], r.lo[i] - r.x[i, 0])
        c.eq('upper bound of the step', rec['up'][i, 0], r.up[i] - r.x[i, 0])
        c.eq('the step is taken', x1[i, 0], r.x[i, 0] + rec['s'][i, 0])
        c.check('new point within its bounds', (x1[i, 0] >= r.lo[i]) & (x1[i, 0] <= r.up[i]))
    ss = (rec['s'].T.dot(rec['s']))[0, 0]
    c.check('radius reported active exactly if the step reaches it', bool(at) == (ss >= r.delta ** 2))
    c.check('no restoration step', (rpred == 0) and not ar)
    c.check('radius unchanged', dl == r.delta)
    c.check('multipliers unchanged', lm is r.lm or bool(c_all(lm == r.lm)))


def c_all(v):
    out = True
    for w in np.asarray(v, dtype=object).ravel():
        out = w & out
    for H in ('pd', 'zero'):
        out.append(('composite', dict(n=1, ns=1, J=[[1.0]], sl=[0.5], H=H, b=['b'], at='-'), o))
        out.append(('composite', dict(n=1, ns=1, J=[[1.0]], sl=[0.5], H=H, b=['l'], at='L'), o))
        out.append(('composite', dict(n=2, ns=1, J=J2, sl=[0.5], H=H, b=['n', 'n'], at='--'), o))
        out.append(('composite', dict(n=2, ns=1, J=J2, sl=[0.5], H=H, b=['l', 'n'], at='--'), o))
        out.append(('composite', dict(n=3, J=J3, H=H, b=['l', 'n', 'n'], at='L--'), o))
        out.append(('composite', dict(n=3, nf=1, J=J3, H=H, b=['l', 'n', 'n'], at='---'), o))
    out.append(('composite', dict(n=2, J=J2, H='pd', b=['n', 'n'], msgs=1), o))
    out.append(('composite', dict(n=2, J=J2, H='pd', b=['n', 'n'], dec=1), o))
    return out


def composite(c):
    r = setup(c)
    k = c.case
    n, ns, me = r.n, r.ns, r.me
    N = n + ns
    rec = Struct(r=None, t=[], A=[], m=[])
    full = 'H' in k and k['H'] == 'zero'

    def ms(g, H, lo, up, delta, prec, strat, opts, nargout=8):
        s = c.array([[v] for v in k['r']]) if 'r' in k else c.col('r', N, -9, 9)
        c.check('one restoration step', rec.r is None)
        rec.r = Struct(g=g.copy(), H=H.copy(), lo=lo.copy(), up=up.copy(), delta=delta, s=s.copy())
        for i in range(N):
            c.assume((s[i, 0] >= lo[i, 0]) & (s[i, 0] <= up[i, 0]) & (s[i, 0] <= delta) & (s[i, 0] >= -delta))
        if k.get('dec'):
            c.assume((g.T.dot(s) + 0.5 * s.T.dot(H.dot(s)))[0, 0] <= 0)
        msg = c.choice('msg', ['boundary', 'converged', 'limit']) if k.get('msgs') else 'converged'
        return s, 0, None, None, g + H.dot(s), 1, 0, msg

    def null(A):
        rec.A.append(A.copy())
        if not full:
            c.assume(len(rec.A) == 1)
        Z = c.array(nullspace(A))
        rec.Z = Z
        return Z

    def cg(A, b, delta, imax, tol, nargout=2):
        u = c.col('u%d' % len(rec.t), rec.Z.shape[1], -9, 9)
        t = rec.Z.dot(u)
        for i in range(N):
            c.assume((t[i, 0] <= delta) & (t[i, 0] >= -delta))
        rec.t.append(Struct(t=t, A=A.copy(), b=b.copy(), delta=delta, Z=rec.Z))
        fl = c.choice('fl%d' % len(rec.t), [0, 1, 2, -1]) if k.get('msgs') else 0
        rec.t[-1].flag = fl
        return u, Struct(flag=fl)

    def mult(x, lo, up, info, opts, vals, nargout=2):
        lm = c.col('lm%d' % len(rec.m), n + me, -5, 5)
        rec.m.append(x.copy())
        return lm, info
    c.stub(M, 'bcdfo_solve_TR_MS_bc_', ms)
    c.stub(M, 'null_', null)
    c.stub(M, 'sqpdfo_truncated_cg_', cg)
    c.stub(M, 'sqpdfo_compute_multiplier_', mult)
    c.stub(M, 'sqpdfo_check_convex_', lambda A, *a: A)
    x1, dl, rpred, ar, at, lmc, lm, info, sl1 = run(c, r)
    # the linearised constraints with slack variables: c(x) - s^2 for the rows turned into equations
    cons, Jac = r.ce, r.J
    if ns:
        cons = c.array([[r.ce[i, 0] - (r.sl[i - (me - ns), 0] ** 2 if i >= me - ns else 0)] for i in range(me)])
        Jac = c.array([[r.J[i, j] for j in range(n)] + [-2 * r.sl[q, 0] if i - (me - ns) == q else 0.0 for q in range(ns)] for i in range(me)])
    rr = rec.r.s if rec.r else c.array(np.zeros((N, 1)))
    s = cat(c, x1 - r.x, sl1 - r.sl) if ns else x1 - r.x
    for i in range(n):
        c.ge('new point not below its bound', x1[i, 0], r.lo[i] - 2e-8)
        c.le('new point not above its bound', x1[i, 0], r.up[i] + 2e-8)
    for i in range(ns):
        c.ge('slack not below its bound', sl1[i, 0], r.slo[i] - 2e-8)
        c.le('slack not above its bound', sl1[i, 0], r.sup[i] + 2e-8)
    c.check('radius never enlarged', dl <= r.delta)
    if rec.r:
        c.cover('restoration')
        c.check('radius of the restoration step', rec.r.delta == r.delta)
        G = rec.r
        # rows for bounds that are active at the start carry a zero constraint value
        c.eq('restoration gradient', G.g, Jac.T.dot(cons))
        for i in range(N):
            base = r.x[i, 0] if i < n else r.sl[i - n, 0]
            c.eq('restoration lower bound', G.lo[i, 0], (r.lo + r.slo)[i] - base)
            c.eq('restoration upper bound', G.up[i, 0], (r.up + r.sup)[i] - base)
    if rec.A:
        A = rec.A[0]
        c.eq('tangential steps keep the linearised constraints', A[:me, :], Jac)
        extra = []
        for q in range(me, len(A)):
            row = [float(v) for v in A[q, :].tolist()]
            j = row.index(1.0)
            c.check('a further row holds one variable', row == [1.0 if i == j else 0.0 for i in range(N)] and j < n)
            c.check('only a variable at its bound is held', (abs(r.x[j, 0] - r.lo[j]) <= 1e-5) | (abs(r.x[j, 0] - r.up[j]) <= 1e-5))
            extra.append(j)
        if rec.r:
            H = Jac.T.dot(Jac)
            for j in extra:
                e = np.zeros((N, N))
                e[j, j] = 1.0
                H = H + c.array(e)
            c.eq('restoration Hessian', rec.r.H, H)
        MM = np.zeros((N, N), dtype=object)
        MM[:n, :n] = r.M
        MM = c.array(MM)
        T = rec.t[0]
        gg = cat(c, r.gx, c.array(np.zeros((ns, 1)))) if ns else r.gx
        c.eq('tangential Hessian', T.A, T.Z.T.dot(MM.dot(T.Z)))
        c.eq('tangential gradient', T.b, -T.Z.T.dot(gg + MM.dot(rr)))
        c.check('radius of the tangential step', T.delta == r.delta)
    shortened = len(rec.A) > 1 or dl is not r.delta
    if not shortened:
        c.cover('single round')
        t = rec.t[0].t if rec.t else c.array(np.zeros((N, 1)))
        c.eq('the step is restoration plus tangential step', s[:n], (rr + t)[:n])
        if rec.t:
            c.check('radius reported active for the tangential step', bool(at) == (rec.t[0].flag in (1, 2)))
    else:
        c.cover('several rounds')
    if not shortened or full:
        lin = cons + Jac.dot(s)
        want = cons + Jac.dot(rr)
        inside = True
        tl = rec.t[-1].t if rec.t else c.array(np.zeros((N, 1)))
        for i in range(ns):
            # a slack that would leave its bounds gives up its tangential part
            v = sl1[i, 0] + tl[n + i, 0]
            inside = inside & (v >= r.slo[i]) & (v <= r.sup[i])
        for i in range(me):
            d = lin[i, 0] - want[i, 0]
            c.check('the tangential step leaves the linearised constraints', neg(inside) | ((d <= 1e-9) & (d >= -1e-9)))
    if k.get('dec'):
        nrm = c.mod('runtime').norm_
        if rec.r:
            c.near('predicted reduction is that of the restoration step', rpred, nrm(cons) - nrm(cons + Jac.dot(rr)), 1e-9)
        c.ge('predicted reduction not negative', rpred, -1e-9)
    c.check('multipliers taken over', lm is r.lm or len(rec.m) > 0)


def neg(v):
    return (not v) if isinstance(v, (bool, np.bool_)) else ~v


def cases(tier):
    out = []
    o = dict(query_ms=60000)
    th = tier == 'thorough'
    for n in (1, 2):
        for b in (['l', 'b'], ['u', 'n']):
            out.append(('boundstep', dict(n=n, b=b[:n]), o))
    out.append(('boundstep', dict(n=2, nf=1, fpos=1, b=['l', 'b']), o))
    J2, J3 = [[1.0, 0.5]], [[1.0, 0.5, -1.0]]
    for H in ('pd', 'zero'):
        for b, at in ((['n', 'n'], '--'), (['l', 'n'], 'L-'), (['b', 'n'], 'U-')):
            out.append(('composite', dict(n=2, J=J2, H=H, b=b, at=at), o))
        for b, x in ((['l', 'u'], [-0.75, 1.25]), (['l', 'u'], [-1.0, 1.5])):
            out.append(('composite', dict(n=2, J=J2, H=H, b=b, x=x), o))
        for b, x in ((['l'], [-0.75]), (['l'], [-1.0]), (['n', 'n'], [0.5, -0.5]), (['l', 'n'], [-0.75, 0.5]), (['b'], [0.25])):
            if not th and H == 'zero' and b == ['l', 'n']:
                continue  # with r fixed below
            n = len(x)
            if th or b != ['b']:
                out.append(('composite', dict(n=n, ns=1, J=[J3[0][:n]], sl=[0.5], H=H, b=b, x=x, **({} if th else {'conc': 1})), o))
        out.append(('composite', dict(n=2, ns=1, J=J2, sl=[2.0], smax=1e20, H=H, b=['l', 'n'], x=[-0.75, 0.5], conc=1, r=[0.25, -0.5, 0.125]), o))
        for nf in (0, 1):
            out.append(('composite', dict(n=3, nf=nf, J=J3, H=H, b=['l', 'n', 'n'], x=[-0.75, 0.5, 1.0], **({} if th else {'conc': 1, 'r': [0.25, -0.5, 0.125]} if H == 'zero' else {'conc': 1})), o))
    out.append(('composite', dict(n=2, J=J2, H='pd', b=['n', 'n'], x=[0.5, -0.5], msgs=1), o))
    out.append(('composite', dict(n=2, J=J2, H='pd', b=['n', 'n'], x=[0.5, -0.5], dec=1), o))
    return out
