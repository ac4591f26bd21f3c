"""Runs the real wrapper and the real main loop with stand-ins for the preparation, the linear algebra kernels and the step
computation; everything a stand-in answers is symbolic. Shared by the harnesses about the main loop."""
from .common import Struct
import numpy as np

CONTRACT = ['preparation, model construction, step computation, geometry repair and poisedness are stand-ins with arbitrary answers '
            '(their own guarantees are separate properties); the choice of the point to replace is arbitrary']


BAD = dict(nan=float('nan'), inf=float('inf'), ninf=float('-inf'))


class Stop(Exception):
    pass


class Run:
    pass


def values():
    return Struct(success=0, fail_on_argument=1, fail_on_problem=2, fail_on_simul=3, stop_on_simul=4, stop_on_max_iter=5,
                  stop_on_max_simul=6, stop_on_dxmin=7, fail_on_non_decrease=8, fail_on_ascent_dir=9, fail_on_ill_cond=11,
                  stop_on_small_trust_region=15, fail_on_null_step=20, fail_strange=99, fail_unexpected=30, bfgs=130, model=131,
                  linear=200, diagonal=201, quadratic=202, dline='', eline='', sline='')


def start(c, n=1, p=2, me=0, ns=0, degree='linear', miter=1000, msimul=1000, steps=1, conv=False, activ=False, rp='zero',
          curv=2.0, delta=1.0, niter0=0, nsimul0=None, tols=(1e-5, 1e-5, 1e-5), poison=None, fails=False, lmc=0, wide=10,
          whichmodel=0, repl=(0, 1), gconv='all', slfix=None, gfix=None, hist=(), last=None, smax=3,
          nfixed=0):
    """prepares a run; r.go() performs it and returns r"""
    r = Run()
    r.evals, r.tr, r.inc, r.rep, r.fit, r.opts_seen, r.poised, r.optim = [], [], [], [], [], [], [], []
    r.steps = steps
    val = values()
    R = c.mod('runtime')
    c.stub('runtime', 'fopen_', lambda *a: -1)
    c.stub('runtime', 'fclose_', lambda *a: None)
    c.stub('runtime', 'fprintf_', lambda *a: None)
    glob = c.mod('sqpdfo_global_variables')
    r.glob = glob
    glob.set_simul_not_initialized(0)
    r.X0 = np.zeros((n, p))
    for j in range(1, p):
        r.X0[(j - 1) % n, j] = -1.0 if j <= n else 1.0
    f0 = c.array([2.0 + j for j in range(p)]) if hist else c.vec('f', p, -wide, wide)
    ce0 = c.array([[1.0 - 2.0 * j for j in range(p)]] * me) if me and hist else c.mat('ce', me, p, -5, 5) if me else c.array([])
    sl0 = None if not ns else c.array([[slfix]] * ns) if slfix is not None else c.col('sl', ns, 0, 3)
    r.f0, r.ce0, r.sl0 = f0, ce0, sl0
    nu = [0]

    def fresh(nm, lo, hi, k=n):
        nu[0] += 1
        return c.col('%s%d_' % (nm, nu[0]), k, lo, hi)
    info = Struct(flag=0, f=f0[0], ce=ce0[:, [0]].copy() if me else c.array([]), ci=c.array([]), ai=c.array([]),
                  ae=c.array(np.ones((me, n))) if me else c.array([]), g=fresh('g', -5, 5) if gfix is None else c.array([[gfix]] * n), niter=niter0,
                  nsimul=c.array([0, p if nsimul0 is None else nsimul0, 0, 0]), glag=None)
    hl = Struct(tol_grad=tols[0], tol_feas=tols[1], tol_bnds=tols[2], miter=miter, msimul=msimul, verbose=0, fout=1,
                hess_approx=val.model, final_degree=getattr(val, degree), whichmodel=whichmodel, inf=1e20, dxmin=1e-8,
                bfgs_restart=0, df1=0)
    deg = dict(linear=n + 1, diagonal=2 * n + 1, quadratic=(n + 1) * (n + 2) // 2)
    # fixed variables, if any, come after the free ones
    N = n + nfixed
    lb, ub = np.full((N + ns, 1), -20.0), np.full((N + ns, 1), 20.0)
    lb[n:N] = ub[n:N] = 0.75
    lb[N:], ub[N:] = 0.0, 1e20
    xfix = np.zeros((N, 1))
    xfix[n:] = 0.75
    XF = np.concatenate((r.X0, np.full((nfixed, p), 0.75)))

    def prelim(func, x0, *a, **k):
        glob.set_nbr_slacks(ns)
        glob.set_slacks(sl0)
        col = c.array(r.X0[:, [0]])
        return (n, n, 0, me, col, c.array(np.zeros((n + me, 1))), c.array(lb), c.array(ub), c.array(np.ones((1, n))), delta, nfixed,
                np.arange(n, N) if nfixed else c.array([]), c.array(xfix), c.array(np.concatenate((np.zeros((n, 1)), 2 * np.ones((nfixed, 1))))), np.ones(p), np.ones(p), np.zeros(p), 'Q', 'R',
                c.array(np.ones((n + 1, 1))), 1.0, 1.0, 1, c.array(XF), f0, c.array(r.X0), f0.copy(), c.array([]), c.array([]),
                ce0, ce0.copy() if me else ce0, 1, p - 1, info.g, 1.0, c.array(np.zeros((1 + me, p))), np.arange(p), 0, p, n + 1,
                deg['linear'], deg['diagonal'], deg['quadratic'], np.arange(n), info, hl, val)
    c.stub('sqpdfo_prelim', 'sqpdfo_prelim_', prelim)
    MN = 'sqpdfo_main'

    r.mult = []

    def mult(x, l, u, inf, o, v, **k):
        lm = fresh('lm', -5, 5, n + me) if conv else c.array(np.zeros((n + me, 1)))
        r.mult.append(Struct(x=x.copy(), l=l.copy(), u=u.copy(), lm=lm))
        return lm, inf
    c.stub(MN, 'sqpdfo_compute_multiplier_', mult)
    r.resid = []

    def optim(x, lm, l, u, inf, o, **k):
        from copy import copy
        i2 = copy(inf)
        q = len(r.resid)
        if conv:
            gl = c.real('resg%d' % q, 0, 1) if gconv == 'all' or len(r.tr) >= gconv else 1.0
            fe = c.real('resf%d' % q, 0, 1) if me else 0.0
            cb = c.real('resb%d' % q, 0, 1)
        else:
            gl, fe, cb = 1.0, 0.0, 0.0
        r.resid.append(Struct(gl=gl, fe=fe, cb=cb, x=x.copy(), lm=lm, l=l, u=u, g=inf.g, ae=inf.ae, nev=len(r.evals)))
        i2.glag = c.array([[gl]] + [[0.0]] * (n - 1))
        return c.array([[fe]]), c.array([[cb]]), i2
    c.stub(MN, 'sqpdfo_optimality_', optim)

    def hess(func, x, null, cp, lm, M, n_, me_, mi_, s, gx, gci, gce, inf, *a, **k):
        from copy import copy
        i2 = copy(inf)
        i2.g, i2.ae, i2.ai = gx, gce, gci
        return c.array(np.eye(n) * curv), 0, i2
    c.stub(MN, 'sqpdfo_computeHessian_', hess)

    def computeP(QZ, RZ, Y, rhs, *a, **k):
        r.fit.append((Y.copy(), rhs.copy()))
        return c.array(np.zeros((1 + me, Y.shape[1])))
    c.stub(MN, 'bcdfo_computeP_', computeP)
    c.stub(MN, 'bcdfo_gradP_', lambda P, x, *a: fresh('g', -5, 5))
    c.stub(MN, 'bcdfo_projgrad_', lambda n_, x, g, l, u: (1.0, g))

    def poisedness(*a, **k):
        q = len(r.poised)
        v = (c.real('poi%d' % q, 0, 10), c.real('rad%d' % q, 0, 10)) if conv else (1.0, 1.0)
        r.poised.append(v)
        return v
    c.stub(MN, 'bcdfo_poisedness_Y_', poisedness)

    def repair(QZ, RZ, Y, radius, *a, **k):
        q = len(r.rep)
        which = c.choice('rep%d' % q, list(repl))
        Y2 = Y.copy()
        reps = []
        if which:
            y = fresh('ry', -3, 3)
            Y2[:, which] = y.reshape(-1)
            reps = [which]
        v = (c.real('rpoi%d' % q, 0, 10), c.real('rrad%d' % q, 0, 10)) if conv else (1.0, 1.0)
        r.rep.append(Struct(radius=radius, which=which, v=v, ntr=len(r.tr)))
        return 'Q', 'R', Y2, np.array(reps, dtype=float), v[0], v[1], Y2[:, [0]], 's'
    c.stub(MN, 'bcdfo_repair_Y_', repair)
    c.stub('sqpdfo_swap_in_Y', 'bcdfo_build_QR_of_Y_', lambda Y, *a, **k: ('Q', 'R', Y[:, [0]], 's'))

    def augment(y, Y, *a, **k):
        return Y.shape[1] + 1, 'Q', 'R', np.concatenate((Y, y), axis=1), Y[:, [0]], 's'
    c.stub(MN, 'bcdfo_augment_Y_', augment)

    def include(x, QZ, RZ, Y, setY, *a, **k):
        cand = [int(v) for v in np.asarray(setY).ravel()] if len(setY) else []
        q = len(r.inc)
        pos = c.choice('inc%d' % q, [-1] + list(range(Y.shape[1])))
        c.assume(pos == -1 or pos in cand)
        Y2 = Y.copy()
        if pos >= 0:
            Y2[:, pos] = x.reshape(-1)
        r.inc.append(Struct(cand=cand, pos=pos, crit=a[1] if len(a) > 1 else None))
        return 'Q', 'R', Y2, pos, Y2[:, [0]], 's'
    c.stub(MN, 'bcdfo_include_in_Y_', include)

    def tr(func, x, l, u, dl, mi_, me_, M, pr, pt, inf, o, v, rej, lm, ceY, ciY, gx, ind, **k):
        t = len(r.tr)
        from copy import copy
        T = Struct(x=x.copy(), delta=dl, M=M, f=inf.f, ce=copy(inf.ce), g=inf.g, sl=glob.get_slacks(), rej=rej, gx=gx,
                   niter=inf.niter, nev=len(r.evals), nrep=len(r.rep), ninc=len(r.inc))
        if ns:
            T.sl = T.sl.copy()
        r.tr.append(T)
        if t >= r.steps:
            raise Stop()
        if t < len(hist):
            h = hist[t]
            T.s, T.rpred, T.active = c.array([[h['s']]] * n), h['rp'] if me else 0.0, h.get('act', 0)
            T.slplus = c.array([[h['sl']]] * ns) if ns else c.array([])
            T.slp0 = T.slplus.copy() if ns else None
            return x + T.s, dl, T.rpred, 0, T.active, lmc, lm, inf, T.slplus
        T.s = c.col('s%d_' % t, n, -smax, smax) if last is None else c.array([[last[0]]] * n)
        T.rpred = 0.0 if rp == 'zero' else c.real('rp%d' % t, 1e-6, 5) if rp == 'pos' else c.real('rp%d' % t, -5, -1e-6)
        T.active = c.choice('act%d' % t, [0, 1]) if activ else 0
        T.slplus = c.array([]) if not ns else c.col('sp%d_' % t, ns, 0, 3) if last is None else c.array([[last[1]]] * ns)
        T.slp0 = T.slplus.copy() if ns else None
        return x + T.s, dl, T.rpred, 0, T.active, lmc, lm, inf, T.slplus
    c.stub(MN, 'sqpdfo_solve_TR_bc_', tr)
    r.fails = fails

    def fixed():
        # the fixed values of the trial point of a fixed step (points evaluated by a repair during it get theirs too)
        t = len(r.tr) - 1
        if 0 <= t < len(hist):
            return hist[t] if len(r.evals) - 1 == r.tr[t].nev else dict(f=5.0, c=2.0)

    def f(x):
        k = len(r.evals)
        e = Struct(x=list(x), f=None, c=None, ok=True, bad=False)
        r.evals.append(e)
        e.bad = fails and c.choice('fail%d' % k, [0, 1])
        if e.bad:
            e.ok = False
            if fails == 'exc':
                raise ValueError('user function fails')
            if fails in BAD:
                return BAD[fails]
        h = fixed()
        e.f = h['f'] if h else c.real('F%d' % k, -wide, wide)
        return e.f

    def cf(x):
        e = r.evals[-1]
        k = len(r.evals) - 1
        if e.bad and fails == 'cexc':
            raise ValueError('user constraints fail')
        if e.bad and fails == 'cnan':
            return c.array([float('nan')] * me)
        h = fixed()
        e.c = c.array([h['c']] * me) if h else c.vec('C%d_' % k, me, -5, 5)
        return e.c
    r.p, r.n, r.me, r.ns = p, n, me, ns

    def go():
        r.stopped = False
        try:
            r.x, r.lm, r.info = c.mod('.sqpdfo').sqpdfo_(Struct(), f, np.zeros((1, n + nfixed)), None, None, me - ns, ns,
                                                         *([cf] if me else []))
        except Stop:
            r.stopped = True
        return r
    r.go = go
    r.norm = lambda v: abs(v[0]) if len(v) == 1 else R.norm_(c.array(list(v)))
    return r


def resid(r, ce, sl):
    """norm of the constraint values less the squared slacks"""
    if not r.me:
        return 0.0
    out = []
    for i in range(r.me):
        k = i - (r.me - r.ns)
        out.append(ce[i] - (sl[k, 0] * sl[k, 0] if k >= 0 else 0.0))
    return r.norm(np.array(out)) if len(out) == 1 else None
