"""Runs the real wrapper, preparation, option handling, evaluation and record; the main loop is replaced by a recorder, the model
kernels by stand-ins. Shared by the harnesses about the calling interface."""
from .common import Struct
import numpy as np

CONTRACT = ['factorisation, poisedness, model coefficients, gradients, multipliers and residuals of the starting set are stand-ins '
            '(their own guarantees are separate properties); the main loop is replaced by a recorder']


class Rec:
    pass


def install(c, r):
    """stand-ins; r collects what happened"""
    r.main, r.qr, r.fit = [], [], []
    P = 'sqpdfo_prelim'
    for nm in ('fopen_', 'fclose_', 'fprintf_', 'disp_'):
        c.stub('runtime', nm, lambda *a: -1)

    def qr(Y, *a, **k):
        r.qr.append(Y.copy())
        return 'Q', 'R', Y[:, [0]].copy(), 'scale'
    c.stub(P, 'bcdfo_build_QR_of_Y_', qr)
    c.stub(P, 'bcdfo_poisedness_Y_', lambda *a, **k: (1.0, 1.0))

    def fit(QZ, RZ, Y, rhs, *a, **k):
        r.fit.append((Y.copy(), rhs.copy()))
        return c.array(np.zeros((rhs.shape[0], Y.shape[1])))
    c.stub(P, 'bcdfo_computeP_', fit)
    c.stub(P, 'bcdfo_gradP_', lambda P, x, *a: c.array(np.ones((x.shape[0], 1))))
    c.stub(P, 'bcdfo_projgrad_', lambda n, x, g, l, u: (1.0, g))
    c.stub(P, 'sqpdfo_compute_multiplier_', lambda x, l, u, inf, o, v, **k: (
        c.array(np.zeros((x.shape[0] + len(inf.ce), 1))), inf))

    def optim(x, lm, l, u, inf, o, **k):
        from copy import copy
        i2 = copy(inf)
        i2.glag = c.array(np.zeros((x.shape[0], 1)))
        return inf.ce, c.array(np.zeros((x.shape[0], 1))), i2
    c.stub(P, 'sqpdfo_optimality_', optim)
    c.stub('.sqpdfo', 'sqpdfo_finish_', lambda *a: None)
    names = ('func n nb mi me lm nitold nit i_xbest lb ub m X fX ciX ceX ind_Y QZ RZ delta cur_degree neval maxeval maxit fcmodel gx '
             'normgx show_errg pquad pdiag plin stallfact eps_rho Deltamax rep_degree epsilon verbose eta1 eta2 gamma1 gamma2 gamma3 '
             'interpol_TR factor_CV Lambda_XN Lambda_CP factor_FPU factor_FPR Lambda_FP criterion_S criterion_FP criterion_CP mu theta '
             'eps_TR eps_L lSolver stratLam eps_current vstatus xstatus sstatus dstatus ndummyY sspace_save xspace_save xfix fxmax '
             'poised_model M kappa_ill kappa_th eps_bnd poised Y_radius c level whichmodel hardcons noisy scaleX scalefacX CNTsin '
             'shrink_Delta scale shift_Y info options values').split()
    glob = c.mod('sqpdfo_global_variables')
    r.glob = glob

    def main(*a, **k):
        q = Struct(**dict(zip(names, a)))
        sl = glob.get_slacks()
        q.ns, q.sl = glob.get_nbr_slacks(), None if sl is None else sl.copy()
        r.main.append(q)
        ib = r.best(q) if getattr(r, 'best', None) else q.i_xbest
        lm = r.lm(q) if getattr(r, 'lm', None) else q.lm
        nf = q.n
        return (q.nit, ib, c.array(np.zeros((nf, 1))), q.fX[ib], q.m, q.X, q.fX, q.ciX, q.ceX, q.ind_Y, q.delta, q.eps_current,
                q.cur_degree, q.fcmodel, c.array(np.zeros((nf, 1))), 1.0, q.vstatus, q.xstatus, q.sstatus, q.dstatus, q.M, q.ndummyY,
                q.sspace_save, q.xspace_save, 'msg', q.CNTsin, q.neval, lm, q.info)
    c.stub('.sqpdfo', 'sqpdfo_main_', main)


def users(c, r, nc, fails=False, fvals=None, cvals=None, tag=''):
    """user functions; r.evals records the calls"""
    r.evals = []

    def f(x):
        k = len(r.evals)
        e = Struct(x=list(x), f=None, c=None, ok=True, cx=None)
        r.evals.append(e)
        if fails and c.choice(tag + 'ffail%d' % k, [0, 1]):
            e.ok = False
            raise ZeroDivisionError('user function fails')
        e.f = c.real(tag + 'F%d' % k, -10, 10) if fvals is None else fvals(k)
        return e.f

    def cf(x):
        k = len(r.evals) - 1
        e = r.evals[-1]
        e.cx = list(x)
        if fails and c.choice(tag + 'cfail%d' % k, [0, 1]):
            e.ok = False
            raise ValueError('user constraints fail')
        e.c = [c.real(tag + 'C%d_%d' % (k, i), -10, 10) if cvals is None else cvals(k, i) for i in range(nc)]
        return list(e.c)
    return f, cf


def call(c, r, *a):
    r.x, r.lm, r.info = c.mod('.sqpdfo').sqpdfo_(*a)
    return r
