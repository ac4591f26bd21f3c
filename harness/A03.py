"""The starting set: where the function is evaluated first and what the main loop starts from."""
from . import front
from .common import Struct
import numpy as np

BOUNDS = ('n<=3, bounds in [-100,100] on any subset of the variables, starting point in [-100,100], 0-2 constraints; a second '
          'and third attempt when the objective is unbounded below at a starting point')
ASSUMPTIONS = front.CONTRACT


def opts(c, **k):
    d = dict(verbose=0)
    d.update(k)
    return Struct(**d)


def prepare(c, r, n, me, mi, lo, up, x0form='row', **k):
    """bounds: lo/up list of flags whether variable has the bound"""
    x0 = c.mat('x0', 1, n, -100, 100) if x0form == 'row' else c.mat('x0', n, 1, -100, 100)
    lb = c.array([[c.real('lb%d' % i, -100, 100) if lo[i] else -1e20] for i in range(n)])
    ub = c.array([[c.real('ub%d' % i, -100, 100) if up[i] else 1e20] for i in range(n)])
    for i in range(n):
        if lo[i] and up[i]:
            c.assume(ub[i, 0] - lb[i, 0] >= 1e-3)
    return x0, lb, ub


def start(c):
    k = c.case
    n, me, mi = k['n'], k.get('me', 0), k.get('mi', 0)
    r = front.Rec()
    front.install(c, r)
    x0, lb, ub = prepare(c, r, n, me, mi, k['lo'], k['up'], k.get('form', 'row'))
    huge = k.get('huge')
    fv = None
    if huge is not None:
        def fv(q):
            return -2e25 if q == huge else c.real('F%d' % q, -10, 10)
    f, cf = front.users(c, r, me + mi, fvals=fv)
    X0 = [x0.reshape(-1)[i] for i in range(n)]
    L, U = lb.copy(), ub.copy()
    xs = x0.copy()
    o = opts(c, final_degree=k.get('degree', 'diagonal'))
    front.call(c, r, o, f, x0, None if k.get('nobounds') else lb, None if k.get('nobounds') else ub, me, mi, *([cf] if me + mi else []))
    c.check('a proper call reaches the main loop', len(r.main) == 1)
    M = r.main[0]
    c.eq('starting point of the caller unchanged', x0, xs)
    c.eq('lower bounds of the caller unchanged', lb, L)
    c.eq('upper bounds of the caller unchanged', ub, U)
    # every evaluation within the bounds
    for e in r.evals:
        for i in range(n):
            c.le('first evaluations within the lower bounds', L[i, 0], e.x[i], 1e-9)
            c.le('first evaluations within the upper bounds', e.x[i], U[i, 0], 1e-9)
        if e.cx is not None:
            c.eq('objective and constraints evaluated at the same point', c.array(e.cx), c.array(e.x))
    last = r.evals[-(n + 1):]
    c.check('number of first evaluations', len(r.evals) == n + 1 + (0 if huge is None else huge + 1))
    c.eq('evaluation counter', M.info.nsimul[1], float(len(r.evals)))
    base = last[0].x
    d = M.delta
    c.check('initial radius', (d > 0) & (d <= 1))
    for i in range(n):
        if huge is None:
            w = U[i, 0] - L[i, 0]
            c.check('initial radius fits into the bounds', 2 * d <= w + 1e-9)
            c.check('ball of the initial radius around the first point fits into the bounds',
                    (base[i] - d >= L[i, 0] - 1e-9) & (base[i] + d <= U[i, 0] + 1e-9))
            # the starting point is kept wherever there is room
            lo_room, up_room = X0[i] - L[i, 0], U[i, 0] - X0[i]
            c.check('starting point kept where there is room', (lo_room <= 1) | (up_room <= 1) | (base[i] == X0[i]))
            c.check('starting point moved by no more than needed', (base[i] == X0[i]) | (abs(base[i] - L[i, 0]) <= 1 + 1e-9) | (
                abs(base[i] - U[i, 0]) <= 1 + 1e-9))
        else:
            c.check('radius reduced after an unusable value', d <= 0.01)
    for j in range(1, n + 1):
        for i in range(n):
            if i != j - 1:
                c.eq('one coordinate changed per point', last[j].x[i], base[i])
            else:
                c.eq('distance of the starting points', abs(last[j].x[i] - base[i]), d)
    # what the main loop starts from
    c.check('sizes of the record', M.X.shape[1] == n + 1 and len(M.fX) == n + 1 and M.m == n and M.cur_degree == n + 1)
    c.check('index list', [int(v) for v in np.asarray(M.ind_Y).ravel()] == list(range(n + 1)))
    c.check('best point is the first', M.i_xbest == 0)
    Y, rhs = r.fit[-1]
    for j in range(n + 1):
        c.eq('recorded points are the evaluated ones', M.X[:, j], c.array(last[j].x))
        c.eq('sample points are the evaluated ones', Y[:, j], c.array(last[j].x))
        c.eq('recorded objective values', M.fX[j], last[j].f)
        c.eq('fitted objective values', rhs[0, j], last[j].f)
        for i in range(me + mi):
            c.eq('recorded constraint values', M.ceX[i, j], last[j].c[i])
            c.eq('fitted constraint values', rhs[1 + i, j], last[j].c[i])
    c.eq('objective value of the iterate', M.info.f, last[0].f)
    if me + mi:
        c.eq('constraint values of the iterate', M.info.ce, c.array(last[0].c).reshape(-1, 1))
    c.eq('returned point', c.array(r.x).reshape(-1), c.array(base))
    c.eq('returned objective value', r.info.f, last[0].f)
    c.cover('done')


def cases(tier):
    out = []
    for lo, up in (([0], [0]), ([1], [0]), ([0], [1]), ([1], [1])):
        out.append(('start', dict(n=1, lo=lo, up=up), {}))
        out.append(('start', dict(n=1, lo=lo, up=up, me=1, mi=1), {}))
    for lo, up in (([0, 1], [1, 0]), ([1, 1], [1, 1]), ([1, 0], [1, 0])):
        out.append(('start', dict(n=2, lo=lo, up=up), {}))
        out.append(('start', dict(n=2, lo=lo, up=up, me=1, form='col'), {}))
    out.append(('start', dict(n=2, lo=[1, 1], up=[1, 1], mi=2), {}))
    out.append(('start', dict(n=2, lo=[0, 0], up=[0, 0], me=2, nobounds=True), {}))
    for h in (0, 1):
        out.append(('start', dict(n=1, lo=[1], up=[1], huge=h), {}))
    out.append(('start', dict(n=2, lo=[0, 0], up=[0, 0], huge=2, me=1), {}))
    out.append(('start', dict(n=3, lo=[1, 0, 1], up=[1, 0, 0]), {}))
    if tier == 'thorough':
        out.append(('start', dict(n=3, lo=[1, 1, 1], up=[1, 1, 1], me=1), {}))
        out.append(('start', dict(n=3, lo=[1, 1, 1], up=[1, 1, 1], mi=2), {}))
        out.append(('start', dict(n=2, lo=[1, 1], up=[1, 1], huge=1, me=1, mi=1), {}))
    return out
