"""Options: documented defaults, refusal of values out of their domain, everything else used unchanged."""
from . import front
from .common import Struct
import numpy as np

BOUNDS = 'every double (NaN excluded) for each numeric option, alone and together (integers in [-20,20] for verbosity and channel); every documented string in mixed case with blanks'
ASSUMPTIONS = ['NaN as an option value is not specified']
NUM = dict(dxmin=('pos', 1e-8), inf=('pos', float('inf')), miter=('pos', 1000), msimul=('pos', 1000), tol_grad=('tol', 1e-5),
           tol_feas=('tol', 1e-5), tol_bnds=('tol', 1e-5))
DEF = dict(fout=1, verbose=1, algo_descent=120, hess_approx=131, whichmodel=0, final_degree=201, bfgs_restart=0)
STR = dict(algo_descent=dict(powell='powell', wolfe='wolfe'), hess_approx=dict(bfgs='bfgs', model='model'),
           whichmodel=dict(subbasis='subbasis', frobnorm='frobnorm', l2norm='l2norm', regression='regression'),
           final_degree=dict(linear='linear', diagonal='diagonal', quadratic='quadratic'))


def lit(v):
    return v if isinstance(v, (int, float)) else v


def run(c, o):
    for nm in ('fprintf_',):
        c.stub('runtime', nm, lambda *a: -1)
    before = dict(o.__dict__)
    info, out, val = c.mod('sqpdfo_options').sqpdfo_options_(Struct(flag=None), o, nargout=3)
    c.check('options of the caller unchanged', set(o.__dict__) == set(before) and all(o.__dict__[k] is before[k] for k in before))
    return info, out, val


def expected(kind, v, dflt):
    """(refused, used value)"""
    if kind == 'pos':
        return v <= 0, v
    return v < 0, v


def numeric(c):
    names = c.case['names']
    o = Struct(verbose=0)
    v = {}
    for nm in names:
        v[nm] = c.fp(nm)
        c.assume(v[nm] == v[nm])
        setattr(o, nm, v[nm])
    info, out, val = run(c, o)
    bad = False
    for nm in names:
        kind, d = NUM[nm]
        b = (v[nm] <= 0) if kind == 'pos' else (v[nm] < 0)
        bad = b | bad if not isinstance(bad, bool) or bad else b
    if bool(info.flag == 1):
        c.cover('refused')
        c.check('refused only if a value is out of its domain', bad)
        return
    c.cover('accepted')
    c.check('flag of accepted options', info.flag == 0)
    c.check('values out of their domain are refused', (bad == False))  # noqa: E712
    for nm, (kind, d) in NUM.items():
        got = getattr(out, nm)
        if nm not in v:
            c.check('default of ' + nm, float(got) == d)
        elif kind == 'pos':
            c.check('value used unchanged: ' + nm, got == v[nm])
        else:
            c.check('value used, zero stands for the default: ' + nm, ((v[nm] > 0) & (got == v[nm])) | ((v[nm] == 0) & (got == d)))
    for nm, d in DEF.items():
        if nm != 'verbose':
            c.check('default of ' + nm, getattr(out, nm) == getattr(val, {'algo_descent': 'powell', 'hess_approx': 'model', 'whichmodel':
                    'subbasis', 'final_degree': 'diagonal'}[nm]) if nm in STR else getattr(out, nm) == d)


def levels(c):
    """verbosity and output channel fall back to their defaults"""
    nm = c.case['name']
    o = Struct(verbose=0)
    v = c.int_('v', -20, 20)
    setattr(o, nm, v)
    info, out, val = run(c, o)
    got = getattr(out, nm)
    c.check('accepted', info.flag == 0)
    ok = (v >= 0) & (v <= 6) if nm == 'verbose' else v >= 0
    c.check('used or replaced by the default', (ok & (got == v)) | ((ok == False) & (got == 1)))  # noqa: E712
    c.cover('done')


def strings(c):
    nm = c.case['name']
    words = list(STR[nm])
    w = c.choice('word', words + ['', 'none', words[0] + 'x', words[-1][:-1], 'x' + words[0]])
    style = c.choice('style', ['lower', 'upper', 'title', 'blank', 'inner'])
    s = dict(lower=w, upper=w.upper(), title=w.title(), blank='  ' + w + ' ', inner=w[:2] + ' ' + w[2:].upper())[style]
    o = Struct(verbose=0)
    setattr(o, nm, s)
    for other in ('tol_grad', 'miter'):
        if c.case.get('others'):
            setattr(o, other, 7)
    info, out, val = run(c, o)
    if w in words:
        c.cover('known')
        c.check('accepted', info.flag == 0)
        c.check('meaning of the string', getattr(out, nm) == getattr(val, STR[nm][w]))
        vals = [getattr(val, STR[nm][q]) for q in words]
        c.check('different strings mean different things', len(set(vals)) == len(vals))
    else:
        c.cover('unknown')
        c.check('refused', info.flag == 1)


def through(c):
    """what the main loop receives, and that a refusal happens before any evaluation"""
    r = front.Rec()
    front.install(c, r)
    f, cf = front.users(c, r, 0)
    o = Struct(verbose=0)
    v = {}
    for nm in c.case['names']:
        v[nm] = c.real(nm, -10, 2000)
        setattr(o, nm, v[nm])
    keep = dict(o.__dict__)
    front.call(c, r, o, f, c.mat('x0', 1, 1, -5, 5), None, None)
    for nm, q in keep.items():
        c.check('options of the caller unchanged', getattr(o, nm) is q)
    bad = False
    for nm in v:
        bad = bad or bool(v[nm] <= 0 if NUM[nm][0] == 'pos' else v[nm] < 0)
    if bad:
        c.cover('refused')
        c.check('refused', r.info.flag == 1 and not r.evals and not r.main)
        return
    c.cover('served')
    c.check('served', len(r.main) == 1)
    for nm, (kind, d) in NUM.items():
        got = getattr(r.main[0].options, nm)
        if nm not in v:
            c.check('default of ' + nm, float(got) == d)
        elif kind == 'tol' and bool(v[nm] == 0):
            c.check('default of ' + nm, float(got) == d)
        else:
            c.eq('value used: ' + nm, got, v[nm])


def none(c):
    """no options at all"""
    r = front.Rec()
    front.install(c, r)
    f, cf = front.users(c, r, 0)
    front.call(c, r, None, f, c.mat('x0', 1, 1, -5, 5), None, None)
    c.check('served', len(r.main) == 1)
    o = r.main[0].options
    for nm, (kind, d) in NUM.items():
        c.check('default of ' + nm, float(getattr(o, nm)) == d)
    c.cover('done')


def cases(tier):
    out = []
    for nm in NUM:
        out.append(('numeric', dict(names=[nm]), {}))
    out.append(('numeric', dict(names=[]), {}))
    out.append(('numeric', dict(names=['miter', 'msimul', 'tol_feas']), {}))
    out.append(('numeric', dict(names=['tol_grad', 'tol_feas', 'tol_bnds']), {}))
    out.append(('numeric', dict(names=['dxmin', 'inf', 'tol_grad']), {}))
    for nm in ('verbose', 'fout'):
        out.append(('levels', dict(name=nm), {}))
    for nm in STR:
        out.append(('strings', dict(name=nm), {}))
        out.append(('strings', dict(name=nm, others=1), {}))
    out.append(('through', dict(names=['miter', 'msimul']), {}))
    out.append(('through', dict(names=['tol_grad', 'tol_feas', 'tol_bnds']), {}))
    out.append(('none', dict(), {}))
    if tier == 'thorough':
        out.append(('numeric', dict(names=list(NUM)), {}))
    return out
