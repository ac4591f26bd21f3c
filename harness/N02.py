"""Array helpers keep their documented meaning, NaN and infinity included."""
import numpy as np

BOUNDS = ('FP: every double (NaN, infinities and subnormals included) for up to 3 entries; selection helper: up to 5 entries; '
          'norms over exact reals up to 4 entries')
ASSUMPTIONS = ['FP harnesses: IEEE-754 binary64']


def isnan(v):
    return v != v


def pair(c):
    a, b = c.fp('a'), c.fp('b')
    R = c.mod('runtime')
    for nm, f, less in (('max', R.max_, lambda u, v: u >= v), ('min', R.min_, lambda u, v: u <= v)):
        r = f(a, b)
        c.check(nm + ' of two: NaN only when both are', isnan(r) == (isnan(a) & isnan(b)))
        c.check(nm + ' of two: one of the arguments', (r == a) | (r == b) | (isnan(a) & isnan(b)))
        c.check(nm + ' of two: extreme among the numbers', (isnan(a) | less(r, a)) & (isnan(b) | less(r, b)))


def arr(c):
    n = c.case['n']
    v = [c.fp('v%d' % i) for i in range(n)]
    allnan = isnan(v[0])
    for e in v[1:]:
        allnan = allnan & isnan(e)
    c.assume(~allnan if not isinstance(allnan, bool) else not allnan)
    a = c.array(v)
    if c.case.get('col'):
        a = a.reshape(-1, 1)
    R = c.mod('runtime')
    for nm, f, less in (('max', R.max_, lambda u, w: u >= w), ('min', R.min_, lambda u, w: u <= w)):
        r = f(a)
        one, ok = False, True
        for e in v:
            one = (r == e) | one
            ok = (isnan(e) | less(r, e)) & ok
        c.check(nm + ' of array: one of the entries', one)
        c.check(nm + ' of array: extreme, NaN ignored', ok)
        r2, k = f(a, nargout=2)
        c.check(nm + ' with position: same value', r2 == r)
        k = int(k)
        c.check(nm + ' with position: entry at that position', v[k] == r)
        for j in range(k):
            c.check(nm + ' with position: first such entry', ~(v[j] == r) if not isinstance(v[j] == r, (bool, np.bool_)) else v[j] != r)


def norms(c):
    n = c.case['n']
    v = c.vec('v', n, -10, 10)
    a = v.reshape(-1, 1) if c.case['shape'] == 'col' else v.reshape(1, -1) if c.case['shape'] == 'row' else v
    R = c.mod('runtime')
    r = R.norm_(a)
    c.check('Euclidean norm is not negative', r >= 0)
    c.eq('Euclidean norm', r * r, sum(e * e for e in v))
    if c.case['shape'] != 'flat':
        m = R.norm_(a, np.inf)
        one = False
        for e in v:
            c.check('maximum norm bounds every entry', abs(e) <= m)
            one = (abs(e) == m) | one
        c.check('maximum norm is attained', one)


def select(c):
    n = c.case['n']
    v = c.vec('v', n, -10, 10)
    t = c.real('t', -10, 10)
    R = c.mod('runtime')
    I = R.find_(v > t)
    got = [int(i) for i in np.asarray(I).ravel()] if len(I) else []
    want = [i for i in range(n) if bool(v[i] > t)]
    c.check('positions of the true entries, in order', got == want)


def stack(c):
    n = c.case['n']
    a, b = c.mat('a', 1, n, -10, 10), c.mat('b', 2, n, -10, 10)
    e = c.array([])
    R = c.mod('runtime')
    for lst in ([a, e, b], [e, a, b], [a, b, e], [e, a, e, e, b], [np.zeros((0, n)), a, b]):
        k = len(lst)
        r = R.concatenate_(lst)
        c.check('empty parts are skipped when stacking rows', r.shape == (3, n))
        c.eq('rows stacked in order', r, [x for x in a.ravel()] + [x for x in b.ravel()])
        c.check('argument list unchanged', len(lst) == k)
    r = R.concatenate_([a.T, e, b.T], axis=1)
    c.check('empty parts are skipped when stacking columns', r.shape == (n, 3))
    c.eq('columns stacked in order', r, np.concatenate([a, b]).T)
    c.check('all empty', R.isempty_(R.concatenate_([e, e])))


def cases(tier):
    out = [('pair', {}, {})]
    for n in (1, 2, 3):
        out.append(('arr', dict(n=n), {}))
        out.append(('arr', dict(n=n, col=1), {}))
    for n in (1, 2, 3, 4):
        for s in ('col', 'row', 'flat'):
            out.append(('norms', dict(n=n, shape=s), {}))
        out.append(('select', dict(n=n + 1), {}))
        out.append(('stack', dict(n=n), {}))
    return out
