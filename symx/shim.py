"""numpy stand-in used by the code under symbolic execution.

SA is an object ndarray that behaves like a float64 array whose entries may be Sym scalars.
`np` (a SimpleNamespace-like module object) delegates to the real numpy except for the functions
that would otherwise lose symbolic entries.  Linear-algebra kernels on symbolic entries are replaced
by contracts (fresh unknowns constrained by the defining equations), listed in CONTRACTS.
"""
import builtins
import math
import types

import numpy as _np
import z3

from . import core
from .core import Sym, SymBool, is_sym

CONTRACTS_USED = set()


class SA(_np.ndarray):
    __array_priority__ = 2000

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return apply_ufunc(ufunc, *inputs, _method=method, **kw)

    def __setitem__(self, idx, val):
        idx = _cidx(idx)
        if isinstance(val, (list, tuple)):
            val = np_array(val)
        if isinstance(val, SymBool):
            val = 1.0 if val else 0.0
        if isinstance(val, _np.ndarray):
            tgt = _np.ndarray.__getitem__(self, idx)
            if not isinstance(tgt, _np.ndarray):
                if val.size != 1:
                    raise ValueError('setting an array element with a sequence.')
                val = val.reshape(-1)[0] if not isinstance(val, SA) else _np.ndarray.reshape(val, -1)[0]
            else:
                # float arrays silently drop leading length-1 axes of the value
                while val.ndim > tgt.ndim and val.shape[0] == 1:
                    val = val[0]
                val = _np.asarray(val, dtype=object)
                if val.ndim == 0:
                    val = val[()]
        _np.ndarray.__setitem__(self, idx, val)

    def __getitem__(self, idx):
        return _np.ndarray.__getitem__(self, _cidx(idx))

    def __bool__(self):
        if self.size == 0:
            return False
        if self.size > 1:
            raise ValueError('The truth value of an array with more than one element is ambiguous. '
                             'Use a.any() or a.all()')
        return bool(_np.ndarray.item(self))

    def __float__(self):
        if self.size != 1:
            raise TypeError('only size-1 arrays can be converted to Python scalars')
        return float(_np.ndarray.item(self))

    def __int__(self):
        if self.size != 1:
            raise TypeError('only size-1 arrays can be converted to Python scalars')
        return int(_np.ndarray.item(self))

    def __deepcopy__(self, memo):
        return self.copy()

    def __abs__(self):
        return apply_ufunc(_np.absolute, self)

    def __pow__(self, p):
        return _elem(lambda a: _pw(a, p), self)

    def __contains__(self, v):
        return bool((self == v).any())

    def astype(self, dt, *a, **k):
        if _isfloat(dt) or dt is object:
            return self.copy()
        if dt in (bool, _np.bool_, 'bool'):
            return _boolarr(self)
        return _np.array([builtins.int(core.to_int(v)) if not is_sym(v) else core.to_int(v)
                          for v in self.ravel()], dtype=object).reshape(self.shape) \
            if _has_sym(self) else _np.asarray(self).astype(float).astype(dt, *a, **k)

    def any(self, axis=None, *a, **k):
        return _boolarr(self).any(axis)

    def all(self, axis=None, *a, **k):
        return _boolarr(self).all(axis)

    def nonzero(self):
        return _boolarr(self).nonzero()

    def max(self, axis=None, *a, **k):
        return _reduce(self, axis, lambda x, y: core.smax(x, y, False))

    def min(self, axis=None, *a, **k):
        return _reduce(self, axis, lambda x, y: core.smin(x, y, False))

    def sum(self, axis=None, *a, **k):
        if self.size == 0 and axis is None:
            return 0.0
        return _wrap(_np.add.reduce(_np.asarray(self), axis=axis))

    def prod(self, axis=None, *a, **k):
        return _wrap(_np.multiply.reduce(_np.asarray(self), axis=axis))

    def mean(self, axis=None, *a, **k):
        n = self.size if axis is None else self.shape[axis]
        return self.sum(axis) / n

    def argmax(self, axis=None, *a, **k):
        return _arg(self, axis, True, False)

    def argmin(self, axis=None, *a, **k):
        return _arg(self, axis, False, False)

    def argsort(self, *a, **k):
        return argsort(self)

    def sort(self, *a, **k):
        if self.ndim != 1:
            core.cur().poison('sort of nd symbolic array')
        order = argsort(self)
        _np.ndarray.__setitem__(self, slice(None), _np.asarray(self)[order])

    def dot(self, o, *a):
        return dot(self, o)

    def __matmul__(self, o):
        return dot(self, o)

    def __rmatmul__(self, o):
        return dot(o, self)

    def round(self, *a):
        core.cur().poison('round')

    def conj(self):
        return self
    conjugate = conj

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return np_zeros(self.shape)

    def tolist(self):
        return _np.asarray(self).tolist()

    def __str__(self):
        return '<symarray %s>' % (self.shape,)
    __repr__ = __str__

    def __format__(self, s):
        return str(self)


def _pw(a, p):
    if isinstance(p, _np.ndarray):
        if p.size != 1:
            core.cur().poison('array exponent')
        p = p.item()
    if is_sym(a):
        return a ** p
    try:
        return float(_np.float64(a) ** p)
    except TypeError:
        return a ** p


def _cidx(idx):
    """make an index concrete"""
    if isinstance(idx, tuple):
        return tuple(_cidx(i) for i in idx)
    if isinstance(idx, SymBool):
        return bool(idx)
    if isinstance(idx, Sym):
        return idx.__index__()
    if isinstance(idx, SA):
        flat = _np.asarray(idx).ravel()
        if flat.size and all(isinstance(v, (bool, _np.bool_, SymBool)) for v in flat):
            return _boolarr(idx)
        if flat.size == 0:
            return _np.zeros(idx.shape, dtype=int)
        if any(isinstance(v, (float, _np.floating)) for v in flat):
            raise IndexError('arrays used as indices must be of integer (or boolean) type')
        return _np.array([core.to_int(v, force=True) if is_sym(v) else int(v) for v in flat],
                         dtype=int).reshape(idx.shape)
    return idx


def _isfloat(dt):
    if dt is None:
        return True
    if dt is symfloat:
        return True
    try:
        return _np.dtype(dt).kind == 'f'
    except TypeError:
        return False


def _wrap(x):
    if isinstance(x, _np.ndarray) and x.dtype == object:
        if x.ndim == 0:
            return x[()]
        return x.view(SA)
    if isinstance(x, tuple):
        return tuple(_wrap(v) for v in x)
    return x


def _plain(x):
    if isinstance(x, SA):
        return x.view(_np.ndarray)
    if isinstance(x, Sym):
        a = _np.empty((), dtype=object)
        a[()] = x
        return a
    return x


def _has_sym(a):
    return any(isinstance(v, (Sym, SymBool)) for v in _np.asarray(a, dtype=object).ravel())


def concrete(a):
    """real float ndarray of an SA without symbolic entries"""
    return _np.array(_np.asarray(a, dtype=object).tolist(), dtype=float).reshape(_np.shape(a))


def _boolarr(a):
    a = _np.asarray(a)
    if a.dtype != object:
        return a.astype(bool)
    out = _np.empty(a.shape, dtype=bool)
    for i in _np.ndindex(a.shape):
        out[i] = bool(a[i] != 0) if not isinstance(a[i], (bool, _np.bool_, SymBool)) else bool(a[i])
    return out


def _elem(f, *arrs):
    bs = _np.broadcast_arrays(*[_np.asarray(_plain(a), dtype=object) for a in arrs], subok=False)
    out = _np.empty(bs[0].shape, dtype=object)
    for i in _np.ndindex(out.shape):
        out[i] = f(*[b[i] for b in bs])
    return _wrap(out)


def _belem(f, *arrs):
    r = _elem(f, *arrs)
    if isinstance(r, SA):
        return _boolarr(r)
    return r


_SUBST = None


def _c(x, f):
    """concrete scalar through a numpy function"""
    r = f(x)
    return float(r) if isinstance(r, _np.floating) else r


def _scalar_un(fsym, fnp):
    return lambda x: fsym(x) if is_sym(x) else _c(_np.float64(x) if isinstance(x, (float, int)) and not
                                                  isinstance(x, bool) and fnp is not _np.absolute else x, fnp)


def _ssign(x):
    if not is_sym(x):
        return float(_np.sign(x))
    return Sym(z3.If(x.t > 0, z3.RealVal(1), z3.If(x.t < 0, z3.RealVal(-1), z3.RealVal(0)))) if x.k != 'f' \
        else core.cur().poison('sign fp')


def _un(fsym, fnp):
    g = _scalar_un(fsym, fnp)
    return lambda a: _elem(g, a)


def _poison(name):
    def f(*a, **k):
        core.cur().poison(name + ' of symbolic value')
    return f


def _div(a, b):
    if is_sym(a) or is_sym(b):
        return a / b
    return float(_np.true_divide(_np.float64(a), _np.float64(b)))


def _floordiv(a, b):
    if is_sym(a) or is_sym(b):
        return a // b
    return _np.floor_divide(a, b)


_UF = {
    _np.sqrt: _un(core.ssqrt, _np.sqrt),
    _np.absolute: _un(core.sabs, _np.absolute),
    _np.fabs: _un(core.sabs, _np.fabs),
    _np.sign: _un(_ssign, _np.sign),
    _np.square: lambda a: _elem(lambda x: x * x, a),
    _np.isnan: lambda a: _belem(core.isnan, a),
    _np.isinf: lambda a: _belem(core.isinf, a),
    _np.isfinite: lambda a: _belem(lambda x: core.NOT(core.OR(core.isnan(x), core.isinf(x))), a),
    _np.fmax: lambda a, b: _elem(core.smax, a, b),
    _np.fmin: lambda a, b: _elem(core.smin, a, b),
    _np.maximum: lambda a, b: _elem(lambda x, y: core.smax(x, y, False), a, b),
    _np.minimum: lambda a, b: _elem(lambda x, y: core.smin(x, y, False), a, b),
    _np.logical_and: lambda a, b: _boolarr(a) & _boolarr(b),
    _np.logical_or: lambda a, b: _boolarr(a) | _boolarr(b),
    _np.logical_xor: lambda a, b: _boolarr(a) ^ _boolarr(b),
    _np.logical_not: lambda a: ~_boolarr(a),
    _np.true_divide: lambda a, b: _elem(_div, a, b),
    _np.floor_divide: lambda a, b: _elem(_floordiv, a, b),
    _np.power: lambda a, p: _elem(lambda x: _pw(x, p), a),
    _np.negative: lambda a: _elem(lambda x: -x, a),
    _np.positive: lambda a: _elem(lambda x: x, a),
    _np.conjugate: lambda a: a,
    _np.exp: _un(_poison('exp'), _np.exp),
    _np.log: _un(_poison('log'), _np.log),
    _np.log10: _un(_poison('log10'), _np.log10),
    _np.sin: _un(_poison('sin'), _np.sin),
    _np.cos: _un(_poison('cos'), _np.cos),
    _np.floor: _un(_poison('floor'), _np.floor),
    _np.ceil: _un(_poison('ceil'), _np.ceil),
    _np.rint: _un(_poison('rint'), _np.rint),
    _np.matmul: lambda a, b: dot(a, b),
    _np.reciprocal: lambda a: _elem(lambda x: _div(1.0, x), a),
    _np.hypot: lambda a, b: _elem(lambda x, y: core.ssqrt(x * x + y * y), a, b),
}
_CMPS = (_np.less, _np.less_equal, _np.greater, _np.greater_equal, _np.equal, _np.not_equal)
_CMPF = {_np.less: lambda a, b: a < b, _np.less_equal: lambda a, b: a <= b,
         _np.greater: lambda a, b: a > b, _np.greater_equal: lambda a, b: a >= b,
         _np.equal: lambda a, b: a == b, _np.not_equal: lambda a, b: a != b}
_RED = {_np.fmax: core.smax, _np.fmin: core.smin,
        _np.maximum: lambda x, y: core.smax(x, y, False), _np.minimum: lambda x, y: core.smin(x, y, False)}


def apply_ufunc(ufunc, *inputs, _method='__call__', out=None, where=True, **kw):
    kw.pop('dtype', None)
    kw.pop('casting', None)
    if where is not True:
        core.cur().poison('ufunc where=')
    ins = [_plain(i) for i in inputs]
    if _method == '__call__':
        if ufunc in _UF:
            r = _UF[ufunc](*ins)
        elif ufunc in _CMPS:
            r = _belem(_CMPF[ufunc], *ins)
        else:
            r = ufunc(*[_np.asarray(i, dtype=object) if isinstance(i, _np.ndarray) and i.dtype.kind in 'fiub'
                        else i for i in ins], **kw)
    elif _method == 'reduce' and ufunc in _RED:
        r = _reduce(inputs[0], kw.get('axis', 0), _RED[ufunc])
    elif _method == 'reduce' and ufunc in (_np.logical_and, _np.logical_or):
        r = ufunc.reduce(_boolarr(inputs[0]), **kw)
    else:
        r = getattr(ufunc, _method)(*ins, **kw)
    r = _wrap(r)
    if out is not None:
        o = out[0] if isinstance(out, tuple) else out
        if isinstance(o, SA):
            _np.ndarray.__setitem__(o, Ellipsis, _plain(r) if isinstance(r, _np.ndarray) else r)
            return o
        if isinstance(r, _np.ndarray):
            o[...] = concrete(r) if r.dtype == object else r
        else:
            o[...] = r
        return o
    return r


def _reduce(a, axis, f):
    a = _np.asarray(a, dtype=object)
    if isinstance(axis, tuple) and len(axis) == a.ndim:
        axis = None
    if axis is None:
        fl = a.ravel()
        if fl.size == 0:
            raise ValueError('zero-size array to reduction operation')
        r = fl[0]
        for v in fl[1:]:
            r = f(r, v)
        return r
    a = _np.moveaxis(a, axis, 0)
    if a.shape[0] == 0:
        raise ValueError('zero-size array to reduction operation')
    out = _np.empty(a.shape[1:], dtype=object)
    for i in _np.ndindex(out.shape):
        r = a[(0,) + i]
        for k in range(1, a.shape[0]):
            r = f(r, a[(k,) + i])
        out[i] = r
    return _wrap(out)


def _arg(a, axis, mx, ign):
    a = _np.asarray(a, dtype=object)
    if axis is not None and a.ndim > 1:
        core.cur().poison('argmax with axis')
    fl = a.ravel()
    if fl.size == 0:
        raise ValueError('attempt to get argmax of an empty sequence')
    best = None
    for i, v in enumerate(fl):
        if core.isnan(v):
            if ign:
                continue
            return i
        if best is None:
            best = i
        elif (v > fl[best]) if mx else (v < fl[best]):
            best = i
    if best is None:
        raise ValueError('All-NaN slice encountered')
    return best


def argsort(a, axis=-1, kind=None):
    a = _np.asarray(a, dtype=object)
    if a.ndim == 2 and 1 in a.shape and a.shape[axis] == a.size:
        return argsort(a.ravel()).reshape(a.shape)
    if a.ndim == 2 and a.size == 0 or a.ndim == 2 and a.shape[axis] == 1:
        return _np.zeros(a.shape, dtype=int)
    if a.ndim != 1:
        core.cur().poison('argsort nd')
    idx = []
    for i, v in enumerate(a):      # stable insertion by comparisons (NaN last)
        p = len(idx)
        if not core.isnan(v):
            while p > 0 and (core.isnan(a[idx[p - 1]]) or bool(v < a[idx[p - 1]])):
                p -= 1
        idx.insert(p, i)
    return _np.array(idx, dtype=int)


def dot(a, b, out=None):
    a, b = _plain(a), _plain(b)
    if not isinstance(a, _np.ndarray):
        a = _np.asarray(a)
    if not isinstance(b, _np.ndarray):
        b = _np.asarray(b)
    if a.dtype != object and b.dtype != object:
        return _np.dot(a, b)
    if a.ndim == 0 or b.ndim == 0:
        return apply_ufunc(_np.multiply, a, b)
    a = a.astype(object)
    b = b.astype(object)
    if a.shape[-1] != (b.shape[-2] if b.ndim > 1 else b.shape[0]):
        raise ValueError('shapes %s and %s not aligned' % (a.shape, b.shape))
    A = a if a.ndim > 1 else a.reshape(1, -1)
    B = b if b.ndim > 1 else b.reshape(-1, 1)
    if A.ndim > 2 or B.ndim > 2:
        core.cur().poison('dot nd')
    R = _np.empty((A.shape[0], B.shape[1]), dtype=object)
    for i in range(A.shape[0]):
        for j in range(B.shape[1]):
            s = 0.0
            for k in range(A.shape[1]):
                s = s + A[i, k] * B[k, j]
            R[i, j] = s
    if a.ndim == 1 and b.ndim == 1:
        return R[0, 0]
    if a.ndim == 1:
        R = R[0]
    elif b.ndim == 1:
        R = R[:, 0]
    return R.view(SA)


# ---------------------------------------------------------------- constructors
def _mkfloat(x):
    return x


def _dt(d):
    return builtins.int if d is symint else builtins.float if d is symfloat else d


def np_zeros(shape, dtype=None, *a, **k):
    if _isfloat(dtype):
        return _full(shape, 0.0)
    return _np.zeros(shape, _dt(dtype))


def _full(shape, v):
    if isinstance(shape, _np.ndarray):
        shape = tuple(int(s) for s in shape.ravel()) if shape.ndim else int(shape)
    o = _np.empty(shape, dtype=object)
    o[...] = v
    return o.view(SA)


def np_ones(shape, dtype=None, *a, **k):
    if _isfloat(dtype):
        return _full(shape, 1.0)
    return _np.ones(shape, _dt(dtype))


def np_full(shape, v, dtype=None, *a, **k):
    if isinstance(v, (_np.ndarray,)) and v.size == 1:
        v = v.reshape(-1)[0]
    if is_sym(v) or (dtype is None and isinstance(v, (float, _np.floating))) or (dtype is not None and _isfloat(dtype)):
        return _full(shape, v)
    return _np.full(shape, v, _dt(dtype))


def np_eye(n, m=None, k=0, dtype=None, *a, **kk):
    return fl(_np.eye(n, m, k))


def fl(a):
    """float ndarray -> SA"""
    if isinstance(a, _np.ndarray) and a.dtype.kind == 'f':
        o = _np.empty(a.shape, dtype=object)
        if a.size:
            o[...] = a.tolist() if a.ndim else float(a)
        return o.view(SA)
    if isinstance(a, tuple):
        return tuple(fl(x) for x in a)
    return a


def _unnest(x):
    if isinstance(x, SA):
        return x.view(_np.ndarray)
    if isinstance(x, (list, tuple)):
        return [_unnest(v) for v in x]
    return x


def np_array(x, dtype=None, copy=True, order=None, subok=False, ndmin=0, like=None):
    if isinstance(x, SA):
        r = _np.array(x.view(_np.ndarray), dtype=object, copy=copy, ndmin=ndmin).view(SA)
        if dtype is not None and not _isfloat(dtype) and dtype is not object:
            return r.astype(dtype)
        return r
    if isinstance(x, Sym):
        return core._wrap0(x)
    if isinstance(x, _np.ndarray) and x.dtype != object:
        r = _np.array(x, dtype=None if dtype is symfloat else _dt(dtype), ndmin=ndmin)
        if dtype is symfloat:
            r = r.astype(float)
        return fl(r)
    if isinstance(x, (list, tuple, range)):
        y = _unnest(list(x))
        leaves = []
        _leaves(y, leaves)
        if any(isinstance(v, (Sym, SymBool)) for v in leaves):
            if all(isinstance(v, (SymBool, bool, _np.bool_)) for v in leaves):
                return _boolarr(_build(y))
            return _build(y)
        if any(isinstance(v, _np.ndarray) and v.dtype == object for v in _arrs(y)):
            return _build(y)
        r = _np.array(y, dtype=None if dtype is symfloat else _dt(dtype), ndmin=ndmin)
        if dtype is symfloat:
            r = r.astype(float)
        return fl(r) if r.dtype.kind == 'f' else r
    r = _np.array(x, dtype=None if dtype is symfloat else _dt(dtype), ndmin=ndmin)
    return fl(r) if r.dtype.kind == 'f' else r


def _arrs(y):
    for v in y:
        if isinstance(v, list):
            yield from _arrs(v)
        else:
            yield v


def _leaves(y, out):
    for v in y:
        if isinstance(v, list):
            _leaves(v, out)
        elif isinstance(v, _np.ndarray) and v.dtype == object:
            out.extend(v.ravel().tolist())
        else:
            out.append(v)


def _shape(y):
    if isinstance(y, list):
        ss = [_shape(v) for v in y]
        if not ss:
            return (0,)
        if any(s != ss[0] for s in ss):
            raise ValueError('setting an array element with a sequence. The requested array has an '
                             'inhomogeneous shape')
        return (len(y),) + ss[0]
    if isinstance(y, _np.ndarray):
        return y.shape
    return ()


def _fill(o, y):
    if isinstance(y, list):
        for i, v in enumerate(y):
            if o.ndim == 1:
                o[i] = v if not isinstance(v, _np.ndarray) else v[()]
            else:
                _fill(o[i], v)
    else:
        o[...] = y


def _build(y):
    o = _np.empty(_shape(y), dtype=object)
    _fill(o, y)
    for i in _np.ndindex(o.shape):
        if isinstance(o[i], SymBool):
            o[i] = 1.0 if o[i] else 0.0
    return o.view(SA)


def np_asarray(x, dtype=None, *a, **k):
    if isinstance(x, SA):
        return x
    return np_array(x, dtype)


def _like(v):
    def f(a, dtype=None, *b, **k):
        if isinstance(a, (SA, Sym)) or _np.asarray(a).dtype.kind == 'f' or (dtype is not None and _isfloat(dtype)):
            if isinstance(a, Sym) or not isinstance(a, _np.ndarray) and _np.ndim(a) == 0:
                return core._wrap0(v)
            return _full(_np.shape(a), v)
        return (_np.zeros_like if v == 0 else _np.ones_like)(a, dtype)
    return f


def _seq(fn):
    def f(arrs, *a, **k):
        arrs = [_plain(np_asarray(x)) for x in arrs]
        return _wrap(fn([_np.asarray(x, dtype=object) for x in arrs] if any(
            isinstance(x, _np.ndarray) and x.dtype == object for x in arrs) else arrs, *a, **k))
    return f


def _all_f(fn):
    """structural function: works on object arrays unchanged"""
    def f(*a, **k):
        conv = [np_asarray(x) if isinstance(x, (list, Sym)) else x for x in a]
        r = fn(*[_plain(x) for x in conv], **k)
        return _wrap(fl(r)) if not isinstance(r, tuple) else tuple(_wrap(fl(x)) for x in r)
    return f


def np_diag(v, k=0):
    v = np_asarray(v)
    if isinstance(v, SA):
        if v.ndim == 1:
            n = v.size + abs(k)
            o = _full((n, n), 0.0)
            for i in range(v.size):
                o[i + max(0, -k), i + max(0, k)] = v[i]
            return o
        return _wrap(_np.array(_np.diag(v.view(_np.ndarray), k)))
    return fl(_np.diag(v, k))


def np_append(a, b, axis=None):
    if axis is None:
        return np_concatenate([np_asarray(a).ravel(), np_asarray(b).ravel()])
    return np_concatenate([a, b], axis=axis)


np_concatenate = _seq(_np.concatenate)


def np_where(c, *xy):
    cb = _boolarr(np_asarray(c))
    if not xy:
        return _np.where(cb)
    x, y = [_np.asarray(_plain(np_asarray(v)), dtype=object) for v in xy]
    return _wrap(_np.where(cb, x, y))


def np_sum(a, axis=None, *b, **k):
    a = np_asarray(a)
    return a.sum(axis)


def _red(mx, ign):
    def f(a, axis=None, *b, **k):
        a = np_asarray(a)
        if not isinstance(a, SA):
            return ((_np.nanmax if ign else _np.max) if mx else (_np.nanmin if ign else _np.min))(a, axis)
        return _reduce(a, axis, lambda x, y: (core.smax if mx else core.smin)(x, y, ign))
    return f


def _argred(mx, ign):
    def f(a, axis=None, *b, **k):
        return _arg(np_asarray(a), axis, mx, ign)
    return f


def np_any(a, axis=None, *b, **k):
    return _boolarr(np_asarray(a)).any(axis)


def np_all(a, axis=None, *b, **k):
    return _boolarr(np_asarray(a)).all(axis)


def np_sort(a, axis=-1, *b, **k):
    a = np_asarray(a)
    if not isinstance(a, SA):
        return _np.sort(a, axis)
    if a.ndim == 2:
        out = a.copy()
        if axis in (1, -1):
            for i in range(a.shape[0]):
                out[i, :] = np_sort(a[i, :])
        else:
            for j in range(a.shape[1]):
                out[:, j] = np_sort(a[:, j])
        return out
    return _wrap(_np.asarray(a)[argsort(a)])


def np_cumsum(a, axis=None, *b, **k):
    a = np_asarray(a)
    if not isinstance(a, SA):
        return _np.cumsum(a, axis)
    return _wrap(_np.add.accumulate(_np.asarray(a).ravel() if axis is None else _np.asarray(a),
                                    axis=0 if axis is None else axis))


def np_nan_to_num(a, *b, **k):
    return _elem(lambda v: v if is_sym(v) else float(_np.nan_to_num(v)), a)


def np_clip(a, lo, hi, *b, **k):
    return _UF[_np.minimum](_UF[_np.maximum](a, lo), hi)


def np_isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    return _belem(lambda x, y: abs(x - y) <= atol + rtol * abs(y), a, b)


def np_array_equal(a, b, **k):
    a, b = np_asarray(a), np_asarray(b)
    return a.shape == b.shape and bool(_np.all(_belem(lambda x, y: x == y, a, b)))


def np_vdot(a, b):
    return dot(np_asarray(a).ravel(), np_asarray(b).ravel())


def np_outer(a, b):
    return dot(np_asarray(a).reshape(-1, 1), np_asarray(b).reshape(1, -1))


def np_setdiff1d(a, b, *k, **kk):
    a, b = np_asarray(a), np_asarray(b)
    for x in (a, b):
        if isinstance(x, SA) and _has_sym(x):
            core.cur().poison('setdiff of symbolic')
    conv = [concrete(x) if isinstance(x, SA) else x for x in (a, b)]
    return fl(_np.setdiff1d(*conv))


def np_finfo(*a):
    return _np.finfo(float)


def np_isreal(a):
    return _np.ones(_np.shape(_plain(np_asarray(a))), dtype=bool) if not is_sym(a) else True


def np_ufunc(u):
    def f(*a, **k):
        if any(isinstance(x, (SA, Sym)) or isinstance(x, (list, tuple)) and _deep(x) for x in a):
            return apply_ufunc(u, *[np_asarray(x) if isinstance(x, (list, tuple)) else x for x in a], **k)
        r = u(*a, **k)
        return fl(r)
    f.reduce = lambda a, *b, **k: apply_ufunc(u, np_asarray(a), *b, _method='reduce', **k)
    f._ufunc = u
    return f


def _deep(x):
    out = []
    _leaves(_unnest(list(x)), out)
    return any(isinstance(v, (Sym, SymBool)) for v in out)


def np_isscalar(x):
    return is_sym(x) or _np.isscalar(x)


# ---------------------------------------------------------------- linear algebra
def la_norm(x, ord=None, axis=None, keepdims=False):
    x = np_asarray(x)
    if not isinstance(x, SA) or not _has_sym(x):
        return fl(_np.linalg.norm(concrete(x), ord, axis, keepdims)) if x.size else \
            _np.linalg.norm(_np.asarray(x, dtype=float), ord, axis)
    if axis is not None:
        if x.ndim != 2:
            core.cur().poison('norm axis nd')
        cols = x.T if axis in (0, -2) else x
        r = np_array([la_norm(cols[i], ord) for i in range(cols.shape[0])])
        return r
    a = _np.asarray(x)
    if a.ndim == 2 and ord in (2, -2) and 1 not in a.shape:
        s = la_svd(x, compute_uv=False)
        return s[0] if ord == 2 else s[-1]
    if a.ndim == 2 and ord in (_np.inf, 1):
        ax = 1 if ord == _np.inf else 0
        return _reduce(np_sum(apply_ufunc(_np.absolute, x), axis=ax), None, lambda p, q: core.smax(p, q, False))
    v = a.ravel()
    if ord in (None, 2, 'fro'):
        return core.ssqrt(sum((e * e for e in v[1:]), v[0] * v[0]), nonneg=True)
    if ord == _np.inf:
        return _reduce(apply_ufunc(_np.absolute, x), None, lambda p, q: core.smax(p, q, False))
    if ord == 1:
        return np_sum(apply_ufunc(_np.absolute, x))
    core.cur().poison('norm order %r' % (ord,))


def det(A):
    A = _np.asarray(A, dtype=object)
    n = A.shape[0]
    if n == 0:
        return 1.0
    if n == 1:
        return A[0, 0]
    r = 0.0
    for j in range(n):
        m = _np.delete(_np.delete(A, 0, 0), j, 1)
        c = A[0, j] * det(m)
        r = r + c if j % 2 == 0 else r - c
    return r


def _exact_inv(A):
    from fractions import Fraction as F
    n = A.shape[0]
    M = [[F(float(v)) for v in r] + [F(int(i == j)) for j in range(n)] for i, r in enumerate(A)]
    for k in range(n):
        p = max(range(k, n), key=lambda i: abs(M[i][k]))
        if M[p][k] == 0:
            raise _np.linalg.LinAlgError('Singular matrix')
        M[k], M[p] = M[p], M[k]
        d = M[k][k]
        M[k] = [v / d for v in M[k]]
        for i in range(n):
            if i != k and M[i][k] != 0:
                f = M[i][k]
                M[i] = [v - f * w for v, w in zip(M[i], M[k])]
    o = _np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            v = M[i][n + j]
            # coefficients below 2^-80 relative precision are kept as 2^-200-grid rationals to bound their size
            v = F(round(v * (1 << 200)), 1 << 200)
            o[i, j] = 0.0 if v == 0 else Sym(z3.RealVal(v))
    return o.view(SA)


def la_solve(A, b):
    A, b = np_asarray(A), np_asarray(b)
    if A.ndim != 2 or A.shape[0] != A.shape[1]:
        raise _np.linalg.LinAlgError('Last 2 dimensions of the array must be square')
    n = A.shape[0]
    if not _has_sym(A):
        Ac = concrete(A)
        if not _has_sym(b):
            return fl(_np.linalg.solve(Ac, concrete(b)))
        if _np.all(Ac == _np.diag(_np.diag(Ac))) and _np.all(_np.diag(Ac) != 0):
            d = _np.diag(Ac)
            return _elem(_div, b, d.reshape((-1, 1)) if b.ndim == 2 else d)
        return dot(_exact_inv(Ac), b)
    if n == 1:
        a = A[0, 0]
        if core.is_sym(a) and core.cur().branch((a == 0).t) if isinstance(a == 0, SymBool) else a == 0:
            raise _np.linalg.LinAlgError('Singular matrix')
        return _elem(_div, b, a)
    c = core.cur()
    if c.opt('singular', 'raise') == 'assume':
        c.note('assumed nonsingular %dx%d system' % (n, n))
    elif n <= c.opt('detmax', 3):
        dt = det(A)
        z = dt == 0
        if bool(z):
            raise _np.linalg.LinAlgError('Singular matrix')
    else:
        c.note('assumed nonsingular %dx%d system' % (n, n))
    B = b if b.ndim == 2 else b.reshape(-1, 1)
    if n == B.shape[1] and n > 1 and all(not is_sym(v) or z3.is_rational_value(z3.simplify(v.t)) for v in _np.asarray(B).ravel()):
        CONTRACTS_USED.add('linalg.solve with constant square right-hand side: W B with A W = W A = I (nonsingular A)')
        W = _np.empty((n, n), dtype=object)
        for i in _np.ndindex(n, n):
            W[i] = Sym(c.fresh('inv'))
        W = W.view(SA)
        c.add_eqs(dot(A, W), fl(_np.eye(n)))
        c.add_eqs(dot(W, A), fl(_np.eye(n)))
        return dot(W, B)
    CONTRACTS_USED.add('linalg.solve: fresh x with A x = b (nonsingular A)')
    X = _np.empty((n, B.shape[1]), dtype=object)
    for j in range(B.shape[1]):
        for i in range(n):
            X[i, j] = Sym(c.fresh('solve'))
    X = X.view(SA)
    AX = dot(A, X)
    c.add_eqs(AX, B)
    return X if b.ndim == 2 else X[:, 0]


def la_inv(A):
    A = np_asarray(A)
    if not _has_sym(A):
        return fl(_np.linalg.inv(concrete(A)))
    n = A.shape[0]
    return la_solve(A, fl(_np.eye(n)))


def la_qr(A, mode='reduced'):
    A = np_asarray(A)
    if not _has_sym(A):
        return fl(tuple(_np.linalg.qr(concrete(A), mode)))
    CONTRACTS_USED.add('linalg.qr: A = Q R with a fixed generic rational orthogonal Q (R not forced triangular)')
    n, m = A.shape
    if n < m:
        core.cur().note('qr of wide matrix')
    if n > m and mode == 'reduced':
        core.cur().poison('reduced qr of tall symbolic matrix')
    Q = rational_orthogonal(n)
    return Q, dot(Q.T, A)


class _Q:
    """exact rational constant usable in Sym arithmetic"""


def rational_orthogonal(n):
    from fractions import Fraction as F
    M = [[F(int(i == j)) for j in range(n)] for i in range(n)]
    trip = [(F(3, 5), F(4, 5)), (F(5, 13), F(12, 13)), (F(8, 17), F(15, 17)), (F(7, 25), F(24, 25)),
            (F(20, 29), F(21, 29))]
    k = 0
    for p in range(n):
        for q in range(p + 1, n):
            cc, ss = trip[k % len(trip)]
            k += 1
            for i in range(n):
                a, b = M[i][p], M[i][q]
                M[i][p], M[i][q] = cc * a - ss * b, ss * a + cc * b
    o = _np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            o[i, j] = Sym(z3.RealVal(M[i][j])) if M[i][j].denominator != 1 else float(M[i][j])
    return o.view(SA)


def la_svd(A, full_matrices=True, compute_uv=True, hermitian=False):
    A = np_asarray(A)
    if not _has_sym(A):
        if A.size == 0:
            return fl(_np.linalg.svd(_np.asarray(A, dtype=float), full_matrices, compute_uv))
        return fl(_np.linalg.svd(concrete(A), full_matrices, compute_uv))
    c = core.cur()
    h = c.opt('svd')
    if h:
        return h(A, full_matrices, compute_uv)
    n, m = A.shape
    if n == 1 and m == 1:
        a = A[0, 0]
        s = np_array([core.sabs(a)])
        if not compute_uv:
            return s
        u = _full((1, 1), 1.0 if bool(a >= 0) else -1.0)
        return u, s, _full((1, 1), 1.0)
    if 1 in (n, m):
        v = A.reshape(-1)
        nv = la_norm(v)
        if not compute_uv:
            return np_array([nv])
        if bool(nv == 0) or not full_matrices:
            c.poison('svd of zero vector')
        if max(n, m) == 2:
            a, b = v[0] / nv, v[1] / nv
            W = np_array([[a, b], [-b, a]])
            if n == 1:
                return _full((1, 1), 1.0), np_array([nv]), W
            return W.T, np_array([nv]), _full((1, 1), 1.0)
    if n == m == 2:
        CONTRACTS_USED.add('linalg.svd 2x2: A = U S V^T, U,V orthogonal, s1>=s2>=0')
        s1, s2 = Sym(c.fresh('sv')), Sym(c.fresh('sv'))
        fro = sum(e * e for e in _np.asarray(A).ravel())
        d = det(A)
        c.add_def(z3.And(s1.t >= s2.t, s2.t >= 0, (s1 * s1 + s2 * s2).t == core._realt(fro),
                         (s1 * s2).t == core._realt(core.sabs(d))))
        if not compute_uv:
            return np_array([s1, s2])
        U = _rot2(c)
        V = _rot2(c)
        # allow improper U by sign of det
        sg = 1.0 if bool(d >= 0) else -1.0
        U = dot(U, np_array([[1.0, 0.0], [0.0, sg]]))
        S = np_array([[s1, 0.0], [0.0, s2]])
        c.add_eqs(dot(dot(U, S), V.T), A)
        return U, np_array([s1, s2]), V.T
    c.poison('svd %dx%d' % (n, m))


def _rot2(c):
    a, b = Sym(c.fresh('cs')), Sym(c.fresh('sn'))
    c.add_def((a * a + b * b).t == 1)
    return np_array([[a, -b], [b, a]])


def la_eigh(A, UPLO='L'):
    A = np_asarray(A)
    if not _has_sym(A):
        r = _np.linalg.eigh(concrete(A))
        return fl(r[0]), fl(r[1])
    c = core.cur()
    h = c.opt('eigh')
    if h:
        return h(A)
    n = A.shape[0]
    if n == 1:
        return np_array([A[0, 0]]), _full((1, 1), 1.0)
    if n == 2:
        CONTRACTS_USED.add('linalg.eigh 2x2: lower triangle of A = V D V^T, V orthogonal, d1<=d2')
        d1, d2 = Sym(c.fresh('ev')), Sym(c.fresh('ev'))
        V = _rot2(c)
        D = np_array([[d1, 0.0], [0.0, d2]])
        R = dot(dot(V, D), V.T)
        c.add_def(d1.t <= d2.t)
        off = A[1, 0] if UPLO == 'L' else A[0, 1]
        c.add_eqs(np_array([R[0, 0], R[1, 0], R[1, 1]]), np_array([A[0, 0], off, A[1, 1]]))
        return np_array([d1, d2]), V
    c.poison('eigh %d' % n)


def la_eigvalsh(A, UPLO='L'):
    return la_eigh(A, UPLO)[0]


def la_cholesky(A):
    A = np_asarray(A)
    if not _has_sym(A):
        return fl(_np.linalg.cholesky(concrete(A)))
    n = A.shape[0]
    L = _full((n, n), 0.0)
    for j in range(n):
        s = A[j, j]
        for k in range(j):
            s = s - L[j, k] * L[j, k]
        if not bool(s > 0):
            raise _np.linalg.LinAlgError('Matrix is not positive definite')
        L[j, j] = core.ssqrt(s)
        for i in range(j + 1, n):
            t = A[i, j]
            for k in range(j):
                t = t - L[i, k] * L[j, k]
            L[i, j] = t / L[j, j]
    return L


def la_pinv(A, *a, **k):
    A = np_asarray(A)
    if not _has_sym(A):
        return fl(_np.linalg.pinv(concrete(A)))
    c = core.cur()
    n, m = A.shape
    if n == m:
        if n > 1 and c.opt('singular', 'raise') == 'assume':
            return la_solve(A, fl(_np.eye(n)))
        if n <= 3 and not bool(det(A) == 0):
            return la_solve(A, fl(_np.eye(n)))
        if n == 1:
            return _full((1, 1), 0.0)
    if n == 1 or m == 1:
        s = sum(e * e for e in _np.asarray(A).ravel())
        if bool(s == 0):
            return _full((m, n), 0.0)
        return A.T / s
    CONTRACTS_USED.add('linalg.pinv: Penrose conditions')
    X = _np.empty((m, n), dtype=object)
    for i in _np.ndindex(m, n):
        X[i] = Sym(c.fresh('pinv'))
    X = X.view(SA)
    AX, XA = dot(A, X), dot(X, A)
    c.add_eqs(dot(AX, A), A)
    c.add_eqs(dot(XA, X), X)
    c.add_eqs(AX, AX.T)
    c.add_eqs(XA, XA.T)
    return X


def la_cond(A, p=None):
    A = np_asarray(A)
    if not _has_sym(A):
        return float(_np.linalg.cond(concrete(A), p))
    s = la_svd(A, compute_uv=False)
    return s[0] / s[-1]


def la_lstsq(A, b, rcond=None):
    A, b = np_asarray(A), np_asarray(b)
    if not _has_sym(A) and not _has_sym(b):
        return fl(tuple(_np.linalg.lstsq(concrete(A), concrete(b), rcond=rcond)))
    return dot(la_pinv(A), b), np_array([]), None, None


def la_det(A):
    A = np_asarray(A)
    return det(A)


class _LA(types.ModuleType):
    pass


def _la(name, f):
    def g(*a, **k):
        return f(*a, **k)
    g.__name__ = name
    return g


linalg = _LA('numpy.linalg')
linalg.norm = la_norm
linalg.solve = la_solve
linalg.inv = la_inv
linalg.qr = la_qr
linalg.svd = la_svd
linalg.eigh = la_eigh
linalg.eigvalsh = la_eigvalsh
linalg.cholesky = la_cholesky
linalg.pinv = la_pinv
linalg.cond = la_cond
linalg.lstsq = la_lstsq
linalg.det = la_det
linalg.LinAlgError = _np.linalg.LinAlgError


def _eig_c(f):
    def g(A, *a):
        A = np_asarray(A)
        if _has_sym(A):
            if A.shape[0] == 1:
                return (np_array([A[0, 0]]), _full((1, 1), 1.0)) if f is _np.linalg.eig else np_array([A[0, 0]])
            core.cur().poison('eig')
        return fl(f(concrete(A)))
    return g


linalg.eig = _eig_c(_np.linalg.eig)
linalg.eigvals = _eig_c(_np.linalg.eigvals)
linalg.matrix_rank = lambda A, *a: _np.linalg.matrix_rank(concrete(A)) if not _has_sym(A) else \
    core.cur().poison('matrix_rank')


class SPoly1d:
    """polynomial given by its coefficients; roots up to degree two (real ones; a complex pair is outside)"""
    def __init__(self, coefs):
        self.c = list(coefs)

    @property
    def r(self):
        v = list(self.c)
        while v and bool(v[0] == 0):
            v.pop(0)
        if len(v) <= 1:
            return np_array([])
        if len(v) == 2:
            return np_array([-v[1] / v[0]])
        if len(v) == 3:
            a, b, q = v
            d = b * b - 4.0 * a * q
            if bool(d < 0):
                raise ValueError('complex roots')
            w = core.ssqrt(d) if is_sym(d) else float(d) ** 0.5
            CONTRACTS_USED.add('numpy.poly1d.r: the two real roots of a quadratic by the exact formula')
            return np_array([(-b + w) / (2.0 * a), (-b - w) / (2.0 * a)])
        core.cur().poison('roots of degree %d' % (len(v) - 1))

    roots = r


def poly1d(coefs, *a, **k):
    if any(is_sym(e) for e in _np.asarray(coefs, dtype=object).ravel()):
        return SPoly1d(_np.asarray(coefs, dtype=object).ravel())
    return _np.poly1d([float(e) for e in _np.asarray(coefs, dtype=object).ravel()], *a, **k)


class NP(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        v = getattr(_np, name)
        if isinstance(v, _np.ufunc):
            v = np_ufunc(v)
        elif isinstance(v, types.FunctionType) or isinstance(v, types.BuiltinFunctionType):
            v = _guard(name, v)
        setattr(self, name, v)
        return v


def _guard(name, fn):
    """numpy function without an explicit symbolic version: allow on concrete data or structural use"""
    structural = {'reshape', 'ravel', 'transpose', 'squeeze', 'shape', 'size', 'ndim', 'delete', 'insert',
                  'tile', 'repeat', 'roll', 'flip', 'fliplr', 'flipud', 'moveaxis', 'swapaxes', 'take',
                  'compress', 'copy', 'expand_dims', 'atleast_1d', 'atleast_2d', 'triu', 'tril', 'trace',
                  'diagonal', 'split', 'array_split', 'broadcast_to', 'kron', 'outer', 'rot90', 'ix_',
                  'broadcast_arrays', 'resize'}
    if name in structural:
        return _all_f(fn)

    def f(*a, **k):
        def conv(x):
            if isinstance(x, Sym):
                core.cur().poison('numpy.%s on symbolic value' % name)
            if isinstance(x, SA):
                if _has_sym(x):
                    core.cur().poison('numpy.%s on symbolic array' % name)
                return concrete(x)
            if isinstance(x, (list, tuple)) and _deep(x):
                core.cur().poison('numpy.%s on symbolic list' % name)
            return x
        return fl(fn(*[conv(x) for x in a], **{q: conv(v) for q, v in k.items()}))
    return f


class _Mat(SA):
    pass


npm = NP('numpy')
npm.poly1d = poly1d
_ov = dict(
    zeros=np_zeros, ones=np_ones, empty=np_zeros, full=np_full, eye=np_eye, identity=lambda n, *a: np_eye(n),
    array=np_array, asarray=np_asarray, asanyarray=np_asarray, ascontiguousarray=np_asarray,
    asfarray=np_asarray, zeros_like=_like(0.0), ones_like=_like(1.0), empty_like=_like(0.0),
    full_like=lambda a, v, *b, **k: np_full(_np.shape(a), v), concatenate=np_concatenate,
    vstack=_seq(_np.vstack), hstack=_seq(_np.hstack), stack=_seq(_np.stack), column_stack=_seq(_np.column_stack),
    row_stack=_seq(_np.vstack), block=_poison('block'),
    diag=np_diag, append=np_append, where=np_where, sum=np_sum, max=_red(True, False), min=_red(False, False),
    amax=_red(True, False), amin=_red(False, False), nanmax=_red(True, True), nanmin=_red(False, True),
    argmax=_argred(True, False), argmin=_argred(False, False), nanargmax=_argred(True, True),
    nanargmin=_argred(False, True), any=np_any, all=np_all, sort=np_sort, argsort=argsort, cumsum=np_cumsum,
    nan_to_num=np_nan_to_num, clip=np_clip, isclose=np_isclose,
    allclose=lambda *a, **k: bool(_np.all(np_isclose(*a, **k))), array_equal=np_array_equal,
    vdot=np_vdot, inner=lambda a, b: dot(a, np_asarray(b).T), outer=np_outer, dot=dot,
    setdiff1d=np_setdiff1d, isreal=np_isreal, real=lambda a: a, imag=lambda a: np_zeros(_np.shape(a)),
    prod=lambda a, axis=None: np_asarray(a).prod(axis), mean=lambda a, axis=None: np_asarray(a).mean(axis),
    isscalar=np_isscalar, linalg=linalg,
    flatnonzero=lambda a: _np.flatnonzero(_boolarr(np_asarray(a))),
    nonzero=lambda a: _np.nonzero(_boolarr(np_asarray(a))),
    argwhere=lambda a: _np.argwhere(_boolarr(np_asarray(a))),
    count_nonzero=lambda a, axis=None: _np.count_nonzero(_boolarr(np_asarray(a)), axis),
    inf=_np.inf, nan=_np.nan, NaN=_np.nan, Inf=_np.inf, infty=_np.inf,
    copy=lambda a, *k: np_array(a), matrix=_poison('matrix'), mat=_poison('mat'), asmatrix=_poison('asmatrix'),
    bmat=_poison('bmat'),
    vectorize=lambda f, *a, **k: (lambda x: _elem(f, x)),
    float64=None, ndarray=_np.ndarray,
    fmax=np_ufunc(_np.fmax),
    sign=np_ufunc(_np.sign),
    isposinf=lambda a: _belem(lambda v: (not is_sym(v)) and v == math.inf, a),
    isneginf=lambda a: _belem(lambda v: (not is_sym(v)) and v == -math.inf, a),
    around=_poison('around'), round=_poison('round'),
)


# ---------------------------------------------------------------- builtins replacements
class _FMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.float) or (isinstance(x, Sym) and x.k in 'rf')

    def __subclasscheck__(cls, c):
        return builtins.issubclass(c, builtins.float)

    def __call__(cls, x=0.0):
        if isinstance(x, Sym):
            return x if x.k != 'i' else Sym(z3.ToReal(x.t))
        if isinstance(x, SymBool):
            return 1.0 if x else 0.0
        if isinstance(x, SA):
            if x.size != 1:
                raise TypeError('only length-1 arrays can be converted to Python scalars')
            return cls(_np.ndarray.item(x))
        return builtins.float(x)

    def __eq__(cls, o):
        return o is cls or o is builtins.float

    def __hash__(cls):
        return hash(builtins.float)


class symfloat(builtins.float, metaclass=_FMeta):
    pass


class _IMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.int) or (isinstance(x, Sym) and x.k == 'i')

    def __subclasscheck__(cls, c):
        return builtins.issubclass(c, builtins.int)

    def __call__(cls, x=0, *a):
        if isinstance(x, Sym):
            return core.to_int(x)
        if isinstance(x, SA):
            if x.size != 1:
                raise TypeError('only length-1 arrays can be converted to Python scalars')
            return cls(_np.ndarray.item(x))
        return builtins.int(x, *a)

    def __eq__(cls, o):
        return o is cls or o is builtins.int

    def __hash__(cls):
        return hash(builtins.int)


class symint(builtins.int, metaclass=_IMeta):
    pass


_ov['float64'] = symfloat
_ov['float_'] = symfloat
_ov['double'] = symfloat
for _k, _v in _ov.items():
    setattr(npm, _k, _v)
npm.__all__ = [n for n in _np.__all__ if not n.startswith('__')] if hasattr(_np, '__all__') else [n for n in dir(_np) if not n.startswith('_')]
npm.random = _np.random
npm.finfo = np_finfo


def s_max(*a, **k):
    if len(a) == 2 and not k and (is_sym(a[0]) or is_sym(a[1])) and all(
            isinstance(x, (Sym, float, int, _np.floating, _np.integer)) for x in a):
        # python max(a, b): b if b > a else a
        return b_ite(a[1] > a[0], a[1], a[0])
    return builtins.max(*a, **k)


def s_min(*a, **k):
    if len(a) == 2 and not k and (is_sym(a[0]) or is_sym(a[1])) and all(
            isinstance(x, (Sym, float, int, _np.floating, _np.integer)) for x in a):
        return b_ite(a[1] < a[0], a[1], a[0])
    return builtins.max(*a, **k) if False else builtins.min(*a, **k)


def b_ite(c, x, y):
    if isinstance(c, (bool, _np.bool_)):
        return x if c else y
    if is_sym(x) and x.k == 'i' and is_sym(y) and y.k == 'i':
        return Sym(z3.If(c.t, x.t, y.t), 'i')
    return x if bool(c) else y


mathm = types.ModuleType('math')
for _k in dir(math):
    if not _k.startswith('_'):
        setattr(mathm, _k, getattr(math, _k))
mathm.sqrt = core.ssqrt
mathm.isnan = core.isnan
mathm.isinf = core.isinf
mathm.fabs = core.sabs
mathm.isfinite = lambda x: core.NOT(core.OR(core.isnan(x), core.isinf(x)))


class SymRange:
    pass


BUILTINS = dict(float=symfloat, int=symint, max=s_max, min=s_min)
