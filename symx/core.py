"""Symbolic scalars and the path-forking engine.

A harness is an ordinary Python function h(ctx).  It is executed many times:
  * symbolically (SymCtx): inputs are Sym scalars carrying z3 terms; every branch of the code under
    test on a symbolic condition forks, both sides being kept when the solver finds them feasible;
    ctx.check(...) asks the solver for a value of the inputs on this path that falsifies the check;
  * concretely (ReplayCtx): with the values of a solver model, on the real, unmodified modules.
"""
import math
import time
from fractions import Fraction

import numpy as _np
import z3

from . import poly


class EngineSignal(BaseException):
    pass


class PathAbort(EngineSignal):        # assumption infeasible / path finished
    pass


class Unsupported(EngineSignal):      # code reached something the encoding cannot express
    pass


class ReplayMismatch(EngineSignal):   # replay values do not satisfy an assumption
    pass


_cur = None      # current symbolic context


def cur():
    return _cur


def set_cur(c):
    global _cur
    _cur = c


def frac(x):
    return z3.RealVal(Fraction(float(x))) if not isinstance(x, int) else z3.RealVal(x)


F64 = z3.Float64()
RNE = z3.RNE()

_isint = (int, _np.integer)
_isnum = (int, float, _np.integer, _np.floating, bool, _np.bool_)


def is_sym(x):
    return isinstance(x, Sym)


class SymBool:
    """A symbolic truth value; bool() forks the path."""
    __slots__ = ('t',)
    __array_ufunc__ = None
    shape = ()
    size = 1
    ndim = 0

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return _cur.branch(self.t)

    def __and__(self, o):
        if isinstance(o, _np.ndarray):
            return NotImplemented
        return mkbool(z3.And(self.t, bterm(o)))
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, _np.ndarray):
            return NotImplemented
        return mkbool(z3.Or(self.t, bterm(o)))
    __ror__ = __or__

    def __xor__(self, o):
        return mkbool(z3.Xor(self.t, bterm(o)))
    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(z3.Not(self.t))

    def __eq__(self, o):
        if isinstance(o, (bool, _np.bool_, SymBool)):
            return mkbool(self.t == bterm(o))
        return bool(self) == o

    def __ne__(self, o):
        if isinstance(o, (bool, _np.bool_, SymBool)):
            return mkbool(z3.Not(self.t == bterm(o)))
        return bool(self) != o

    def __hash__(self):
        return id(self)

    def any(self):
        return bool(self)
    all = any

    # numeric use of a truth value: decide it
    def __add__(self, o):
        return int(bool(self)) + o
    __radd__ = __add__

    def __mul__(self, o):
        return int(bool(self)) * o
    __rmul__ = __mul__

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __str__(self):
        return '<symbool>'
    __repr__ = __str__


def bterm(x):
    if isinstance(x, SymBool):
        return x.t
    if isinstance(x, z3.BoolRef):
        return x
    if isinstance(x, Sym):
        return (x != 0).t if isinstance(x != 0, SymBool) else z3.BoolVal(bool(x != 0))
    return z3.BoolVal(bool(x))


def mkbool(t):
    s = z3.simplify(t)
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    return SymBool(t)


def AND(*cs):
    return mkbool(z3.And([bterm(c) for c in cs])) if cs else True


def OR(*cs):
    return mkbool(z3.Or([bterm(c) for c in cs])) if cs else False


def NOT(c):
    return mkbool(z3.Not(bterm(c)))


def IMPLIES(a, b):
    return mkbool(z3.Implies(bterm(a), bterm(b)))


class Sym:
    """A symbolic number: z3 Real, Int or Float64 term."""
    __slots__ = ('t', 'k')
    __array_ufunc__ = None
    shape = ()
    size = 1
    ndim = 0
    dtype = _np.dtype(float)

    def __init__(self, t, k='r'):
        self.t = t
        self.k = k         # 'r' real, 'i' int, 'f' float64

    # ---- array-like protocol of a numpy scalar
    @property
    def T(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    @property
    def flat(self):
        return _wrap0(self).reshape(-1)

    def copy(self):
        return self

    def item(self, *a):
        return self

    def any(self, *a, **k):
        return bool(self)
    all = any

    def conj(self):
        return self
    conjugate = conj

    def max(self, *a, **k):
        return self
    min = max
    sum = max
    mean = max

    def astype(self, dt, *a, **k):
        if dt in (int, _np.int64, 'int'):
            return to_int(self)
        return self

    def reshape(self, *a):
        return _wrap0(self).reshape(*a)

    def flatten(self):
        return _wrap0(self).reshape(-1)
    ravel = flatten

    def transpose(self, *a):
        return self

    def dot(self, o):
        return self * o

    def __getitem__(self, i):
        if i == () or i is Ellipsis:
            return self
        raise IndexError('invalid index to scalar variable.')

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __hash__(self):
        return id(self)

    def __str__(self):
        return '<sym>'
    __repr__ = __str__

    def __format__(self, spec):
        return '<sym>'

    # ---- conversions
    def __bool__(self):
        return bool(self != 0)

    def __float__(self):
        _cur.poison('float() of a symbolic value')

    def __int__(self):
        return to_int(self, force=True)

    def __index__(self):
        if self.k != 'i':
            raise TypeError('float used as index')
        return _cur.concretize(self)

    def __round__(self, nd=None):
        _cur.poison('round() of a symbolic value')

    def is_integer(self):
        return mkbool(z3.IsInt(_realt(self)))

    # ---- arithmetic
    def __add__(self, o):
        return _arith('+', self, o)

    def __radd__(self, o):
        return _arith('+', o, self)

    def __sub__(self, o):
        return _arith('-', self, o)

    def __rsub__(self, o):
        return _arith('-', o, self)

    def __mul__(self, o):
        return _arith('*', self, o)

    def __rmul__(self, o):
        return _arith('*', o, self)

    def __truediv__(self, o):
        return _arith('/', self, o)

    def __rtruediv__(self, o):
        return _arith('/', o, self)

    def __floordiv__(self, o):
        if self.k == 'i' and isinstance(o, _isint) and o > 0:
            return Sym(self.t / z3.IntVal(int(o)), 'i')
        _cur.poison('floor division of a symbolic value')

    def __mod__(self, o):
        if self.k == 'i' and isinstance(o, _isint) and o > 0:
            return Sym(self.t % z3.IntVal(int(o)), 'i')
        _cur.poison('mod of a symbolic value')

    def __neg__(self):
        return Sym(z3.fpNeg(self.t) if self.k == 'f' else -self.t, self.k)

    def __pos__(self):
        return self

    def __abs__(self):
        return sabs(self)

    def __pow__(self, p, mod=None):
        return _pow(self, p)

    def __rpow__(self, b):
        _cur.poison('symbolic exponent')

    def sqrt(self):
        return ssqrt(self)

    # ---- comparisons
    def __lt__(self, o):
        return _cmp('<', self, o)

    def __le__(self, o):
        return _cmp('<=', self, o)

    def __gt__(self, o):
        return _cmp('>', self, o)

    def __ge__(self, o):
        return _cmp('>=', self, o)

    def __eq__(self, o):
        return _cmp('==', self, o)

    def __ne__(self, o):
        return _cmp('!=', self, o)


def _wrap0(x):
    from . import shim
    a = _np.empty((), dtype=object)
    a[()] = x
    return a.view(shim.SA)


def _realt(x):
    """z3 arithmetic term (Real or Int) of a finite number."""
    if isinstance(x, Sym):
        return x.t
    if isinstance(x, (bool, _np.bool_)):
        return z3.RealVal(int(x))
    if isinstance(x, _isint):
        return z3.IntVal(int(x)) if False else z3.RealVal(int(x))
    return z3.RealVal(Fraction(float(x)))


def _fpt(x):
    if isinstance(x, Sym):
        if x.k == 'f':
            return x.t
        _cur.poison('mixing float64 and real symbolic values')
    x = float(x)
    if math.isnan(x):
        return z3.fpNaN(F64)
    if math.isinf(x):
        return z3.fpPlusInfinity(F64) if x > 0 else z3.fpMinusInfinity(F64)
    return z3.FPVal(x, F64)


def _special(x):
    return isinstance(x, (float, _np.floating)) and not math.isfinite(x)


def _arith(op, a, b):
    for z in (a, b):
        if isinstance(z, _np.ndarray):
            from . import shim
            f = {'+': _np.add, '-': _np.subtract, '*': _np.multiply, '/': _np.true_divide}[op]
            return shim.apply_ufunc(f, a, b)
    if isinstance(a, SymBool):
        a = int(bool(a))
    if isinstance(b, SymBool):
        b = int(bool(b))
    if not (isinstance(a, Sym) or isinstance(a, _isnum)) or not (isinstance(b, Sym) or isinstance(b, _isnum)):
        return NotImplemented
    ka = a.k if isinstance(a, Sym) else None
    kb = b.k if isinstance(b, Sym) else None
    if ka == 'f' or kb == 'f':
        x, y = _fpt(a), _fpt(b)
        if op == '+':
            return Sym(z3.fpAdd(RNE, x, y), 'f')
        if op == '-':
            return Sym(z3.fpSub(RNE, x, y), 'f')
        if op == '*':
            for u, v in ((a, y), (b, x)):
                if not isinstance(u, Sym):
                    u = float(u)
                    if u == 1:
                        return Sym(v, 'f')
                    if u == -1:
                        return Sym(z3.fpNeg(v), 'f')
                    if u == 0:      # IEEE product with a zero: a signed zero, or NaN
                        srt = v.sort()
                        sgn = z3.fpIsNegative(v) if math.copysign(1.0, u) > 0 else z3.Not(z3.fpIsNegative(v))
                        return Sym(z3.If(z3.Or(z3.fpIsNaN(v), z3.fpIsInf(v)), z3.fpNaN(srt),
                                         z3.If(sgn, z3.fpMinusZero(srt), z3.fpPlusZero(srt))), 'f')
            return Sym(z3.fpMul(RNE, x, y), 'f')
        return Sym(z3.fpDiv(RNE, x, y), 'f')
    # reals / ints, with non-finite concrete operands handled as IEEE would
    if _special(a) or _special(b):
        return _special_arith(op, a, b)
    # light constant folding keeps terms small
    if not isinstance(b, Sym):
        if op in '+-' and b == 0:
            return a
        if op == '*':
            if b == 0:
                return 0.0 if isinstance(b, float) or a.k == 'r' else 0
            if b == 1:
                return a
        if op == '/':
            if b == 0:
                return _div0(a)
            if b == 1:
                return a if a.k == 'r' else Sym(z3.ToReal(a.t))
    if not isinstance(a, Sym):
        if op == '+' and a == 0:
            return b
        if op == '*':
            if a == 0:
                return 0.0 if isinstance(a, float) or b.k == 'r' else 0
            if a == 1:
                return b
    int_res = op != '/' and (ka == 'i' or isinstance(a, _isint)) and (kb == 'i' or isinstance(b, _isint))
    if int_res:
        x = a.t if ka else z3.IntVal(int(a))
        y = b.t if kb else z3.IntVal(int(b))
        t = x + y if op == '+' else x - y if op == '-' else x * y
        return Sym(t, 'i')
    x, y = _realt(a), _realt(b)
    if z3.is_int(x):
        x = z3.ToReal(x)
    if z3.is_int(y):
        y = z3.ToReal(y)
    if op == '+':
        return Sym(x + y)
    if op == '-':
        return Sym(x - y)
    if op == '*':
        return Sym(x * y)
    # division
    if isinstance(b, Sym):
        if _cur.branch(y == 0):
            return _div0(a)
        if not isinstance(a, Sym) and a == 0:
            return 0.0
        return _cur.quotient(x, y)
    return Sym(x / y)


def _div0(a):
    s = _sgn(a)
    return math.nan if s == 0 else math.inf * s


def _sgn(a):
    if isinstance(a, Sym):
        if _cur.branch(_realt(a) > 0):
            return 1
        if _cur.branch(_realt(a) < 0):
            return -1
        return 0
    return (a > 0) - (a < 0)


def _special_arith(op, a, b):
    fa = float(a) if not isinstance(a, Sym) else None
    fb = float(b) if not isinstance(b, Sym) else None
    if (fa is not None and math.isnan(fa)) or (fb is not None and math.isnan(fb)):
        return math.nan
    if op in '+-':
        va = fa if fa is not None else 1.0
        vb = fb if fb is not None else 1.0
        return va + vb if op == '+' else va - vb
    if op == '*':
        va = fa if fa is not None else float(_sgn(a))
        vb = fb if fb is not None else float(_sgn(b))
        return float(_np.float64(va) * _np.float64(vb))
    va = fa if fa is not None else 1.0
    if fa is None:      # finite / inf
        return 0.0
    # inf / finite sym
    s = _sgn(b)
    return va if s >= 0 else -va


def _pow(a, p):
    if isinstance(p, _np.ndarray):
        _cur.poison('array exponent')
    if isinstance(p, Sym):
        _cur.poison('symbolic exponent')
    if p == 0.5:
        return ssqrt(a)
    if float(p).is_integer():
        q = int(p)
        if q == 0:
            return 1.0 if a.k != 'i' else 1
        r = a
        for _ in range(abs(q) - 1):
            r = r * a
        return r if q > 0 else 1.0 / r
    _cur.poison('unsupported power')


def _cmp(op, a, b):
    if isinstance(b, _np.ndarray):
        from . import shim
        f = {'<': _np.less, '<=': _np.less_equal, '>': _np.greater, '>=': _np.greater_equal,
             '==': _np.equal, '!=': _np.not_equal}[op]
        return shim.apply_ufunc(f, a, b)
    if isinstance(b, SymBool):
        b = int(bool(b))
    if not (isinstance(b, Sym) or isinstance(b, _isnum)):
        if op == '==':
            return False
        if op == '!=':
            return True
        return NotImplemented
    if a.k == 'f' or (isinstance(b, Sym) and b.k == 'f'):
        x, y = _fpt(a), _fpt(b)
        t = {'<': z3.fpLT, '<=': z3.fpLEQ, '>': z3.fpGT, '>=': z3.fpGEQ, '==': z3.fpEQ,
             '!=': lambda p, q: z3.Not(z3.fpEQ(p, q))}[op](x, y)
        return mkbool(t)
    if _special(b):
        b = float(b)
        if math.isnan(b):
            return op == '!='
        return {'<': b > 0, '<=': b > 0, '>': b < 0, '>=': b < 0, '==': False, '!=': True}[op]
    if a.k == 'i' and (isinstance(b, _isint) or isinstance(b, Sym) and b.k == 'i'):
        x, y = a.t, b.t if isinstance(b, Sym) else z3.IntVal(int(b))
    else:
        return mkbool(relation(op, _realt(a), _realt(b)))
    t = {'<': lambda: x < y, '<=': lambda: x <= y, '>': lambda: x > y, '>=': lambda: x >= y,
         '==': lambda: x == y, '!=': lambda: z3.Not(x == y)}[op]()
    return mkbool(t)


_REL = {'<': lambda x: x < 0, '<=': lambda x: x <= 0, '>': lambda x: x > 0, '>=': lambda x: x >= 0,
        '==': lambda x: x == 0, '!=': lambda x: z3.Not(x == 0)}
_FLIP = {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '==': '==', '!=': '!='}


def relation(op, x, y):
    """x op y over the reals as a division-free polynomial relation"""
    if z3.is_int(x):
        x = z3.ToReal(x)
    if z3.is_int(y):
        y = z3.ToReal(y)
    P = _cur.polys
    try:
        p0 = poly.padd(P.of(x), P.of(y), -1)
        p = P.normal(p0, op not in ('==', '!='))
        if p is p0 and len(p) > 1 and not any(v in P.sqrt for m in p for v, _ in m):
            raise poly.TooBig()         # nothing to clear: keep the structure of the original terms
        r = _rel_poly(P, op, p)
        if p is not p0 and not (z3.is_true(r) or z3.is_false(r)):
            P.raw[r.get_id()] = _REL[op](x - y)
            P.keep.append(r)
        return r
    except poly.TooBig:
        return {'<': lambda: x < y, '<=': lambda: x <= y, '>': lambda: x > y, '>=': lambda: x >= y,
                '==': lambda: x == y, '!=': lambda: z3.Not(x == y)}[op]()


def _rel_poly(P, op, p):
    if not p:
        return z3.BoolVal(op in ('<=', '>=', '=='))
    if len(p) == 1 and poly.ONE in p:
        c = p[poly.ONE]
        return z3.BoolVal({'<': c < 0, '<=': c <= 0, '>': c > 0, '>=': c >= 0, '==': False, '!=': True}[op])
    # c*s + q with s a square root (radicand t >= 0) and q free of s: compare s with -q/c by squares
    for m in p:
        if len(m) == 1 and m[0][1] == 1 and m[0][0] in P.sqrt:
            v = m[0][0]
            if sum(1 for k in p if any(w == v for w, _ in k)) == 1:
                c = p[m]
                Q = {k: -d / c for k, d in p.items() if k != m}
                o = op if c > 0 else _FLIP[op]
                if sum(1 for k in Q for w, _ in k if w in P.sqrt) == 0:
                    return _sqrt_rel(P, o, P.sqrt[v], Q, P.sqrt_raw.get(v))
    # monomial: sign of a product
    if op in ('==', '!=') and len(p) == 1:
        (m, c), = p.items()
        vs = [P.term[v] for v, _ in m]
        t = z3.Or([x == 0 for x in vs])
        return t if op == '==' else z3.Not(t)
    # make the leading coefficient 1 to share atoms
    c = p[max(p)]
    o = op if c > 0 else _FLIP[op]
    return _REL[o](P.back({k: d / c for k, d in p.items()}))


def _sqrt_rel(P, op, t, Q, raw=None):
    """sqrt(t) op Q, t >= 0"""
    if raw is not None and P.plain(t) and (not Q or list(Q) == [poly.ONE]):
        q = Q.get(poly.ONE, 0)
        if q < 0:
            return z3.BoolVal(op in ('>', '>=', '!='))
        k = z3.RealVal(q * q)
        if q == 0 and op in ('<', '>='):
            return z3.BoolVal(op == '>=')
        return {'<': lambda: raw < k, '<=': lambda: raw <= k, '>': lambda: raw > k, '>=': lambda: raw >= k,
                '==': lambda: raw == k, '!=': lambda: z3.Not(raw == k)}[op]()
    if not Q:
        return {'<': z3.BoolVal(False), '>=': z3.BoolVal(True)}.get(op) if op in ('<', '>=') else \
            _rel_poly(P, {'<=': '==', '>': '!=', '==': '==', '!=': '!='}[op], P.normal(t, False))
    d = P.normal(poly.padd(t, poly.pmul(Q, Q), -1), True)
    qn = P.normal(Q, True)
    neg = _rel_poly(P, '<', qn)
    r = _rel_poly(P, op, d)
    if op in ('<', '<=', '=='):
        return z3.And(z3.Not(neg), r)
    return z3.Or(neg, r)


def sabs(x):
    if not isinstance(x, Sym):
        return abs(x)
    if x.k == 'f':
        return Sym(z3.fpAbs(x.t), 'f')
    key = ('abs', x.t.get_id())
    c = _cur.memo.get(key)
    if c is None:
        c = Sym(z3.If(x.t >= 0, x.t, -x.t), x.k)
        _cur.memo[key] = c
        _cur.keep.append(x.t)
    return c


def ssqrt(x, nonneg=False):
    if not isinstance(x, Sym):
        x = float(x)
        return math.sqrt(x) if x >= 0 else math.nan
    if x.k == 'f':
        return Sym(z3.fpSqrt(RNE, x.t), 'f')
    t = _realt(x)
    if z3.is_int(t):
        t = z3.ToReal(t)
    s = z3.simplify(t, som=True)
    key = ('sqrt', s.get_id())
    if key in _cur.memo:
        return _cur.memo[key]
    # sqrt(u*u) = |u|
    if z3.is_rational_value(s):
        v = s.as_fraction()
        if v < 0:
            return math.nan
        return math.sqrt(v)
    root = _square_root_of(s)
    if root is not None:
        r = sabs(Sym(root))
    else:
        if not nonneg and _cur.branch(t < 0):
            return math.nan
        y = _cur.fresh('sqrt')
        _cur.define_sqrt(y, t)
        r = Sym(y)
    _cur.memo[key] = r
    _cur.keep.append(s)
    return r


def _square_root_of(s):
    """u if s is syntactically u**2 (times a rational square), else None."""
    coef = Fraction(1)
    args = [s]
    if z3.is_mul(s):
        args = list(s.children())
    rest = []
    for a in args:
        if z3.is_rational_value(a):
            coef *= a.as_fraction()
        else:
            rest.append(a)
    if coef <= 0:
        return None
    rn, rd = math.isqrt(coef.numerator), math.isqrt(coef.denominator)
    if rn * rn != coef.numerator or rd * rd != coef.denominator:
        return None
    c = z3.RealVal(Fraction(rn, rd))
    if len(rest) == 1 and z3.is_app_of(rest[0], z3.Z3_OP_POWER):
        b, e = rest[0].children()
        if z3.is_rational_value(e) and e.as_fraction() == 2:
            return c * b
    if len(rest) == 2 and rest[0].eq(rest[1]):
        return c * rest[0]
    return None


def smax(a, b, nan_ignoring=True):
    return _mm(a, b, True, nan_ignoring)


def smin(a, b, nan_ignoring=True):
    return _mm(a, b, False, nan_ignoring)


def _mm(a, b, mx, ign):
    """fmax/fmin (ign) or maximum/minimum (propagating NaN) of two scalars."""
    sa, sb = isinstance(a, Sym), isinstance(b, Sym)
    if not sa and not sb:
        f = (_np.fmax if mx else _np.fmin) if ign else (_np.maximum if mx else _np.minimum)
        r = f(a, b)
        return float(r) if isinstance(r, _np.floating) else int(r)
    if (sa and a.k == 'f') or (sb and b.k == 'f'):
        x, y = _fpt(a), _fpt(b)
        c = z3.fpGEQ(x, y) if mx else z3.fpLEQ(x, y)
        if ign:
            return Sym(z3.If(z3.fpIsNaN(x), y, z3.If(z3.fpIsNaN(y), x, z3.If(c, x, y))), 'f')
        return Sym(z3.If(z3.fpIsNaN(x), x, z3.If(z3.fpIsNaN(y), y, z3.If(c, x, y))), 'f')
    for p, q in ((a, b), (b, a)):
        if _special(p):
            p = float(p)
            if math.isnan(p):
                return q if ign else p
            return p if (p > 0) == mx else q
    x, y = _realt(a), _realt(b)
    if z3.is_int(x) != z3.is_int(y):
        x = z3.ToReal(x) if z3.is_int(x) else x
        y = z3.ToReal(y) if z3.is_int(y) else y
    k = 'i' if z3.is_int(x) else 'r'
    c = z3.simplify(x >= y if mx else x <= y)
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    return Sym(z3.If(c, x, y), k)


def to_int(x, force=False):
    if isinstance(x, Sym):
        if x.k == 'i':
            return x if not force else _cur.concretize(x)
        if x.k == 'f':
            _cur.poison('int() of float64 symbolic')
        t = x.t
        if force:
            _cur.poison('int() of symbolic real')
        return Sym(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t)), 'i')
    return int(x)


def isnan(x):
    if isinstance(x, Sym):
        return mkbool(z3.fpIsNaN(x.t)) if x.k == 'f' else False
    return bool(_np.isnan(x))


def isinf(x):
    if isinstance(x, Sym):
        return mkbool(z3.fpIsInf(x.t)) if x.k == 'f' else False
    return bool(_np.isinf(x))


def ITE(c, a, b):
    """value-level if-then-else without forking"""
    if not isinstance(c, SymBool):
        return a if c else b
    if isinstance(a, Sym) and a.k == 'f' or isinstance(b, Sym) and b.k == 'f':
        return Sym(z3.If(c.t, _fpt(a), _fpt(b)), 'f')
    if _special(a) or _special(b):
        return a if bool(c) else b
    x, y = _realt(a), _realt(b)
    if z3.is_int(x):
        x = z3.ToReal(x)
    if z3.is_int(y):
        y = z3.ToReal(y)
    return Sym(z3.If(c.t, x, y))
