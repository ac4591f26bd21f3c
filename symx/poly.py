"""Sparse polynomials over the rationals, used to put every real comparison into a division-free, sqrt-reduced normal form."""
from fractions import Fraction

import z3

LIMIT = 6000


class TooBig(Exception):
    pass


ONE = ()


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for v, e in b:
        d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items()))


def pmul(a, b):
    if len(a) * len(b) > 40 * LIMIT:
        raise TooBig()
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    if len(r) > LIMIT:
        raise TooBig()
    return r


def ppow(a, e):
    r = {ONE: Fraction(1)}
    for _ in range(e):
        r = pmul(r, a)
    return r


class Polys:
    """one per execution path"""

    def __init__(self):
        self.var = {}       # ast id -> vid
        self.term = []      # vid -> z3 term
        self.memo = {}
        self.keep = []
        self.recip = {}     # vid -> poly of the denominator
        self.sqrt = {}      # vid -> poly of the radicand
        self.sqrt_raw = {}
        self.raw = {}       # id of a cleared relation -> the relation before clearing
        self.abs = {}       # vid -> poly of the argument

    def vid(self, t):
        i = t.get_id()
        v = self.var.get(i)
        if v is None:
            v = len(self.term)
            self.var[i] = v
            self.term.append(t)
        return v

    def of(self, t):
        i = t.get_id()
        r = self.memo.get(i)
        if r is not None:
            return r
        r = self._of(t)
        self.memo[i] = r
        self.keep.append(t)
        return r

    def _of(self, t):
        if z3.is_rational_value(t) or z3.is_int_value(t):
            v = t.as_fraction() if z3.is_rational_value(t) else Fraction(t.as_long())
            return {ONE: Fraction(v)} if v else {}
        k = t.decl().kind()
        ch = t.children()
        if k == z3.Z3_OP_ADD:
            r = {}
            for c in ch:
                r = padd(r, self.of(c))
                if len(r) > LIMIT:
                    raise TooBig()
            return r
        if k == z3.Z3_OP_SUB:
            r = self.of(ch[0])
            for c in ch[1:]:
                r = padd(r, self.of(c), -1)
            return r
        if k == z3.Z3_OP_UMINUS:
            return {m: -c for m, c in self.of(ch[0]).items()}
        if k == z3.Z3_OP_MUL:
            r = {ONE: Fraction(1)}
            for c in ch:
                r = pmul(r, self.of(c))
            return r
        if k == z3.Z3_OP_DIV and z3.is_rational_value(ch[1]) and ch[1].as_fraction() != 0:
            f = ch[1].as_fraction()
            return {m: c / f for m, c in self.of(ch[0]).items()}
        if k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) and ch[1].as_fraction().denominator == 1 and \
                0 <= ch[1].as_fraction() < 12:
            return ppow(self.of(ch[0]), int(ch[1].as_fraction()))
        return {((self.vid(t), 1),): Fraction(1)}

    def normal(self, p, even):
        """p multiplied by a nonzero (positive if even) quantity, without reciprocals and with square roots reduced"""
        for _ in range(200):
            top = -1
            for m in p:
                for v, e in m:
                    if v > top and (v in self.recip or ((v in self.sqrt or v in self.abs) and e >= 2)):
                        top = v
            if top < 0:
                return p
            v = top
            r = {}
            if v in self.recip:
                mx = max(e for m in p for w, e in m if w == v)
                E = mx + (mx % 2) if even else mx
                y = self.recip[v]
                pw = {0: {ONE: Fraction(1)}}
                groups = {}
                for m, c in p.items():
                    a = dict(m).get(v, 0)
                    mm = tuple(x for x in m if x[0] != v)
                    g = groups.setdefault(E - a, {})
                    g[mm] = g.get(mm, 0) + c
                for e, g in groups.items():
                    r = padd(r, pmul({k: x for k, x in g.items() if x}, ppow(y, e)))
            else:
                t = self.sqrt[v] if v in self.sqrt else pmul(self.abs[v], self.abs[v])
                groups = {}
                for m, c in p.items():
                    a = dict(m).get(v, 0)
                    mm = tuple(x for x in m if x[0] != v)
                    if a % 2:
                        mm = mmul(mm, ((v, 1),))
                    g = groups.setdefault(a // 2, {})
                    g[mm] = g.get(mm, 0) + c
                for e, g in groups.items():
                    r = padd(r, pmul({k: x for k, x in g.items() if x}, ppow(t, e)))
            p = r
            if len(p) > LIMIT:
                raise TooBig()
        raise TooBig()

    def plain(self, p):
        return not any(v in self.recip or v in self.sqrt for m in p for v, _ in m)

    def back(self, p):
        if not p:
            return z3.RealVal(0)
        # scale to small integers: harmless for sign tests
        ts = []
        for m, c in p.items():
            fs = [self.term[v] for v, e in m for _ in range(e)]
            if c != 1 or not fs:
                fs = [z3.RealVal(c)] + fs
            ts.append(z3.Product(fs) if len(fs) > 1 else fs[0])
        return z3.Sum(ts) if len(ts) > 1 else ts[0]


class Lin:
    """Linear relaxation of a path: every monomial becomes an unknown with interval bounds.  Unsatisfiable here implies
    unsatisfiable there."""

    def __init__(self, polys, ranges):
        self.P = polys
        self.ranges = ranges          # ast id of an input -> (lo, hi)
        self.mono = {}
        self.s = z3.SolverFor('QF_LRA')
        self.s.set('timeout', 3000)
        self.done = 0
        self.cache = {}
        self.keep = []

    def rng(self, v):
        r = self.ranges.get(self.P.term[v].get_id())
        return r

    def mvar(self, m):
        y = self.mono.get(m)
        if y is None:
            y = z3.Real('m!%d' % len(self.mono))
            self.mono[m] = y
            r = (Fraction(1), Fraction(1))
            for v, e in m:
                q = self.rng(v)
                if q is None:
                    r = None
                    break
                for _ in range(e):
                    c = [r[0] * q[0], r[0] * q[1], r[1] * q[0], r[1] * q[1]]
                    r = (min(c), max(c))
            ev = all(e % 2 == 0 for _, e in m)
            if r is not None:
                lo = max(r[0], 0) if ev else r[0]
                self.s.add(y >= z3.RealVal(lo), y <= z3.RealVal(r[1]))
            elif ev:
                self.s.add(y >= 0)
        return y

    def lin(self, p):
        ts = []
        for m, c in p.items():
            ts.append(z3.RealVal(c) if not m else z3.RealVal(c) * self.mvar(m))
        return z3.Sum(ts) if len(ts) > 1 else ts[0] if ts else z3.RealVal(0)

    def tr(self, t):
        i = t.get_id()
        if i in self.cache:
            return self.cache[i]
        r = self._tr(t)
        self.cache[i] = r
        self.keep.append(t)
        w = self.P.raw.get(i)
        if w is not None:
            try:
                self.s.add(self._tr(w) == r)
            except TooBig:
                pass
        return r

    def _tr(self, t):
        k = t.decl().kind()
        if k in (z3.Z3_OP_TRUE, z3.Z3_OP_FALSE):
            return t
        ch = t.children()
        if k == z3.Z3_OP_AND:
            return z3.And([self.tr(c) for c in ch])
        if k == z3.Z3_OP_OR:
            return z3.Or([self.tr(c) for c in ch])
        if k == z3.Z3_OP_NOT:
            return z3.Not(self.tr(ch[0]))
        if k == z3.Z3_OP_IMPLIES:
            return z3.Implies(self.tr(ch[0]), self.tr(ch[1]))
        if k == z3.Z3_OP_ITE and z3.is_bool(t):
            return z3.If(self.tr(ch[0]), self.tr(ch[1]), self.tr(ch[2]))
        rel = {z3.Z3_OP_LE: lambda a: a <= 0, z3.Z3_OP_GE: lambda a: a >= 0, z3.Z3_OP_LT: lambda a: a < 0,
               z3.Z3_OP_GT: lambda a: a > 0, z3.Z3_OP_EQ: lambda a: a == 0}.get(k)
        if k == z3.Z3_OP_EQ and z3.is_bool(ch[0]):
            return self.tr(ch[0]) == self.tr(ch[1])
        if rel is not None and z3.is_real(ch[0]):
            return rel(self.lin(padd(self.P.of(ch[0]), self.P.of(ch[1]), -1)))
        raise TooBig()

    def unsat(self, asserted, extra):
        """True if asserted + extra is unsatisfiable already in the relaxation"""
        while self.done < len(asserted):
            t = asserted[self.done]
            self.done += 1
            try:
                self.s.add(self.tr(t))
            except TooBig:
                pass
        try:
            e = self.tr(extra)
        except TooBig:
            return False
        # interval bounds of monomials created by extra must survive the pop: they are added before the push
        self.s.push()
        self.s.add(e)
        r = self.s.check()
        self.s.pop()
        return r == z3.unsat
