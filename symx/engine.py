"""Path exploration, obligations, counterexample extraction and replay."""
import contextlib
import io
import json
import math
import os
import struct
import sys
import tempfile
import time
import traceback
import warnings
from fractions import Fraction

import numpy as _np
import z3

from . import core, shim, loader, poly
from .core import (Sym, SymBool, PathAbort, Unsupported, ReplayMismatch, EngineSignal, mkbool, bterm)

TOL = 1e-6


class Violation(Exception):
    pass


def _flat(x):
    if isinstance(x, _np.ndarray):
        return _np.asarray(x, dtype=object).ravel().tolist()
    if isinstance(x, (list, tuple)):
        r = []
        for v in x:
            r += _flat(v)
        return r
    return [x]


def shape_of(x):
    return _np.shape(_np.asarray(x, dtype=object)) if isinstance(x, _np.ndarray) else ()


class Base:
    """API shared by symbolic and replay contexts."""
    symbolic = False

    def vec(self, name, n, lo=None, hi=None, **k):
        return self.array([self.real('%s%d' % (name, i), lo, hi, **k) for i in range(n)])

    def col(self, name, n, lo=None, hi=None, **k):
        return self.vec(name, n, lo, hi, **k).reshape(-1, 1)

    def mat(self, name, n, m, lo=None, hi=None, **k):
        return self.array([[self.real('%s%d_%d' % (name, i, j), lo, hi, **k) for j in range(m)] for i in range(n)]) \
            .reshape(n, m)

    def symmat(self, name, n, lo=None, hi=None):
        v = {}
        for i in range(n):
            for j in range(i, n):
                v[i, j] = v[j, i] = self.real('%s%d_%d' % (name, i, j), lo, hi)
        return self.array([[v[i, j] for j in range(n)] for i in range(n)]).reshape(n, n)

    def fvec(self, name, n):
        return self.array([self.fp('%s%d' % (name, i)) for i in range(n)])

    def mod(self, name):
        return self.mods.mod(name)

    def stub(self, mod, fn, f):
        return self.mods.stub(mod, fn, f)

    def eq(self, label, a, b, tol=TOL):
        fa, fb = _flat(a), _flat(b)
        if len(fa) != len(fb):
            self.check(label + ' [sizes %d vs %d]' % (len(fa), len(fb)), False)
            return
        self._eq(label, fa, fb, tol)

    def le(self, label, a, b, tol=TOL):
        fa, fb = _flat(a), _flat(b)
        if len(fb) == 1 and len(fa) > 1:
            fb = fb * len(fa)
        if len(fa) == 1 and len(fb) > 1:
            fa = fa * len(fb)
        if len(fa) != len(fb):
            self.check(label + ' [sizes %d vs %d]' % (len(fa), len(fb)), False)
            return
        self._le(label, fa, fb, tol)

    def ge(self, label, a, b, tol=TOL):
        self.le(label, b, a, tol)


class SymCtx(Base):
    symbolic = True

    def __init__(self, case, eng, prefix):
        self.case = case
        self.eng = eng
        self.prefix = prefix
        self.trace = []
        self.inputs = {}        # name -> (term, kind)
        self.memo = {}
        self.keep = []
        self.decided = {}
        self.nfresh = 0
        self.poisoned = None
        self.opts = dict(eng.opts)
        self.notes = set()
        self.solver = z3.Solver()
        self.solver.set('timeout', eng.feas_ms)
        self.asserted = []
        self.mods = loader.SymModules()
        self.obl = 0
        self.ranges = {}
        self.polys = poly.Polys()
        self.defs = {}          # id of a defined unknown -> its definition, asserted once it is used
        self.scanned = set()
        self.lin = None
        self.bounded = set()

    # -- inputs
    def _in(self, name, term, kind):
        if name in self.inputs:
            raise RuntimeError('duplicate input ' + name)
        self.inputs[name] = (term, kind)
        return Sym(term, kind)

    def real(self, name, lo=None, hi=None):
        t = z3.Real(name)
        s = self._in(name, t, 'r')
        if lo is not None and hi is not None:
            self.bounded.add(name)
        self.ranges[name] = (-4 if lo is None else lo, 4 if hi is None else hi)
        if lo is not None:
            self.add(t >= core._realt(lo))
        if hi is not None:
            self.add(t <= core._realt(hi))
        return s

    def int_(self, name, lo=None, hi=None):
        t = z3.Int(name)
        s = self._in(name, t, 'i')
        if lo is not None:
            self.add(t >= lo)
        if hi is not None:
            self.add(t <= hi)
        return s

    def bool_(self, name):
        t = z3.Int(name)
        self._in(name, t, 'i')
        self.add(z3.And(t >= 0, t <= 1))
        return mkbool(t == 1)

    def fp(self, name, finite=False, lo=None, hi=None):
        t = z3.FP(name, core.F64)
        s = self._in(name, t, 'f')
        if finite:
            self.add(z3.Not(z3.Or(z3.fpIsNaN(t), z3.fpIsInf(t))))
        if lo is not None:
            self.add(z3.fpGEQ(t, core._fpt(lo)))
        if hi is not None:
            self.add(z3.fpLEQ(t, core._fpt(hi)))
        return s

    def choice(self, name, options):
        t = z3.Int(name)
        self._in(name, t, 'i')
        self.add(z3.And(t >= 0, t < len(options)))
        for i in range(len(options) - 1):
            if self.branch(t == i):
                return options[i]
        self.add(t == len(options) - 1)
        return options[-1]

    def array(self, x):
        a = shim.np_array(x) if not isinstance(x, shim.SA) else x
        if isinstance(a, _np.ndarray) and a.dtype != object:
            o = _np.empty(a.shape, dtype=object)
            o[...] = a.astype(float).tolist() if a.ndim else float(a)
            a = o.view(shim.SA)
        return a

    # -- engine
    def add(self, t):
        self.need(t)
        self.solver.add(t)
        self.asserted.append(t)

    def need(self, t):
        """assert the definitions of the reciprocals and square roots occurring in t"""
        if not self.defs:
            return
        todo, seen = [t], set()
        while todo:
            x = todo.pop()
            i = x.get_id()
            if i in seen or i in self.scanned:
                continue
            seen.add(i)
            if i in self.defs:
                d = self.defs.pop(i)
                self.solver.add(d)
                self.asserted.append(d)
                todo.append(d)
            todo.extend(x.children())
        self.scanned |= seen
        self.keep.append(t)

    def define_sqrt(self, y, t):
        self.keep += [y, t]
        try:
            p = self.polys.of(t)
            v = self.polys.vid(y)
            self.polys.sqrt[v] = p
            self.polys.sqrt_raw[v] = t
        except poly.TooBig:
            pass
        self.defs[y.get_id()] = z3.And(y >= 0, y * y == t)

    def add_def(self, t, **k):
        self.add(t)

    def add_eqs(self, A, B):
        for a, b in zip(_flat(A), _flat(B)):
            e = bterm(core._cmp('==', a, b) if isinstance(a, Sym) else core._cmp('==', b, a)
                      if isinstance(b, Sym) else a == b)
            self.add(e)

    def fresh(self, tag):
        self.nfresh += 1
        return z3.Real('%s!%d' % (tag, self.nfresh))

    def fresh_sym(self, tag):
        return Sym(self.fresh(tag))

    def quotient(self, x, y):
        return Sym(z3.simplify(x * self.recip(z3.simplify(y, som=True))))

    def recip(self, ys):
        """1/ys for ys != 0: a fresh unknown r with r*ys = 1, factored over products"""
        if z3.is_rational_value(ys):
            return z3.RealVal(1) / ys
        key = ('recip', ys.get_id())
        if key in self.memo:
            return self.memo[key]
        if z3.is_mul(ys):
            r = z3.RealVal(1)
            for ch in ys.children():
                r = r * self.recip(ch)
        elif z3.is_app_of(ys, z3.Z3_OP_POWER) and z3.is_rational_value(ys.arg(1)) and \
                ys.arg(1).as_fraction().denominator == 1 and 0 < ys.arg(1).as_fraction() < 9:
            b = self.recip(ys.arg(0))
            r = b
            for _ in range(int(ys.arg(1).as_fraction()) - 1):
                r = r * b
        else:
            r = self.fresh('inv')
            self.keep += [r, ys]
            try:
                yp = self.polys.of(ys)
                self.polys.recip[self.polys.vid(r)] = yp
            except poly.TooBig:
                pass
            self.defs[r.get_id()] = r * ys == 1
        self.memo[key] = r
        self.keep.append(ys)
        return r

    def opt(self, k, d=None):
        return self.opts.get(k, d)

    def note(self, s):
        self.notes.add(s)

    def poison(self, msg):
        self.poisoned = msg + ' @ ' + _where()
        raise Unsupported(msg)

    def concretize(self, s):
        while True:
            r = self.solver.check()
            if r != z3.sat:
                raise PathAbort('infeasible')
            v = self.solver.model().eval(s.t, model_completion=True)
            # deterministic under re-execution: the chosen value is part of the trace
            if len(self.trace) < len(self.prefix):
                v = z3.IntVal(self.prefix[len(self.trace)][1])
            if self.branch(s.t == v, val=v.as_long()):
                return v.as_long()

    def branch(self, t, val=None):
        s = z3.simplify(t)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        key = s.get_id()
        if key in self.decided and val is None:
            return self.decided[key]
        if time.time() > self.eng.deadline:
            self.eng.truncated = True
            raise PathAbort('deadline')
        pos = len(self.trace)
        if pos < len(self.prefix):
            d = self.prefix[pos][0]
            self.trace.append(self.prefix[pos])
        else:
            ft = self._feas(t)
            ff = True if not ft else self._feas(z3.Not(t))
            if ft and ff:
                d = True
                self.trace.append((True, val))
                self.eng.work.append(self.trace[:-1] + [(False, val)])
                self.eng.forks += 1
            elif ft:
                d = True
                self.trace.append((True, val))
            else:
                d = False
                self.trace.append((False, val))
        c = t if d else z3.Not(t)
        self.add(c)
        self.decided[key] = d
        self.keep.append(s)
        n = z3.simplify(z3.Not(t))
        self.decided[n.get_id()] = not d
        self.keep.append(n)
        return d

    def _feas(self, t):
        self.eng.nfeas += 1
        self.need(t)
        t0 = time.time()
        self.solver.push()
        self.solver.add(t)
        r = self.solver.check()
        self.solver.pop()
        self.eng.solver_s += time.time() - t0
        if r == z3.unknown:
            if self.linear(t):
                return False
            self.eng.feas_unknown += 1
        return r != z3.unsat

    def assume(self, c):
        if isinstance(c, (bool, _np.bool_)):
            if not c:
                raise PathAbort('assume')
            return
        self.add(bterm(c))

    def prune(self):
        """abandon the path if it is infeasible"""
        if self.solver.check() == z3.unsat:
            raise PathAbort('infeasible')

    def witness(self, tries=4):
        """a model of the path condition (falls back to fixing the inputs at random rationals)"""
        r = self.solver.check()
        if r == z3.sat:
            return self.solver.model()
        if r == z3.unsat:
            return None
        import random
        rnd = random.Random(len(self.trace) * 7919 + 1)
        for _ in range(tries):
            s = z3.SolverFor('QF_NRA')
            s.set('timeout', 3000)
            s.add(*self.asserted)
            for n, (t, k) in self.inputs.items():
                if k == 'r':
                    lo, hi = self.ranges[n]
                    lo, hi = max(lo, -4), min(hi, 4)
                    if lo > hi:
                        lo, hi = self.ranges[n]
                    v = Fraction(rnd.randint(0, 16), 16) * (Fraction(hi) - Fraction(lo)) + Fraction(lo)
                    s.add(t == z3.RealVal(v))
            if s.check() == z3.sat:
                return s.model()
        return None

    def linear(self, extra):
        if not any(k == 'r' for _, k in self.inputs.values()):
            return False
        if self.lin is None:
            self.lin = poly.Lin(self.polys, {})
        for n, (t, k) in list(self.inputs.items())[len(self.lin.ranges):]:
            r = self.ranges.get(n)
            self.lin.ranges[t.get_id()] = (Fraction(r[0]), Fraction(r[1])) if r and n in self.bounded else None
        return self.lin.unsat(self.asserted, extra)

    # -- obligations
    def _solve(self, extra, ms):
        self.eng.queries += 1
        t0 = time.time()
        left = int(1000 * (self.eng.deadline - t0))
        if left <= 0:
            self.eng.truncated = True
            return z3.unknown, None
        ms = min(ms, left)
        self.need(extra)
        if self.linear(extra):
            self.eng.solver_s += time.time() - t0
            self.eng.linear += 1
            return z3.unsat, None
        try:
            self.solver.push()
            self.solver.add(extra)
            self.solver.set('timeout', min(ms, 4000))
            r = self.solver.check()
            m = self.solver.model() if r == z3.sat else None
        finally:
            self.solver.pop()
            self.solver.set('timeout', self.eng.feas_ms)
        if r == z3.unknown:
            for mk in self.eng.solvers:
                left = int(1000 * (self.eng.deadline - time.time()))
                if left <= 0:
                    self.eng.truncated = True
                    break
                s = mk()
                s.set('timeout', min(ms, left))
                s.add(*self.asserted)
                s.add(extra)
                try:
                    r = s.check()
                except z3.Z3Exception:
                    r = z3.unknown
                if r == z3.sat:
                    m = s.model()
                if r != z3.unknown:
                    break
        self.eng.solver_s += time.time() - t0
        return r, m

    def near(self, label, a, b, tol):
        """|a-b| <= tol exactly as stated (no slack); polynomials are first tried with each nonlinear monomial replaced by
        a fresh unknown bounded by the interval product of its factors (sound for discharging)"""
        for x, y in zip(_flat(a), _flat(b)):
            d = core._arith('-', x, y) if isinstance(x, Sym) or isinstance(y, Sym) else x - y
            if not isinstance(d, Sym):
                self.check(label, bool(abs(d) <= tol))
                continue
            tl = z3.RealVal(Fraction(tol))
            dt = core._realt(d)
            self._oblige(label, z3.Or(dt > tl, dt < -tl), z3.Or(dt > 2 * tl, dt < -2 * tl))

    def _oblige(self, label, neg, margin=None):
        """neg: z3 term of the violation; margin: stronger term asking for a robust violation."""
        self.eng.obligations += 1
        self.eng.labels[label] = self.eng.labels.get(label, 0) + 1
        s = z3.simplify(neg)
        if z3.is_false(s):
            self.eng.trivial += 1
            self.eng.discharged += 1
            return
        r, m = self._solve(neg, self.eng.query_ms)
        if r == z3.unsat:
            self.eng.discharged += 1
            return
        if r == z3.unknown:
            self.eng.undecided.append(label)
            # last resort: a margin query may still produce a counterexample
            if margin is not None:
                r, m = self._solve(margin, self.eng.query_ms)
            if r != z3.sat:
                return
        self._candidate(label, neg, margin, m)

    def _candidate(self, label, neg, margin, m):
        self.eng.candidates += 1
        tried = []
        for k in range(self.eng.replays):
            if k == 0 and margin is not None:
                r, mm = self._solve(margin, 5000)
                if r == z3.sat:
                    m = mm
                    goal = margin
                else:
                    goal = neg
            elif k == 0:
                goal = neg
            if k == 1:
                mm = self._nice(goal, m)
                m = mm if mm is not None else m
            elif k >= 2:
                mm = self._other(goal, tried)
                if mm is None:
                    break
                m = mm
            vals = self.values(m)
            tried.append(vals)
            out = replay(self.eng.harness, self.case, vals)
            if out['violated'] and (label in out['violated'] or not label.startswith('raises ')):
                self.eng.violations.append(dict(label=label, values=vals, got=out['violated'], case=self.case))
                raise PathAbort('violation')
        self.eng.unconfirmed.append(dict(label=label, values=tried[0], replay=out))
        raise PathAbort('unconfirmed')

    def _nice(self, goal, m, den=8):
        self.solver.push()
        self.solver.set('timeout', 1500)
        try:
            self.solver.add(goal)
            for n, (t, k) in self.inputs.items():
                if k != 'r':
                    continue
                v = _val(m.eval(t, model_completion=True), 'r')
                if not math.isfinite(v) or abs(v) > 1e15:
                    continue
                self.solver.push()
                self.solver.add(t == z3.RealVal(Fraction(round(v * den), den)))
                if self.solver.check() != z3.sat:
                    self.solver.pop()
                else:
                    m = self.solver.model()
                    # keep the constraint: re-add below the push level
                    c = self.solver.assertions()[-1]
                    self.solver.pop()
                    self.solver.add(c)
            r = self.solver.check()
            return self.solver.model() if r == z3.sat else m
        finally:
            self.solver.pop()
            self.solver.set('timeout', self.eng.feas_ms)

    def _other(self, goal, tried):
        cons = [goal]
        for vals in tried:
            dis = []
            for n, (t, k) in self.inputs.items():
                v = vals[n]
                if k == 'r' and math.isfinite(v):
                    w = z3.RealVal(Fraction(v))
                    d = z3.RealVal(Fraction(max(1.0, abs(v)) / 10))
                    dis.append(z3.Or(t > w + d, t < w - d))
                elif k == 'i':
                    dis.append(t != v)
                elif k == 'f':
                    dis.append(t != core._fpt(v))
            if dis:
                cons.append(z3.Or(dis))
        r, m = self._solve(z3.And(cons), 4000)
        return m if r == z3.sat else None

    def values(self, m):
        return {n: _val(m.eval(t, model_completion=True), k) for n, (t, k) in self.inputs.items()}

    def check(self, label, cond):
        if isinstance(cond, _np.ndarray):
            cond = core.AND(*_flat(cond))
        if isinstance(cond, Sym):
            cond = cond != 0
        self._oblige(label, z3.Not(bterm(cond)))

    def _eq(self, label, fa, fb, tol):
        neg, mar = [], []
        for a, b in zip(fa, fb):
            a0, b0 = a, b
            if not isinstance(a, Sym) and not isinstance(b, Sym):
                ok = a == b or (a != a and b != b) or abs(a - b) <= tol * (1 + abs(a) + abs(b))
                if not ok:
                    neg.append(z3.BoolVal(True))
                    mar.append(z3.BoolVal(True))
                continue
            if not isinstance(a, Sym):
                a, b = b, a
            if a.k == 'f' or (isinstance(b, Sym) and b.k == 'f'):
                x, y = core._fpt(a), core._fpt(b)
                e = z3.Or(z3.fpEQ(x, y), z3.And(z3.fpIsNaN(x), z3.fpIsNaN(y)))
                neg.append(z3.Not(e))
                continue
            if core._special(b):
                neg.append(z3.BoolVal(True))
                mar.append(z3.BoolVal(True))
                continue
            d = core._arith('-', a, b)
            dt = core._realt(d)
            ne = core.relation('!=', dt, z3.RealVal(0))
            neg.append(ne)
            if z3.is_false(ne):
                continue
            sc = z3.RealVal(Fraction(1, 100))
            mar.append(z3.Or(core.relation('>', dt, sc), core.relation('<', dt, -sc)))
        if neg:
            self._oblige(label, z3.Or(neg), z3.Or(mar) if mar else None)
        else:
            self.eng.obligations += 1
            self.eng.discharged += 1
            self.eng.trivial += 1
            self.eng.labels[label] = self.eng.labels.get(label, 0) + 1

    def _le(self, label, fa, fb, tol):
        neg, mar = [], []
        for a, b in zip(fa, fb):
            if not isinstance(a, Sym) and not isinstance(b, Sym):
                if not (a <= b or a - b <= tol * (1 + abs(a) + abs(b))):
                    neg.append(z3.BoolVal(True))
                    mar.append(z3.BoolVal(True))
                continue
            c = a <= b
            neg.append(z3.Not(bterm(c)))
            if (isinstance(a, Sym) and a.k == 'f') or (isinstance(b, Sym) and b.k == 'f') or core._special(a) or \
                    core._special(b):
                mar.append(z3.Not(bterm(c)))
            else:
                d = core._arith('-', a, b)
                mar.append(bterm(d > 0.01))
        if neg:
            self._oblige(label, z3.Or(neg), z3.Or(mar))
        else:
            self.eng.obligations += 1
            self.eng.discharged += 1
            self.eng.trivial += 1
            self.eng.labels[label] = self.eng.labels.get(label, 0) + 1

    def cover(self, label):
        """reachability witness"""
        self.eng.covers.setdefault(label, 0)
        self.eng.covers[label] += 1


def _where():
    f = sys._getframe(2)
    out = []
    while f and len(out) < 3:
        if loader.REPO in f.f_code.co_filename:
            out.append('%s:%d' % (os.path.basename(f.f_code.co_filename), f.f_lineno))
        f = f.f_back
    return ' < '.join(out)


def _val(v, kind):
    if kind == 'f':
        bv = z3.simplify(z3.fpToIEEEBV(v)) if not z3.is_bv(v) else v
        if z3.is_bv_value(bv):
            return struct.unpack('>d', struct.pack('>Q', bv.as_long()))[0]
        return math.nan
    if z3.is_int_value(v):
        return v.as_long() if kind == 'i' else float(v.as_long())
    if z3.is_rational_value(v):
        fr = v.as_fraction()
        try:
            return float(fr)
        except OverflowError:
            return math.inf if fr > 0 else -math.inf
    if z3.is_algebraic_value(v):
        fr = v.approx(20).as_fraction()
        return float(fr)
    return 0.0


# ------------------------------------------------------------------ replay
class ReplayCtx(Base):
    symbolic = False

    def __init__(self, case, values):
        self.case = case
        self.vals = values
        self.violated = []
        self.checked = []
        self.mods = loader.RealModules()
        self.opts = {}

    def _v(self, name):
        v = self.vals.get(name, 0.0)
        return v

    def real(self, name, lo=None, hi=None):
        v = _np.float64(self._v(name))
        if lo is not None:
            v = max(v, _np.float64(lo))
        if hi is not None:
            v = min(v, _np.float64(hi))
        return v

    def int_(self, name, lo=None, hi=None):
        return int(self._v(name))

    def bool_(self, name):
        return bool(self._v(name) == 1)

    def fp(self, name, finite=False, lo=None, hi=None):
        return _np.float64(self._v(name))

    def choice(self, name, options):
        return options[int(self._v(name))]

    def array(self, x):
        return _np.array(x, dtype=float)

    def assume(self, c):
        if not c:
            raise ReplayMismatch('assumption false in floats')

    def fresh_sym(self, tag):
        raise RuntimeError('fresh_sym in replay; use ctx.real')

    def prune(self):
        pass

    def note(self, s):
        pass

    def opt(self, k, d=None):
        return self.opts.get(k, d)

    def cover(self, label):
        pass

    def check(self, label, cond):
        if isinstance(cond, _np.ndarray):
            cond = cond.all()
        self.checked.append(label)
        if not bool(cond):
            self.violated.append(label)

    def near(self, label, a, b, tol):
        self.check(label, all(abs(float(x) - float(y)) <= 1.5 * tol for x, y in zip(_flat(a), _flat(b))))

    def _eq(self, label, fa, fb, tol):
        ok = True
        for a, b in zip(fa, fb):
            a, b = float(a), float(b)
            if a == b or (a != a and b != b):
                continue
            if not abs(a - b) <= tol * (1 + abs(a) + abs(b)):
                ok = False
        self.check(label, ok)

    def _le(self, label, fa, fb, tol):
        self.check(label, all(float(a) <= float(b) or float(a) - float(b) <= tol * (1 + abs(float(a)) + abs(float(b)))
                              for a, b in zip(fa, fb)))


@contextlib.contextmanager
def quiet():
    with open(os.devnull, 'w') as dn, contextlib.redirect_stdout(dn), contextlib.redirect_stderr(dn):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with _np.errstate(all='ignore'):
                yield


def replay(harness, case, values):
    saved = core.cur()
    core.set_cur(None)
    c = ReplayCtx(case, values)
    cwd = os.getcwd()
    exc = None
    with tempfile.TemporaryDirectory(prefix='sqv_') as d:
        os.chdir(d)
        try:
            with quiet():
                harness(c)
        except ReplayMismatch as e:
            exc = 'mismatch: %s' % e
        except (Exception, SystemExit) as e:
            lab = raised_label(e)
            if lab is None:
                exc = 'harness: ' + ''.join(traceback.format_exception(e))[-800:]
            else:
                c.violated.append(lab)
        finally:
            os.chdir(cwd)
            c.mods.undo()
            core.set_cur(saved)
    return dict(violated=c.violated, note=exc, checked=len(c.checked))


def raised_label(e):
    """label of an exception that came out of the code under test (None: harness error)"""
    tb = traceback.extract_tb(e.__traceback__)
    fr = [f for f in tb if f.filename.startswith(loader.REPO)]
    if not fr:
        return None
    return 'raises %s in %s' % (type(e).__name__, os.path.basename(fr[-1].filename))


# ------------------------------------------------------------------ exploration
class Engine:
    def __init__(self, harness, case, **opts):
        self.harness = harness
        self.case = case
        self.opts = opts
        self.work = [[]]
        self.feas_ms = opts.get('feas_ms', 400)
        self.query_ms = opts.get('query_ms', 20000)
        self.max_paths = opts.get('max_paths', 100000)
        self.replays = opts.get('replays', 5)
        self.deadline = time.time() + opts.get('budget_s', 300)
        self.solvers = opts.get('solvers') or [lambda: z3.SolverFor('QF_NRA'), lambda: z3.Tactic('qfnra-nlsat').solver(),
                                               lambda: z3.Solver()]
        self.forks = self.nfeas = self.queries = self.obligations = self.discharged = self.trivial = 0
        self.feas_unknown = self.candidates = self.linear = 0
        self.solver_s = 0.0
        self.paths = self.completed = self.aborted = 0
        self.truncated = False
        self.undecided = []
        self.violations = []
        self.unconfirmed = []
        self.unsupported = []
        self.errors = []
        self.labels = {}
        self.covers = {}
        self.witness = 0
        self.models = []
        self.notes = set()
        self.inputs = {}

    def run(self):
        t0 = time.time()
        saved_hook = None
        with quiet():
            while self.work:
                if self.paths >= self.max_paths or time.time() > self.deadline:
                    self.truncated = True
                    break
                if self.violations and len(self.violations) >= self.opts.get('stop_after', 1):
                    break
                if len(self.unconfirmed) >= 4:
                    break
                self._path(self.work.pop())
        self.wall = time.time() - t0
        return self

    def _path(self, prefix):
        self.paths += 1
        c = SymCtx(self.case, self, prefix)
        core.set_cur(c)
        try:
            try:
                self.harness(c)
            finally:
                self.notes |= c.notes
                for n, (t, kd) in c.inputs.items():
                    self.inputs.setdefault(n, (kd,) + tuple(c.ranges.get(n, (-4, 4))))
            if c.poisoned:
                raise Unsupported(c.poisoned)
            self.completed += 1
            if self.witness < 3 or len(self.models) < 4:
                m = c.witness()
                if m is not None:
                    self.witness += 1
                    self.models.append(c.values(m))
        except PathAbort:
            self.aborted += 1
        except Unsupported as e:
            self._unsup(c, c.poisoned or str(e))
        except (Exception, SystemExit) as e:
            if c.poisoned:
                self._unsup(c, c.poisoned)
                return
            lab = raised_label(e)
            if lab is None:
                self.errors.append(''.join(traceback.format_exception(e))[-1500:])
                return
            self._raised(c, lab, e)
        finally:
            core.set_cur(None)

    def _unsup(self, c, msg):
        # only a problem if the path is feasible
        r = c.solver.check()
        if r == z3.unsat:
            self.aborted += 1
            return
        self.unsupported.append(msg)

    def _raised(self, c, lab, e):
        try:
            self.obligations += 1
            r, m = c._solve(z3.BoolVal(True), self.query_ms)
            if r == z3.unsat:
                self.discharged += 1
                return
            if r == z3.unknown:
                self.undecided.append(lab)
                return
            try:
                c._candidate(lab, z3.BoolVal(True), None, m)
            except PathAbort:
                pass
            if self.unconfirmed and self.unconfirmed[-1]['label'] == lab:
                self.unconfirmed[-1]['trace'] = ''.join(traceback.format_exception(e))[-1500:]
        except EngineSignal:
            pass

    def validate(self, k):
        """replay models of completed paths on the unmodified code: same checks, no violation"""
        ok = bad = 0
        samples = []
        if self.violations or self.unconfirmed:
            return 0, 0, []
        if not self.witness and self.completed and self.inputs:
            # no model from the solver in time: a concrete run that meets every assumption is a witness as well
            import random
            rnd = random.Random(7)
            for _ in range(40):
                vals = {}
                for n, (kind, lo, hi) in self.inputs.items():
                    vals[n] = rnd.randint(0, 1) if kind == 'i' else round(rnd.uniform(max(lo, -4), min(hi, 4)), 3)
                out = replay(self.harness, self.case, vals)
                if not out['note'] and not out['violated'] and out['checked']:
                    self.witness += 1
                    self.notes.add('reachability witness from a concrete run')
                    self.models.append(vals)
                    break
        for vals in self.models[:k]:
            out = replay(self.harness, self.case, vals)
            if out['note']:
                bad += 1
                self.notes.add('validation: ' + out['note'][-300:])
            elif out['violated']:
                bad += 1
                self.notes.add('validation: real code violates %s' % out['violated'][:2])
            else:
                ok += 1
                if len(samples) < 1:
                    samples.append(dict(case=self.case, inputs=vals, checks_replayed=out['checked']))
        return ok, bad, samples

    def stats(self):
        return dict(paths=self.paths, completed=self.completed, aborted=self.aborted, forks=self.forks,
                    feasibility_queries=self.nfeas, linear=self.linear, queries=self.queries, obligations=self.obligations,
                    discharged=self.discharged, trivial=self.trivial, undecided=self.undecided[:20],
                    n_undecided=len(self.undecided), feas_unknown=self.feas_unknown,
                    solver_s=round(self.solver_s, 3), wall_s=round(self.wall, 3), truncated=self.truncated,
                    violations=self.violations, unconfirmed=self.unconfirmed, unsupported=sorted(set(self.unsupported))[:10],
                    n_unsupported=len(self.unsupported), errors=self.errors[:3], labels=self.labels,
                    witness=self.witness, notes=sorted(self.notes), contracts=sorted(shim.CONTRACTS_USED))
