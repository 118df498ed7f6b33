"""The API harnesses are written against.  The same harness function runs in two modes:

  SymCtx     inputs are z3 terms, the code is the instrumented /repo source, assertions are discharged by z3;
  NativeCtx  inputs are the numbers of a model, the code is the unmodified /repo source run by plain Python
             (used to replay counterexamples and to validate paths against the implementation).
"""
from __future__ import annotations
import math
from fractions import Fraction

import numpy as np
import z3

from . import sym
from .sym import Sym, SymB, SymF, SymB as _SymB

TOL_SYM = 1e-9
TOL_NAT = 5e-10


class HarnessError(Exception):
    pass


class Mode:
    native = False


# ------------------------------------------------------------------------------------------------ formulas
# A formula is a function delta -> truth value; delta > 0 weakens it (so its negation is a robust counterexample).
class F:
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f

    def at(self, d):
        return self.f(d)

    def __bool__(self):
        raise HarnessError('formula used as a Python bool; use the branch helpers')


def _lift(x):
    if isinstance(x, F):
        return x
    if not isinstance(x, (bool, np.bool_, SymB, z3.BoolRef)):
        raise HarnessError('not a truth value: %r' % (x,))
    return F(lambda d: x)


def _tol(t):
    if t is None:
        return TOL_NAT if Mode.native else TOL_SYM
    return t / 2 if Mode.native else t


def _ok(x):
    return isinstance(x, (Sym, SymB, SymF)) or (isinstance(x, (int, float, Fraction, np.number)) and
                                               not (isinstance(x, (float, np.floating)) and math.isnan(x)))


def _cmp(a, b):
    """exact comparison expression a <= b"""
    return a <= b


def eq(a, b, tol=None):
    t = _tol(tol)

    def f(d):
        if not (_ok(a) and _ok(b)):
            return False
        if t + d < 0:
            return False
        diff = a - b
        return AND(diff <= t + d, diff >= -(t + d))
    return F(f)


def le(a, b, tol=None):
    t = _tol(tol)
    return F(lambda d: (a - b <= t + d) if _ok(a) and _ok(b) else False)


def ge(a, b, tol=None):
    return le(b, a, tol)


def lt(a, b):
    """strict, exact; as an assertion prefer le()"""
    return F(lambda d: (a - b < d) if _ok(a) and _ok(b) else False)


def gt(a, b):
    return lt(b, a)


def same(a, b):
    """exact equality (no tolerance)"""
    def f(d):
        r = a == b
        return r if isinstance(r, (bool, SymB)) else bool(r)
    return F(f)


def is_true(b):
    return _lift(b)


# -- three-valued-free boolean algebra over bool / SymB
def AND(*xs):
    out = []
    for x in xs:
        if isinstance(x, SymB):
            out.append(x.e)
        elif not x:
            return False
    if not out:
        return True
    return sym.mkbool(z3.And(*out)) if len(out) > 1 else sym.mkbool(out[0])


def OR(*xs):
    out = []
    for x in xs:
        if isinstance(x, SymB):
            out.append(x.e)
        elif x:
            return True
    if not out:
        return False
    return sym.mkbool(z3.Or(*out)) if len(out) > 1 else sym.mkbool(out[0])


def NEG(x):
    if isinstance(x, SymB):
        return sym.mkbool(z3.Not(x.e))
    return not x


def land(*fs):
    fs = [_lift(f) for f in fs]
    return F(lambda d: AND(*[f.at(d) for f in fs]))


def lor(*fs):
    fs = [_lift(f) for f in fs]
    return F(lambda d: OR(*[f.at(d) for f in fs]))


def lnot(f):
    f = _lift(f)
    return F(lambda d: NEG(f.at(-d)))


def implies(p, q):
    return lor(lnot(p), q)


def iff(p, q):
    return land(implies(p, q), implies(q, p))


def ite(c, a, b):
    """number: a if c else b; c is bool / SymB / F"""
    if isinstance(c, F):
        c = c.at(0)
    if isinstance(c, SymB):
        return sym.merge2(c, a, b)
    return a if c else b


def vmin(*xs):
    if any(sym.is_sym(x) for x in xs):
        out = xs[0]
        for x in xs[1:]:
            c = x < out
            out = ite(c, x, out)
        return out
    return min(xs)


def vmax(*xs):
    if any(sym.is_sym(x) for x in xs):
        out = xs[0]
        for x in xs[1:]:
            c = x > out
            out = ite(c, x, out)
        return out
    return max(xs)


def vabs(x):
    return ite(x >= 0, x, -x)


def vsum(xs):
    t = 0
    for x in xs:
        t = t + x
    return t


def count(bs):
    return vsum(ite(b if not isinstance(b, F) else b.at(0), 1, 0) for b in bs)


# ------------------------------------------------------------------------------------------------ contexts
class Ctx:
    native = False

    def __init__(self, cfg, mods):
        self.cfg = cfg
        self.mods = mods
        self._patched = []
        self.counter = {}
        self.observed = []
        self.covered = set()
        self.labels = []

    def name(self, n):
        """unique input name: repeated requests for the same stem get an index"""
        i = self.counter.get(n, 0)
        self.counter[n] = i + 1
        return n if i == 0 else '%s#%d' % (n, i)

    def patch(self, obj, attr, value):
        """Replace an environment-facing attribute (I/O, clock, randomness) for this path."""
        if obj is None or not hasattr(obj, attr):
            return
        d = vars(obj)
        self._patched.append((obj, attr, attr in d, d.get(attr)))
        setattr(obj, attr, value)

    def undo(self):
        while self._patched:
            obj, attr, had, old = self._patched.pop()
            if had:
                setattr(obj, attr, old)
            else:
                delattr(obj, attr)

    def as_new_process(self):
        """What the modules of the repository remember is forgotten, as if they were imported anew."""
        from . import loader
        loader.CURRENT.restore()

    def cover(self, label):
        self.covered.add(label)

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[self.pick(name, len(options))]

    def raises(self, exc, fn, *a, **kw):
        """(True, None) if fn raises exc, else (False, result)"""
        try:
            r = fn(*a, **kw)
        except exc:
            return True, None
        return False, r


class SymCtx(Ctx):
    def __init__(self, cfg, mods, state):
        super().__init__(cfg, mods)
        self.st = state
        self.checks = []      # (label, F)

    def _var(self, name, mk, kind):
        name = self.name(name)
        v = mk(name)
        self.st.vars[name] = (v, kind)
        return v

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        v = self._var(name, z3.Real, 'real')
        if lo is not None:
            l = Sym.lift(lo).r()
            self.st.add(v > l if lo_open else v >= l)
        if hi is not None:
            h = Sym.lift(hi).r()
            self.st.add(v < h if hi_open else v <= h)
        self.st.model = None
        return Sym(v)

    def int(self, name, lo=None, hi=None):
        v = self._var(name, z3.Int, 'int')
        if lo is not None:
            self.st.add(v >= Sym.lift(lo).e)
        if hi is not None:
            self.st.add(v <= Sym.lift(hi).e)
        self.st.model = None
        return Sym(v)

    def double(self, name):
        v = self._var(name, lambda n: z3.FP(n, sym.F64), 'fp')
        return SymF(v)

    def bool(self, name):
        v = self._var(name, z3.Bool, 'bool')
        return self.st.decide(v)

    def sbool(self, name):
        return SymB(self._var(name, z3.Bool, 'bool'))

    def pick(self, name, n):
        if n <= 1:
            return 0
        v = self.int(name, 0, n - 1)
        # binary decisions in index order: deterministic, no model dependence
        for i in range(n - 1):
            if self.st.decide(v.e == i):
                return i
        return n - 1

    def assume(self, c):
        if isinstance(c, F):
            c = c.at(0)
        if isinstance(c, SymB):
            self.st.add(c.e)
            self.st.model = None
            r, m = self.st.check_sat([])
            if r == z3.unsat:
                raise sym.Infeasible()
            if r == z3.sat:
                self.st.model = m
        elif not c:
            raise sym.Infeasible()

    def test(self, c):
        """fork on a formula"""
        if isinstance(c, F):
            c = c.at(0)
        return bool(c)

    def check(self, label, c):
        self.checks.append((label, _lift(c)))

    def lemma(self, c):
        """Use an assertion that was just checked as an assumption for what follows (assert, then assume).  It is only
        added to the path condition if z3 proves it; otherwise the path goes on without it."""
        c = _lift(c).at(0)
        if not isinstance(c, SymB):
            return
        r, _ = self.st.check_sat([z3.Not(c.e)], 10000)
        if r == z3.unsat:
            self.st.add(c.e)

    def observe(self, label, value):
        self.observed.append((label, value))


class NativeAssume(BaseException):
    pass


class NativeCtx(Ctx):
    native = True

    def __init__(self, cfg, mods, values):
        super().__init__(cfg, mods)
        self.values = values
        self.failed = []
        self.checked = 0

    def _get(self, name, default):
        name = self.name(name)
        return self.values.get(name, default)

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        v = float(self._get(name, Fraction(0)))
        # rounding the model value to a double must not leave the domain
        if lo is not None and v < lo:
            v = float(lo)
        if hi is not None and v > hi:
            v = float(hi)
        return v

    def int(self, name, lo=None, hi=None):
        return int(self._get(name, lo or 0))

    def double(self, name):
        return float(self._get(name, 0.0))

    def bool(self, name):
        return bool(self._get(name, False))

    sbool = bool

    def pick(self, name, n):
        if n <= 1:
            return 0
        return int(self._get(name, 0))

    def assume(self, c):
        if isinstance(c, F):
            c = c.at(0)
        if not c:
            raise NativeAssume()

    def test(self, c):
        if isinstance(c, F):
            c = c.at(0)
        return bool(c)

    def lemma(self, c):
        pass

    def check(self, label, c):
        self.checked += 1
        if not bool(_lift(c).at(0)):
            self.failed.append(label)

    def observe(self, label, value):
        self.observed.append((label, value))
