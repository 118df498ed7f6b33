"""Symbolic values and the path explorer.

A harness is an ordinary Python function that calls the real code of /repo (instrumented on import by
vf.loader).  Its inputs are `Sym` values: wrappers around z3 terms that implement Python's numeric protocol.
Whenever the code under test needs the truth value of a symbolic comparison, the explorer asks z3 which outcomes are
feasible under the path condition; both outcomes are explored when both are (depth-first, by re-execution with a
recorded decision prefix).  On every path the property assertions are discharged by z3 as
    path-condition AND NOT assertion  is unsatisfiable.

Domains:  Sym  (z3 Int / Real: exact arithmetic, every Python float constant is taken at its exact rational value)
          SymF (z3 Float64: IEEE-754 double semantics, RNE)
"""
from __future__ import annotations
import math
import time
from fractions import Fraction
import numbers

import numpy as np
import z3

z3.set_param('verbose', 0)


# ---------------------------------------------------------------------------------------------- control exceptions
class PathEnd(BaseException):
    """Base of the explorer's own control flow; BaseException so that code under test cannot swallow it."""


class Infeasible(PathEnd):
    pass


class StopPath(PathEnd):
    pass


class Budget(PathEnd):
    pass


class Hang(PathEnd):
    """The path exceeded its wall-clock allowance."""


class Unsupported(PathEnd):
    """An operation the symbolic domain cannot represent and that cannot be concretised."""


# ---------------------------------------------------------------------------------------------- current path state
class State:
    """State of the path being executed (one at a time per process)."""

    def __init__(self, prefix, opts):
        self.prefix = list(prefix)
        self.pos = 0
        self.decisions = []       # outcomes taken so far
        self.pending = []         # alternative prefixes discovered on this path
        self.pc = []              # z3 conditions
        self.known = {}           # ast id -> bool for conditions already decided on this path
        self.keep = []            # keep asts alive (ids are reused otherwise)
        self.vars = {}            # name -> (z3 const, kind)
        self.model = None         # a model of pc, if we have one
        self.opts = opts
        self.fresh = 0
        self.incomplete = []      # reasons for which this path does not cover everything
        self.too_long = False
        self.solver = z3.Solver()
        self.solver.set('timeout', opts.get('branch_ms', 4000))
        self.stats = opts['stats']
        self.caches = []

    # -- path condition
    def add(self, c):
        self.pc.append(c)
        Z.Z3_solver_assert(CREF, self.solver.solver, c.ast)

    def fresh_name(self, stem):
        self.fresh += 1
        return '%s!%d' % (stem, self.fresh)

    def check_sat(self, extra, ms=None):
        """sat / unsat / unknown of pc + extra; returns (result, model)"""
        st = self.stats
        t0 = time.time()
        st['queries'] += 1
        self.solver.push()
        try:
            for e in extra:
                self.solver.add(e)
            if ms is not None:
                self.solver.set('timeout', ms)
            r = self.solver.check()
            m = self.solver.model() if r == z3.sat else None
        except z3.Z3Exception:
            r, m = z3.unknown, None
        finally:
            self.solver.pop()
            if ms is not None:
                self.solver.set('timeout', self.opts.get('branch_ms', 4000))
        if r == z3.unknown:
            r, m = fallback_check(self.pc + list(extra), self.opts.get('fallback_ms', 20000), st)
        st['solver_s'] += time.time() - t0
        return r, m

    def value_in_model(self, c):
        if self.model is None:
            return None
        v = self.model.eval(c, model_completion=True)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        v = z3.simplify(v)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None

    def decide(self, c, simplified=False):
        """The branch oracle."""
        if not simplified:
            c = z3.simplify(c)
            if z3.is_true(c):
                return True
            if z3.is_false(c):
                return False
        i = c.get_id()
        if i in self.known:
            return self.known[i]
        if time.time() > self.opts['deadline']:
            raise Budget()
        if len(self.decisions) > self.opts.get('max_decisions', 4000):
            self.incomplete.append('more than max_decisions branches on one path')
            self.too_long = True
            raise Budget()
        nc = c.arg(0) if z3.is_not(c) else z3.Not(c)
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self._take(c, nc, d)
            self.model = None
            return d
        self.stats['branches'] += 1
        guess = self.value_in_model(c)
        if guess is None:
            r, m = self.check_sat([c])
            if r == z3.sat:
                self.model, guess = m, True
            elif r == z3.unsat:
                self._take(c, nc, False)
                self.pos += 1
                return False
            else:
                self.stats['unknown_branches'] += 1
                self.model, guess = None, True
        # the guess side is feasible (or unknown); is the other?
        other = nc if guess else c
        r, m = self.check_sat([other])
        if r != z3.unsat:
            if r == z3.unknown:
                self.stats['unknown_branches'] += 1
            self.pending.append(self.decisions + [not guess])
        self._take(c, nc, guess)
        self.pos += 1
        return guess

    def _take(self, c, nc, d):
        self.decisions.append(d)
        self.add(c if d else nc)
        self.keep.append((c, nc))
        self.known[c.get_id()] = d
        self.known[nc.get_id()] = not d

    def concretise(self, e, why):
        """Pick one value for e, restrict the path to it and record that the path is incomplete.
        (Integers with a small range are enumerated completely instead, see pick_int.)"""
        r, m = self.check_sat([])
        if r != z3.sat:
            raise Unsupported(why)
        v = m.eval(e, model_completion=True)
        self.incomplete.append('concretised: ' + why)
        self.stats['concretisations'] += 1
        self.add(e == v)
        self.model = m
        return to_fraction(v)

    def pick_int(self, e):
        """Full enumeration of an integer term, by forking."""
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        for _ in range(self.opts.get('max_enum', 64)):
            # find a candidate deterministically: replay must make the same choices, so candidates are the
            # integers in increasing order of |v| that the solver cannot exclude
            if self.pos < len(self.prefix):
                cand = self.prefix[self.pos]
                # entries for enumerations are recorded as ('v', value, bool)
                if not (isinstance(cand, tuple) and cand[0] == 'v'):
                    raise AssertionError('prefix mismatch at integer enumeration')
                self.pos += 1
                _, v, d = cand
                self.decisions.append(cand)
                self.add(e == v if d else e != v)
                self.model = None
                if d:
                    return v
                continue
            r, m = self.check_sat([])
            if r == z3.unsat:
                raise Infeasible()
            if r != z3.sat:
                raise Unsupported('integer enumeration')
            v = m.eval(e, model_completion=True).as_long()
            r2, _ = self.check_sat([e != v])
            if r2 != z3.unsat:
                self.pending.append(self.decisions + [('v', v, False)])
            self.decisions.append(('v', v, True))
            self.pos += 1
            self.add(e == v)
            self.model = m
            return v
        self.incomplete.append('integer enumeration cut at max_enum')
        raise Budget()


def fallback_check(conds, ms, st):
    st['fallback_queries'] += 1
    for mk in (lambda: z3.SolverFor('QF_NRA'), lambda: z3.Then('simplify', 'purify-arith', 'elim-term-ite', 'solve-eqs',
                                                                'tseitin-cnf', 'qfnra-nlsat').solver()):
        try:
            s = mk()
            s.set('timeout', ms)
            s.add(*conds)
            r = s.check()
            if r == z3.sat:
                return r, s.model()
            if r == z3.unsat:
                return r, None
        except z3.Z3Exception:
            continue
    return z3.unknown, None


CUR: State | None = None


def set_state(s):
    global CUR
    CUR = s


def cur() -> State:
    if CUR is None:
        raise RuntimeError('symbolic value used outside a symbolic path')
    return CUR


def fork_minmax():
    return CUR is not None and CUR.opts.get('fork_minmax', False)


# ---------------------------------------------------------------------------------------------- helpers
def to_fraction(v):
    """z3 numeral -> Fraction"""
    if isinstance(v, (int, Fraction)):
        return Fraction(v)
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    s = z3.simplify(v)
    if z3.is_rational_value(s):
        return Fraction(s.numerator_as_long(), s.denominator_as_long())
    if z3.is_algebraic_value(s):
        a = s.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    raise ValueError('not a numeral: %r' % v)


def is_num(x):
    return isinstance(x, (int, float, Fraction, np.integer, np.floating, np.bool_))


def num_frac(x):
    """Exact rational value of a concrete number, or None for nan / inf."""
    if isinstance(x, (bool, np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, np.integer)):
        return Fraction(int(x))
    if isinstance(x, Fraction):
        return x
    x = float(x)
    if math.isnan(x) or math.isinf(x):
        return None
    return Fraction(x)


_VALS = {}


def real_val(fr):
    v = _VALS.get(fr)
    if v is None:
        v = z3.RealVal('%d/%d' % (fr.numerator, fr.denominator)) if fr.denominator != 1 else z3.RealVal(fr.numerator)
        if len(_VALS) < 20000:
            _VALS[fr] = v
    return v


_INTS = {}


def int_val(n):
    v = _INTS.get(n)
    if v is None:
        v = z3.IntVal(n)
        if len(_INTS) < 20000:
            _INTS[n] = v
    return v


# direct calls into libz3 for the hot operations (the Python wrappers dominate the run time otherwise)
class _Raw:
    def __getattr__(self, name):
        f = getattr(z3.z3core, name).__defaults__[0].f
        setattr(self, name, f)
        return f


Z = _Raw()
MAIN = z3.main_ctx()
CREF = MAIN.ref()
NUMERAL = z3.Z3_NUMERAL_AST
INT_SORT = z3.Z3_INT_SORT
_ARR2 = z3.Ast * 2


def raw_arith(op, x, y):
    arr = _ARR2(x.ast, y.ast)
    f = Z.Z3_mk_add if op == '+' else Z.Z3_mk_sub if op == '-' else Z.Z3_mk_mul
    r = f(CREF, 2, arr)
    Z.Z3_inc_ref(CREF, r)
    s = Z.Z3_simplify(CREF, r)
    out = z3.RatNumRef(s, MAIN) if Z.Z3_get_ast_kind(CREF, s) == NUMERAL else z3.ArithRef(s, MAIN)
    if isinstance(out, z3.RatNumRef) and out.is_int():
        out = z3.IntNumRef(s, MAIN)
    Z.Z3_dec_ref(CREF, r)
    return out


def raw_cmp(op, x, y):
    """x op y, simplified; returns True / False / BoolRef"""
    a, b = x.ast, y.ast
    r = Z.Z3_mk_lt(CREF, a, b) if op == 'lt' else Z.Z3_mk_le(CREF, a, b) if op == 'le' else \
        Z.Z3_mk_gt(CREF, a, b) if op == 'gt' else Z.Z3_mk_ge(CREF, a, b) if op == 'ge' else Z.Z3_mk_eq(CREF, a, b)
    Z.Z3_inc_ref(CREF, r)
    if op == 'ne':
        q = Z.Z3_mk_not(CREF, r)
        Z.Z3_inc_ref(CREF, q)
        Z.Z3_dec_ref(CREF, r)
        r = q
    s = Z.Z3_simplify(CREF, r)
    v = Z.Z3_get_bool_value(CREF, s)
    if v == 1:
        Z.Z3_dec_ref(CREF, r)
        return True
    if v == -1:
        Z.Z3_dec_ref(CREF, r)
        return False
    out = z3.BoolRef(s, MAIN)
    Z.Z3_dec_ref(CREF, r)
    return out


def mkbool(e):
    """z3 BoolRef -> bool if constant else SymB"""
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymB(e)


def bexpr(b):
    if isinstance(b, SymB):
        return b.e
    if isinstance(b, Sym):
        return b.e != 0
    return z3.BoolVal(bool(b))


class SymB:
    """Symbolic truth value. `rel` is an optional relaxed version, used to look for robust counterexamples."""
    __slots__ = ('e', 'rel')

    def __init__(self, e, rel=None):
        self.e = e
        self.rel = rel

    def __bool__(self):
        return cur().decide(self.e, True)

    def as_num(self):
        return Sym(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __and__(self, o):
        return mkbool(z3.And(self.e, bexpr(o)))
    __rand__ = __and__

    def __or__(self, o):
        return mkbool(z3.Or(self.e, bexpr(o)))
    __ror__ = __or__

    def __xor__(self, o):
        return mkbool(z3.Xor(self.e, bexpr(o)))
    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(z3.Not(self.e))

    def __eq__(self, o):
        if isinstance(o, (bool, np.bool_, SymB)):
            return mkbool(self.e == bexpr(o))
        if isinstance(o, (Sym, int, float, Fraction)):
            return self.as_num() == o
        return False

    def __ne__(self, o):
        r = self == o
        return (not r) if isinstance(r, bool) else mkbool(z3.Not(r.e))

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))
    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        return (str, ('<sym bool>',))

    def __repr__(self):
        return '<symbool>'


def _b_arith(name):
    def f(self, o):
        return getattr(self.as_num(), name)(o)
    return f


for _n in ('__add__', '__radd__', '__sub__', '__rsub__', '__mul__', '__rmul__', '__truediv__', '__rtruediv__',
           '__lt__', '__le__', '__gt__', '__ge__'):
    setattr(SymB, _n, _b_arith(_n))


class Sym:
    """Symbolic exact number (z3 Int or Real). `c` caches the Fraction when the term is a constant."""
    __slots__ = ('_e', 'c', 'i')
    __array_priority__ = 1000

    def __init__(self, e, c=None, i=None):
        self._e = e
        if e is None:
            self.c, self.i = c, i
            return
        a = e.ast
        k = Z.Z3_get_ast_kind(CREF, a)
        self.i = Z.Z3_get_sort_kind(CREF, Z.Z3_get_sort(CREF, a)) == INT_SORT if i is None else i
        if c is None and k == NUMERAL:
            c = to_fraction(e)
        self.c = c

    @property
    def e(self):
        if self._e is None:
            self._e = int_val(self.c.numerator) if self.i else real_val(self.c)
        return self._e

    @staticmethod
    def const(fr, real=True):
        fr = Fraction(fr)
        return Sym(None, fr, not real and fr.denominator == 1)

    @property
    def is_int(self):
        return self.i

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    # -- coercion
    @staticmethod
    def lift(x):
        if isinstance(x, Sym):
            return x
        if isinstance(x, SymB):
            return x.as_num()
        if isinstance(x, (bool, np.bool_)):
            return Sym(None, Fraction(int(x)), True)
        if isinstance(x, (int, np.integer)):
            return Sym(None, Fraction(int(x)), True)
        if isinstance(x, np.ndarray) and x.ndim == 0:
            return Sym.lift(x.item())
        if is_num(x):
            fr = num_frac(x)
            if fr is None:
                return None
            return Sym(None, fr, False)
        return None

    def r(self):
        """Real-sorted term"""
        if self.i:
            return real_val(self.c) if self.c is not None else z3.ToReal(self.e)
        return self.e

    def _pair(self, o):
        a, b = self, Sym.lift(o)
        if b is None:
            return None
        return a, b

    def _arith(self, o, op, swap=False):
        if isinstance(o, float) and (math.isnan(o) or math.isinf(o)):
            return self._nonfinite(o, op, swap)
        p = self._pair(o)
        if p is None:
            return NotImplemented
        a, b = p if not swap else (p[1], p[0])
        ii = a.i and b.i
        if a.c is not None and b.c is not None:
            v = a.c + b.c if op == '+' else a.c - b.c if op == '-' else a.c * b.c
            return Sym.const(v, real=not ii)
        if op == '*':
            if (a.c is not None and a.c == 0) or (b.c is not None and b.c == 0):
                return Sym.const(0, real=not ii)
            if a.c is not None and a.c == 1:
                return b if ii or not b.i else Sym(b.r())
            if b.c is not None and b.c == 1:
                return a if ii or not a.i else Sym(a.r())
        else:
            if b.c is not None and b.c == 0:
                return a if ii or not a.i else Sym(a.r())
            if op == '+' and a.c is not None and a.c == 0:
                return b if ii or not b.i else Sym(b.r())
        x, y = (a.e, b.e) if ii else (a.r(), b.r())
        return Sym(raw_arith(op, x, y), None, ii)

    def _nonfinite(self, o, op, swap):
        if math.isnan(o):
            return math.nan
        if op == '+':
            return o
        if op == '-':
            return o if swap else -o
        if op == '*':
            if self > 0:
                return o
            if self < 0:
                return -o
            return math.nan
        raise Unsupported('non-finite operand')

    def __add__(self, o):
        return self._arith(o, '+')

    def __radd__(self, o):
        return self._arith(o, '+', True)

    def __sub__(self, o):
        return self._arith(o, '-')

    def __rsub__(self, o):
        return self._arith(o, '-', True)

    def __mul__(self, o):
        if isinstance(o, (list, tuple, str)):
            return o * cur().pick_int(self.e)
        return self._arith(o, '*')

    def __rmul__(self, o):
        if isinstance(o, (list, tuple, str)):
            return o * cur().pick_int(self.e)
        return self._arith(o, '*', True)

    def __neg__(self):
        return Sym.const(-self.c, not self.i) if self.c is not None else Sym(z3.simplify(-self.e))

    def __pos__(self):
        return self

    def __abs__(self):
        if self.c is not None:
            return Sym.const(abs(self.c), not self.i)
        if fork_minmax():
            return self if self >= 0 else -self
        return Sym(z3.If(self.e >= 0, self.e, -self.e))

    @staticmethod
    def _div(a, b):
        if b.c is not None:
            if b.c == 0:
                raise ZeroDivisionError('division by zero')
            if a.c is not None:
                return Sym.const(a.c / b.c)
            return Sym(z3.simplify(a.r() * real_val(1 / b.c)))
        if cur().decide(b.e == 0):
            raise ZeroDivisionError('division by zero')
        if a.c is not None and a.c == 0:
            return Sym.const(0)
        return Sym(z3.simplify(a.r() / b.r()))

    def __truediv__(self, o):
        if isinstance(o, float) and math.isinf(o):
            return Sym.const(0)
        p = self._pair(o)
        if p is None:
            return NotImplemented
        return Sym._div(p[0], p[1])

    def __rtruediv__(self, o):
        p = self._pair(o)
        if p is None:
            return NotImplemented
        return Sym._div(p[1], p[0])

    @staticmethod
    def _floordiv(a, b):
        if b.c is not None and b.c == 0:
            raise ZeroDivisionError('division by zero')
        if b.c is None and cur().decide(b.e == 0):
            raise ZeroDivisionError('division by zero')
        q = z3.ToInt(a.r() / b.r())
        return Sym(z3.simplify(q if a.i and b.i else z3.ToReal(q)))

    def __floordiv__(self, o):
        p = self._pair(o)
        return NotImplemented if p is None else Sym._floordiv(p[0], p[1])

    def __rfloordiv__(self, o):
        p = self._pair(o)
        return NotImplemented if p is None else Sym._floordiv(p[1], p[0])

    def __mod__(self, o):
        p = self._pair(o)
        return NotImplemented if p is None else p[0] - p[1] * Sym._floordiv(p[0], p[1])

    def __rmod__(self, o):
        if isinstance(o, str):
            return o
        p = self._pair(o)
        return NotImplemented if p is None else p[1] - p[0] * Sym._floordiv(p[1], p[0])

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o, mod=None):
        o = Sym.lift(o)
        if o is None or o.c is None:
            raise Unsupported('symbolic exponent')
        return sym_pow(self, o.c)

    def __rpow__(self, o):
        if self.c is not None:
            return sym_pow(Sym.lift(o), self.c)
        raise Unsupported('symbolic exponent')

    # -- comparison
    def _cmp(self, o, op):
        if isinstance(o, (float, np.floating)) and not math.isfinite(float(o)):
            if math.isnan(o):
                return op == 'ne'
            big = o > 0
            return {'lt': big, 'le': big, 'gt': not big, 'ge': not big, 'eq': False, 'ne': True}[op]
        p = self._pair(o)
        if p is None:
            return NotImplemented
        a, b = p
        if a.c is not None and b.c is not None:
            return {'lt': a.c < b.c, 'le': a.c <= b.c, 'gt': a.c > b.c, 'ge': a.c >= b.c, 'eq': a.c == b.c,
                    'ne': a.c != b.c}[op]
        x, y = (a.e, b.e) if a.i and b.i else (a.r(), b.r())
        e = raw_cmp(op, x, y)
        return e if isinstance(e, bool) else SymB(e)

    def __lt__(self, o):
        return self._cmp(o, 'lt')

    def __le__(self, o):
        return self._cmp(o, 'le')

    def __gt__(self, o):
        return self._cmp(o, 'gt')

    def __ge__(self, o):
        return self._cmp(o, 'ge')

    def __eq__(self, o):
        r = self._cmp(o, 'eq')
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, 'ne')
        return True if r is NotImplemented else r

    def __bool__(self):
        r = self != 0
        return bool(r)

    def __hash__(self):
        if self.c is not None:
            return hash(self.c)
        if self.i:
            return hash(cur().pick_int(self.e))
        return 0x51         # all real-valued terms collide: the container then compares with ==, which forks

    # -- conversion
    def trunc(self):
        if self.i:
            return self
        if self.c is not None:
            return Sym.const(int(self.c), real=False)
        return Sym(z3.simplify(z3.If(self.e >= 0, z3.ToInt(self.e), -z3.ToInt(-self.e))))

    __trunc__ = trunc

    def __floor__(self):
        if self.i:
            return self
        if self.c is not None:
            return Sym.const(math.floor(self.c), real=False)
        return Sym(z3.simplify(z3.ToInt(self.e)))

    def __ceil__(self):
        return -((-self).__floor__())

    def to_real(self):
        return self if not self.i else Sym(self.r(), self.c)

    def __round__(self, ndigits=None):
        if ndigits is None:
            if self.i:
                return self
            if self.c is not None:
                return Sym.const(round(self.c), real=False)
            f = z3.ToInt(self.e + z3.RealVal('1/2'))
            tie = z3.ToReal(f) == self.e + z3.RealVal('1/2')
            return Sym(z3.If(z3.And(tie, f % 2 != 0), f - 1, f))
        if self.i and ndigits >= 0:
            return self
        if self.c is not None:
            return Sym.const(round(self.c, ndigits))
        s = cur()
        if ndigits <= 6:
            # coarse rounding: a multiple of the unit, so that models of it can be replayed
            i = z3.Int(s.fresh_name('round'))
            unit = real_val(Fraction(1, 10 ** ndigits) if ndigits >= 0 else Fraction(10 ** -ndigits))
            y = z3.ToReal(i) * unit
        else:
            y = z3.Real(s.fresh_name('round'))
        half = real_val(Fraction(1, 2 * 10 ** ndigits) if ndigits >= 0 else Fraction(10 ** -ndigits, 2))
        s.add(y - self.e <= half)
        s.add(self.e - y <= half)
        s.model = None
        return Sym(y)

    def sqrt(self):
        return sym_pow(self, Fraction(1, 2))

    def is_integer(self):
        return True if self.i else mkbool(z3.IsInt(self.e))

    def conjugate(self):
        return self

    def item(self):
        return self

    def as_integer_ratio(self):
        raise Unsupported('as_integer_ratio')

    def __float__(self):
        if self.c is not None:
            return float(self.c)
        return float(cur().concretise(self.e, 'float() in native code'))

    def __int__(self):
        if self.c is not None:
            return int(self.c)
        return int(cur().pick_int(self.trunc().e))

    def __index__(self):
        if self.c is not None and self.c.denominator == 1:
            return int(self.c)
        if self.i:
            return cur().pick_int(self.e)
        raise TypeError("'float' object cannot be interpreted as an integer")

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        return (str, ('<sym>',))

    def __repr__(self):
        return '<sym>' if self.c is None else repr(float(self.c)) if not self.i else repr(int(self.c))

    __str__ = __repr__

    def __format__(self, spec):
        if self.c is not None:
            try:
                return format(int(self.c) if self.i else float(self.c), spec)
            except ValueError:
                pass
        return '<sym>'


numbers.Number.register(Sym)


def snap(fr):
    """1/3 written as a Python float is not one third; exponents are snapped to a nearby small rational."""
    s = Fraction(fr).limit_denominator(16)
    return s if abs(s - fr) < Fraction(1, 10 ** 14) else Fraction(fr)


def sym_pow(x, ex):
    ex = snap(ex)
    if ex.denominator == 1:
        n = int(ex)
        if n < 0:
            return Sym.const(1) / sym_pow(x, -n)
        out = Sym.const(1, real=not x.i)
        for _ in range(n):
            out = out * x
        return out
    if ex.denominator > 16:
        raise Unsupported('exponent %s' % ex)
    if ex < 0:
        return Sym.const(1) / sym_pow(x, -ex)
    p, q = ex.numerator, ex.denominator
    if x.c is not None:
        if x.c < 0:
            raise Unsupported('root of a negative number')
        num, den = iroot(x.c.numerator, q), iroot(x.c.denominator, q)
        if num is not None and den is not None:
            return Sym.const(Fraction(num, den) ** p)
    elif cur().decide(x.e < 0):
        raise Unsupported('root of a negative number')
    s = cur()
    # memoised: the same root of the same term is the same value
    key = ('root', x.r().get_id(), q)
    memo = s.opts.setdefault('_roots', {})
    if s.opts.get('_roots_state') is not s:
        memo.clear()
        s.opts['_roots_state'] = s
    if key not in memo:
        y = z3.Real(s.fresh_name('root'))
        prod = y
        for _ in range(q - 1):
            prod = prod * y
        s.add(y >= 0)
        s.add(prod == x.r())
        s.model = None
        memo[key] = (Sym(y), x)
    return sym_pow(memo[key][0], Fraction(p))


def iroot(n, q):
    if n < 0:
        return None
    r = round(n ** (1.0 / q)) if n < 1 << 900 else None
    if r is None:
        return None
    for c in (r - 1, r, r + 1):
        if c >= 0 and c ** q == n:
            return c
    return None


# ---------------------------------------------------------------------------------------------- IEEE doubles
F64 = z3.Float64()
RNE = z3.RNE()


class SymF:
    """Symbolic IEEE-754 double."""
    __slots__ = ('e',)
    __array_priority__ = 1000

    def __init__(self, e):
        self.e = e

    @staticmethod
    def lift(x):
        if isinstance(x, SymF):
            return x
        if isinstance(x, (bool, int, np.integer)):
            return SymF(z3.FPVal(float(x), F64))
        if isinstance(x, (float, np.floating)):
            x = float(x)
            if math.isnan(x):
                return SymF(z3.fpNaN(F64))
            if math.isinf(x):
                return SymF(z3.fpPlusInfinity(F64) if x > 0 else z3.fpMinusInfinity(F64))
            return SymF(z3.FPVal(x, F64))
        if isinstance(x, Fraction):
            return SymF(z3.FPVal(float(x), F64))
        if isinstance(x, Sym) and x.c is not None:
            return SymF(z3.FPVal(float(x.c), F64))
        return None

    def _bin(self, o, f, swap=False):
        b = SymF.lift(o)
        if b is None:
            return NotImplemented
        x, y = (self.e, b.e) if not swap else (b.e, self.e)
        return SymF(f(RNE, x, y))

    def __add__(self, o):
        return self._bin(o, z3.fpAdd)

    def __radd__(self, o):
        return self._bin(o, z3.fpAdd, True)

    def __sub__(self, o):
        return self._bin(o, z3.fpSub)

    def __rsub__(self, o):
        return self._bin(o, z3.fpSub, True)

    def __mul__(self, o):
        return self._bin(o, z3.fpMul)

    def __rmul__(self, o):
        return self._bin(o, z3.fpMul, True)

    @staticmethod
    def _div(a, b):
        if cur().decide(z3.fpIsZero(b.e)):
            raise ZeroDivisionError('float division by zero')
        return SymF(z3.fpDiv(RNE, a.e, b.e))

    def __truediv__(self, o):
        b = SymF.lift(o)
        return NotImplemented if b is None else SymF._div(self, b)

    def __rtruediv__(self, o):
        b = SymF.lift(o)
        return NotImplemented if b is None else SymF._div(b, self)

    def __neg__(self):
        return SymF(z3.fpNeg(self.e))

    def __abs__(self):
        return SymF(z3.fpAbs(self.e))

    def _cmp(self, o, f):
        b = SymF.lift(o)
        if b is None:
            return NotImplemented
        return mkbool(f(self.e, b.e))

    def __lt__(self, o):
        return self._cmp(o, z3.fpLT)

    def __le__(self, o):
        return self._cmp(o, z3.fpLEQ)

    def __gt__(self, o):
        return self._cmp(o, z3.fpGT)

    def __ge__(self, o):
        return self._cmp(o, z3.fpGEQ)

    def __eq__(self, o):
        r = self._cmp(o, z3.fpEQ)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self == o
        return (not r) if isinstance(r, bool) else mkbool(z3.Not(r.e))

    def __bool__(self):
        return cur().decide(z3.Not(z3.fpIsZero(self.e)))

    def __hash__(self):
        return 0x52

    def isnan(self):
        return mkbool(z3.fpIsNaN(self.e))

    def isinf(self):
        return mkbool(z3.fpIsInf(self.e))

    def isfinite(self):
        return mkbool(z3.Not(z3.Or(z3.fpIsNaN(self.e), z3.fpIsInf(self.e))))

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __float__(self):
        raise Unsupported('float() of a symbolic double in native code')

    def __repr__(self):
        return '<symdouble>'
    __str__ = __repr__

    def __format__(self, spec):
        return '<symdouble>'


def is_sym(x):
    return isinstance(x, (Sym, SymB, SymF))


# ---------------------------------------------------------------------------------------------- merging min / max
def merge2(cond, a, b):
    """If(cond, a, b) over symbolic / concrete numbers"""
    if isinstance(cond, bool):
        return a if cond else b
    if isinstance(a, SymF) or isinstance(b, SymF):
        return SymF(z3.If(cond.e, SymF.lift(a).e, SymF.lift(b).e))
    x, y = Sym.lift(a), Sym.lift(b)
    if x.i and y.i:
        return Sym(z3.If(cond.e, x.e, y.e))
    return Sym(z3.If(cond.e, x.r(), y.r()))


def sym_minmax(items, is_max):
    items = list(items)
    best = items[0]
    for x in items[1:]:
        if isinstance(x, tuple) or isinstance(best, tuple) or not (is_sym(x) or is_sym(best)):
            if (x > best) if is_max else (x < best):
                best = x
            continue
        c = (x > best) if is_max else (x < best)
        if isinstance(c, SymB) and fork_minmax():
            c = bool(c)
        best = merge2(c, x, best)
    return best


# -- numpy arrays on the other side of an operator: elementwise, as numpy would
def _elementwise(name):
    def wrap(orig):
        def f(self, o, *rest):
            if isinstance(o, np.ndarray):
                out = np.empty(o.shape, dtype=object)
                for i, x in enumerate(o.flat):
                    out.flat[i] = orig(self, x, *rest)
                return out
            return orig(self, o, *rest)
        f.__name__ = name
        return f
    return wrap


for _cls in (Sym, SymF, SymB):
    for _n in ('add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'truediv', 'rtruediv', 'floordiv', 'rfloordiv', 'mod', 'rmod',
               'pow', 'rpow', 'lt', 'le', 'gt', 'ge', 'eq', 'ne', 'and', 'rand', 'or', 'ror'):
        _n = '__%s__' % _n
        if _n in vars(_cls):
            setattr(_cls, _n, _elementwise(_n)(vars(_cls)[_n]))
