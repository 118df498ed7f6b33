"""Runtime of the instrumented code: calls to builtins / C functions that cannot take symbolic arguments are dispatched
to symbolic equivalents (only when an argument actually is symbolic)."""
import builtins
import functools
import heapq
import math
import operator
import statistics

import numpy as np
import z3

from . import sym
from .sym import Sym, SymB, SymF, is_sym, sym_minmax, Unsupported

ENTERED = {}          # qualified function name -> number of entries (evidence: what was executed symbolically)


def enter(name):
    ENTERED[name] = ENTERED.get(name, 0) + 1


def _deep_sym(x, depth=2):
    if is_sym(x):
        return True
    if depth and isinstance(x, (list, tuple, set, frozenset)):
        return any(_deep_sym(i, depth - 1) for i in x)
    if depth and isinstance(x, np.ndarray) and x.dtype == object:
        return any(is_sym(i) for i in x.flat)
    if depth and isinstance(x, type({}.values())):
        return any(_deep_sym(i, depth - 1) for i in x)
    return False


def seq(x):
    """Materialise an iterable without consuming something the caller needs twice."""
    if isinstance(x, np.ndarray):
        return list(x.flat) if x.ndim != 1 else list(x)
    return list(x)


TABLE = {}


def handles(*fns):
    def deco(h):
        for f in fns:
            if f is not None:
                TABLE[id(f)] = (f, h)
        return h
    return deco


class _Native(Exception):
    pass


@handles(builtins.min, builtins.max)
def _minmax(f, *args, **kw):
    is_max = f is builtins.max
    items = seq(args[0]) if len(args) == 1 else list(args)
    if kw.get('key') is not None or not items:
        if not items:
            if 'default' in kw:
                return kw['default']
            raise ValueError('max() arg is an empty sequence' if is_max else 'min() arg is an empty sequence')
        key = kw['key']
        best, bk = items[0], key(items[0])
        for x in items[1:]:
            k = key(x)
            if (k > bk) if is_max else (k < bk):
                best, bk = x, k
        return best
    if not any(_deep_sym(i) for i in items):
        return f(items)
    return sym_minmax(items, is_max)


@handles(np.minimum, np.maximum)
def _npminmax(f, a, b, *r, **kw):
    if is_sym(a) or is_sym(b):
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            return f(a, b, *r, **kw)
        return sym_minmax([a, b], f is np.maximum)
    return f(a, b, *r, **kw)


@handles(builtins.sum, math.fsum)
def _sum(f, it, *start, **kw):
    if isinstance(it, np.ndarray) and it.dtype != object:
        return f(it, *start, **kw)
    items = seq(it)
    st = start[0] if start else kw.get('start', 0)
    if not _deep_sym(items, 1) and not is_sym(st):
        return f(items, *start, **kw)
    if any(isinstance(i, SymF) for i in items):
        if f is math.fsum and len(items) > 2:
            raise Unsupported('fsum over more than two symbolic doubles')
        tot = st if st != 0 else items[0]
        for i in (items if st != 0 else items[1:]):
            tot = tot + i
        return tot
    # exact sum; concrete floats enter at their exact rational value
    tot = Sym.lift(st)
    for i in items:
        tot = tot + i
    return tot


@handles(builtins.float)
def _float(f, *a):
    if a and isinstance(a[0], Sym):
        return a[0].to_real()
    if a and isinstance(a[0], SymB):
        return a[0].as_num().to_real()
    if a and isinstance(a[0], SymF):
        return a[0]
    if a and isinstance(a[0], TypedNumber):
        return a[0].as_float()
    return f(*a)


@handles(builtins.int)
def _int(f, *a, **kw):
    if a and isinstance(a[0], Sym):
        return a[0].trunc()
    if a and isinstance(a[0], SymB):
        return a[0].as_num()
    if a and isinstance(a[0], TypedNumber):
        return a[0].as_int()
    return f(*a, **kw)


@handles(builtins.str)
def _str(f, *a, **kw):
    if a and isinstance(a[0], Sym):
        return SymText(a[0])
    return f(*a, **kw)


class SymText(str):
    """str() of a symbolic number: text for display that still knows its value."""
    def __new__(cls, value):
        s = str.__new__(cls, repr(value))
        s.value = value
        return s


class TypedNumber(str):
    """A number as typed on the command line: text whose parsed value is symbolic."""
    def __new__(cls, value, integral):
        s = str.__new__(cls, '1' if integral else '1.5')
        s.value, s.integral = value, integral
        return s

    def as_float(self):
        return self.value if isinstance(self.value, SymF) else self.value.to_real() if is_sym(self.value) else float(self.value)

    def as_int(self):
        if not self.integral:
            raise ValueError('invalid literal for int()')
        return self.value

    def strip(self, *a):
        return self

    lstrip = rstrip = strip


@handles(builtins.bool)
def _bool(f, *a):
    return bool(a[0]) if a else False


@handles(builtins.isinstance)
def _isinstance(f, x, t):
    if is_sym(x):
        ts = t if isinstance(t, tuple) else (t,)
        import numbers
        for c in ts:
            if isinstance(x, SymB):
                if c in (bool, int, object):
                    return True
            elif isinstance(x, SymF):
                if c in (float, object, numbers.Number, numbers.Real):
                    return True
            else:
                if c in (object, numbers.Number, numbers.Real):
                    return True
                if c in (int, numbers.Integral) and x.e.is_int():
                    return True
                if c is float and not x.e.is_int():
                    return True
            if f(x, c):
                return True
        return False
    return f(x, t)


@handles(math.isnan, np.isnan)
def _isnan(f, x):
    return x.isnan() if isinstance(x, SymF) else False if is_sym(x) else f(x)


@handles(math.isinf, np.isinf)
def _isinf(f, x):
    return x.isinf() if isinstance(x, SymF) else False if is_sym(x) else f(x)


@handles(math.isfinite, np.isfinite)
def _isfinite(f, x):
    return x.isfinite() if isinstance(x, SymF) else True if is_sym(x) else f(x)


@handles(math.sqrt, np.sqrt)
def _sqrt(f, x):
    return x.sqrt() if isinstance(x, Sym) else f(x)


@handles(math.cbrt, np.cbrt)
def _cbrt(f, x):
    from fractions import Fraction
    return sym.sym_pow(x, Fraction(1, 3)) if isinstance(x, Sym) else f(x)


@handles(math.fabs, np.abs, np.absolute)
def _fabs(f, x):
    return abs(x) if is_sym(x) else f(x)


@handles(math.pow, builtins.pow, operator.pow, np.power)
def _pow(f, a, b, *r):
    return a ** b if is_sym(a) or is_sym(b) else f(a, b, *r)


@handles(math.prod, np.prod)
def _prod(f, it, **kw):
    items = seq(it)
    if not _deep_sym(items, 1):
        return f(items, **kw)
    t = kw.get('start', 1)
    for i in items:
        t = t * i
    return t


@handles(math.floor, math.ceil, math.trunc, np.floor, np.ceil)
def _floor(f, x):
    if isinstance(x, Sym):
        r = x.__floor__() if f in (math.floor, np.floor) else x.__ceil__() if f in (math.ceil, np.ceil) else x.trunc()
        return r.to_real() if f in (np.floor, np.ceil) else r
    return f(x)


@handles(math.isclose, np.isclose)
def _isclose(f, a, b, **kw):
    if not (is_sym(a) or is_sym(b)):
        return f(a, b, **kw)
    if isinstance(a, SymF) or isinstance(b, SymF):
        raise Unsupported('isclose on doubles')
    rel = kw.get('rel_tol', kw.get('rtol', 1e-9 if f is math.isclose else 1e-5))
    ab = kw.get('abs_tol', kw.get('atol', 0.0 if f is math.isclose else 1e-8))
    m = sym_minmax([abs(a), abs(b)], True)
    return abs(a - b) <= sym_minmax([rel * m, ab], True)


@handles(statistics.mean, statistics.fmean, np.mean, np.average)
def _mean(f, it, *a, **kw):
    if isinstance(it, np.ndarray) and it.dtype != object:
        return f(it, *a, **kw)
    items = seq(it)
    if not _deep_sym(items, 1):
        return f(items, *a, **kw)
    if a or kw:
        return f(items, *a, **kw)
    return _sum(builtins.sum, items) / len(items)


@handles(statistics.median, np.median, statistics.median_low, statistics.median_high)
def _median(f, it, *a, **kw):
    if isinstance(it, np.ndarray) and it.dtype != object:
        return f(it, *a, **kw)
    items = seq(it)
    if not _deep_sym(items, 1):
        return f(items, *a, **kw)
    s = sorted(items)
    n = len(s)
    if n % 2:
        return s[n // 2]
    if f is statistics.median_low:
        return s[n // 2 - 1]
    if f is statistics.median_high:
        return s[n // 2]
    return (s[n // 2 - 1] + s[n // 2]) / 2


@handles(statistics.pstdev, np.std)
def _std(f, it, *a, **kw):
    items = seq(it)
    if not _deep_sym(items, 1):
        return f(items, *a, **kw)
    m = _mean(statistics.mean, items)
    v = _sum(builtins.sum, [(i - m) * (i - m) for i in items]) / len(items)
    return v.sqrt()


@handles(np.sum)
def _npsum(f, x, *a, **kw):
    if isinstance(x, np.ndarray):
        return f(x, *a, **kw)
    items = seq(x)
    if not a and not kw and _deep_sym(items, 1):
        return _sum(builtins.sum, items)
    return f(items, *a, **kw)


@handles(np.fromiter)
def _fromiter(f, it, dtype=None, *a, **kw):
    items = list(it)
    if _deep_sym(items, 1):
        return objarr(items)
    return f(items, dtype if dtype is not None else kw.pop('dtype'), *a, **kw)


@handles(np.array, np.asarray)
def _nparray(f, x, *a, **kw):
    if not isinstance(x, np.ndarray):
        try:
            items = list(x)
        except TypeError:
            return f(x, *a, **kw)
        if _deep_sym(items, 3):
            if any(isinstance(i, (list, tuple)) for i in items):
                return f(items, dtype=object)
            return objarr(items)
        return f(items if not isinstance(x, (list, tuple)) else x, *a, **kw)
    return f(x, *a, **({} if x.dtype == object else kw))


def objarr(items):
    out = np.empty(len(items), dtype=object)
    for i, v in enumerate(items):
        out[i] = v
    return out


@handles(np.argmax, np.argmin)
def _argmax(f, x, *a, **kw):
    items = seq(x)
    if a or kw or not _deep_sym(items, 1):
        return f(x, *a, **kw)
    best = 0
    if all(isinstance(i, (SymB, bool, np.bool_)) for i in items):
        for i, v in enumerate(items):
            if bool(v) == (f is np.argmax):
                return i
        return 0
    for i in range(1, len(items)):
        if (items[i] > items[best]) if f is np.argmax else (items[i] < items[best]):
            best = i
    return best


@handles(np.isin)
def _isin(f, *a, **kw):
    return f(*a, **kw)


# -- lru_cache: a cache that hits exactly when the key is syntactically identical (see DESIGN.md)
_CACHES = []


def reset_caches():
    for c in _CACHES:
        c.clear()


def _key_eq(a, b):
    if is_sym(a) or is_sym(b):
        if not (is_sym(a) and is_sym(b)):
            return False
        if type(a) is not type(b):
            return False
        return z3.eq(a.e, b.e)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(_key_eq(x, y) for x, y in zip(a, b))
    if a is b:
        return True
    try:
        return hash(a) == hash(b) and bool(a == b)
    except TypeError:
        raise


def sym_cached(fn):
    store = []
    _CACHES.append(store)

    @functools.wraps(fn)
    def wrapper(*args, **kw):
        key = (args, tuple(sorted(kw.items())))
        names = tuple(k for k, _ in key[1])
        vals = args + tuple(v for _, v in key[1])
        for v in vals:
            if isinstance(v, (list, dict, set)):
                raise TypeError('unhashable type: %r' % type(v).__name__)
        for n2, v2, res in store:
            if n2 == (len(args), names) and len(v2) == len(vals) and all(_key_eq(x, y) for x, y in zip(vals, v2)):
                return res
        res = fn(*args, **kw)
        store.append(((len(args), names), vals, res))
        return res
    wrapper.cache_clear = store.clear
    wrapper.cache_info = lambda: None
    return wrapper


@handles(functools.lru_cache, functools.cache)
def _lru(f, *a, **kw):
    if a and callable(a[0]):
        return sym_cached(a[0])
    return sym_cached


def deco(d):
    if d is functools.lru_cache or d is functools.cache:
        return sym_cached
    return d


def call(f, /, *args, **kw):
    h = TABLE.get(id(f))
    if h is None or h[0] is not f:
        return f(*args, **kw)
    return h[1](f, *args, **kw)
