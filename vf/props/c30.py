"""C30  the least pledge that controls half of the stake"""
import itertools

from vf.props import register
from vf.props.util import *
from vf.props.c20 import metric, some_pools

ASSUMPTIONS = ['The external optimiser (GEKKO / APOPT) finds the optimum of the problem it is given: it is replaced by one that does, for '
               'problems that are linear in 0/1 variables.']


class Linear:
    """A linear expression: constant and coefficients by variable"""
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __init__(self, terms=None, const=0):
        self.terms, self.const = dict(terms or {}), const

    def _lift(self, o):
        return o if isinstance(o, Linear) else Linear({}, o)

    def __add__(self, o):
        o = self._lift(o)
        out = Linear(self.terms, self.const + o.const)
        for v, q in o.terms.items():
            out.terms[v] = out.terms[v] + q if v in out.terms else q
        return out

    __radd__ = __add__

    def __mul__(self, f):
        if isinstance(f, Linear):
            raise HarnessError('the problem is not linear')
        return Linear({v: q * f for v, q in self.terms.items()}, self.const * f)

    __rmul__ = __mul__

    def __neg__(self):
        return self * -1

    def __sub__(self, o):
        return self + (-self._lift(o))

    def __rsub__(self, o):
        return self._lift(o) - self

    def __truediv__(self, f):
        return self * (1 / f)

    def at(self, chosen):
        return self.const + vsum(q for v, q in self.terms.items() if chosen[v])

    def __ge__(self, o):
        return 'ge', self - o

    def __le__(self, o):
        return 'ge', self._lift(o) - self

    def __gt__(self, o):
        return self >= o

    def __lt__(self, o):
        return self <= o

    __hash__ = object.__hash__


class Optimiser:
    """Stands in for GEKKO: solves exactly what it is given"""
    ctx = None

    def __init__(self, *a, **k):
        self.vars, self.rules, self.goal, self.handles = [], [], None, []
        self.options = type('Options', (), {})()

    def Var(self, value=None, lb=None, ub=None, integer=False, **k):
        v = Linear()
        v.terms = {len(self.vars): 1}
        v.value = v.VALUE = [value]
        self.vars.append((lb, ub, integer))
        self.handles.append(v)
        return v

    def Array(self, f, dim, *a, **kw):
        import numpy as np
        out = np.empty(dim, dtype=object)
        for i in range(dim if isinstance(dim, int) else dim[0]):
            out[i] = f(**kw)
        return out

    def sum(self, xs):
        return vsum(xs)

    def Minimize(self, e):
        self.goal = e if isinstance(e, Linear) else Linear({}, e)

    Obj = Minimize

    def Maximize(self, e):
        self.Minimize(-e)

    def Equation(self, rule):
        self.rules.append(rule)

    def Equations(self, rules):
        self.rules += list(rules)

    def solve(self, *a, **k):
        ctx = Optimiser.ctx
        binary = all(lb == 0 and ub == 1 and i for lb, ub, i in self.vars)
        best, any_ok = 0, False
        at = [0] * len(self.vars)
        for chosen in itertools.product((0, 1), repeat=len(self.vars)):
            ok = land(*[is_true(e.at(chosen) >= 0) for _, e in self.rules])
            value = self.goal.at(chosen)
            better = land(ok, lor(lnot(any_ok), is_true(value < best))) if any_ok is not False else ok
            best = ite(better, value, best)
            at = [ite(better, x, y) for x, y in zip(chosen, at)]
            any_ok = lor(ok, any_ok)
        if not ctx.test(any_ok):
            raise Exception('no solution found')
        if not binary:
            # parts of a pool do at least as well as whole pools; how well, the reference does not say
            best = ctx.real('relaxed', -1, 1)
        elif self.handles:
            for v, x in zip(self.handles, at):
                v.value = v.VALUE = [x]
        self.options.objfcnval = self.options.OBJFCNVAL = best


def use_reference(ctx):
    import gekko
    Optimiser.ctx = ctx
    for module in (gekko, ctx.mods.model_reporters):
        if hasattr(module, 'GEKKO'):
            ctx.patch(module, 'GEKKO', Optimiser)


@register('C30', quick=[dict(owners=o) for o in ((), (0,), (0, 1), (1, 1, 0), (0, 1, 2))],
          thorough=[dict(owners=o) for o in ((), (0,), (0, 1), (1, 1, 0), (0, 1, 2), (0, 0, 1, 2))],
          cover=('pools', 'no pools'),
          bounds='up to 3 (thorough 4) pools with any pledges and stakes')
def least_pledge(ctx):
    """The metric is the optimum over all sets of pools that hold half of the stake"""
    c = ctx.cfg
    sim = make_sim(ctx, n=3, k=3)
    pools = some_pools(ctx, sim, c['owners'], margin=[0.1] * len(c['owners']))
    use_reference(ctx)
    got = metric(ctx, sim, 'Min-aggregate pledge')
    ctx.cover('pools' if pools else 'no pools')
    if not pools:
        ctx.check('no pledge without pools', eq(got, 0))
        return
    total = vsum(p.stake for p in pools)
    attained = []
    for chosen in itertools.product((0, 1), repeat=len(pools)):
        mine = [p for p, x in zip(pools, chosen) if x]
        held = vsum(p.stake for p in mine)
        ctx.assume(gt(vabs(2 * held - total), 1e-6))      # ties: below
        enough = gt(2 * held, total)
        pledge = vsum(p.pledge for p in mine)
        ctx.check('no set of pools with half of the stake has pledged less', implies(enough, le(got, pledge)))
        attained.append(land(enough, eq(got, pledge)))
    ctx.check('some set of pools with half of the stake has pledged just that', lor(*attained))


@register('C30', quick=[dict(owners=(0, 1)), dict(owners=(0, 1, 2, 0), twice=1)], cover=('tie',),
          bounds='2 or 4 pools of the same size with any pledges')
def exactly_half(ctx):
    """Pools that hold exactly half of the stake are enough"""
    n = len(ctx.cfg['owners'])
    sim = make_sim(ctx, n=3, k=4)
    pledges = [ctx.choice('pledge', (0.0625, 0.125)) if i else ctx.real('pledge', 0.01, 0.2) for i in range(n)]
    pools = some_pools(ctx, sim, ctx.cfg['owners'], margin=[0.1] * n, pledge=pledges, delegated=[0.25 - p for p in pledges])
    for p in pools:
        p.stake = 0.25
    use_reference(ctx)
    got = metric(ctx, sim, 'Min-aggregate pledge')
    ctx.cover('tie')
    halves = [vsum(x) for x in itertools.combinations(pledges, n // 2)]
    for h in halves:
        ctx.check('half of the stake is enough', le(got, h))
    ctx.check('half of the stake is needed', lor(*[eq(got, h) for h in halves]))
