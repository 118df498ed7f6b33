"""C22  rankings of agents, and the metrics built on them"""
from vf.props import register
from vf.props.util import *
from vf.props.c20 import metric, some_pools, middle

ASSUMPTIONS = ['The rank metrics average over pools (an operator with two pools counts twice) and are rounded to whole ranks.']


@register('C22', quick=[dict(n=n, tie=t) for n in (1, 2, 3, 4) for t in (0, 1)] + [dict(n=3, tie=0, ids=0)],
          thorough=[dict(n=n, tie=t) for n in (1, 2, 3, 4, 5) for t in (0, 1)] + [dict(n=4, tie=0, ids=0), dict(n=4, tie=1, ids=0)],
          bounds='1-4 (thorough 5) items with any values, with or without tie breakers with any values')
def ranks(ctx):
    """Ranks are a permutation that follows the values, then the tie breakers, then age"""
    c = ctx.cfg
    n = c['n']
    ids = [7, 3, 5, 1, 9][:n]
    value = {i: ctx.real('value', 0, 1) for i in ids}
    tie = {i: ctx.real('tie_breaker', 0, 1) for i in ids}
    args = [value] + ([tie] if c['tie'] else [])
    kw = {} if c.get('ids', 1) else {'rank_ids': False}
    got = ctx.mods.helper.calculate_ranks(*args, **kw)
    ctx.check('every item has a rank of its own, from 1 on', sorted(got) == sorted(ids) and sorted(got.values()) == list(range(1, n + 1)))
    for a in ids:
        for b in ids:
            if got[a] < got[b]:
                ahead = lor(gt(value[a], value[b]), land(eq(value[a], value[b]), True if not c['tie'] and not c.get('ids', 1) else
                            land(True, a < b) if not c['tie'] else
                            lor(gt(tie[a], tie[b]), land(eq(tie[a], tie[b]), True if not c.get('ids', 1) else a < b))))
                ctx.check('better values rank first; ties go by the tie breakers, then to the older item', ahead)
    ctx.observe('ranks', got)


@register('C22', quick=[dict(owners=o, of=w) for o in ((), (0,), (1, 2), (2, 0, 2), (1, 1, 0)) for w in ('stake', 'cost')],
          thorough=[dict(owners=o, of=w, n=n) for o in ((), (0,), (1, 2), (2, 0, 2), (1, 1, 0), (0, 1, 2, 2)) for w in ('stake', 'cost')
                    for n in (3, 4)],
          cover=('pools', 'no pools'),
          bounds='3 (thorough 4) agents with any stakes or costs; up to 3 (thorough 4) pools')
def operators(ctx):
    """Mean and median rank of the pools' operators: rank 1 is the largest stake / the lowest cost"""
    c = ctx.cfg
    n = c.get('n', 3)
    agent = ctx.mods.stakeholder_profiles.NonMyopicStakeholder
    stakes, costs = [0.125] * n, [0.25] * n
    value = [ctx.real(c['of'], 0.01, 1) for _ in range(n)]
    if c['of'] == 'stake':
        stakes, better = value, lambda a, b: gt(a, b)
    else:
        costs, better = value, lambda a, b: lt(a, b)
    sim = make_sim(ctx, n=n, k=2, cls=agent, stakes=stakes, costs=costs)
    m = len(some_pools(ctx, sim, c['owners'], pledge=[0.1] * 5, margin=[0.5] * 5, delegated=[0.1] * 5))
    rank = [1 + count([lor(better(value[j], value[i]), land(eq(value[j], value[i], tol=0), j < i)) for j in range(n) if j != i])
            for i in range(n)]
    mean, median = metric(ctx, sim, 'Mean %s rank' % c['of']), metric(ctx, sim, 'Median %s rank' % c['of'])
    ctx.cover('pools' if m else 'no pools')
    if not m:
        ctx.check('without pools the rank is 0', land(eq(mean, 0), eq(median, 0)))
        return
    of = [rank[o] for o in c['owners']]
    ctx.check('mean rank, rounded', le(vabs(mean * m - vsum(of)) * 2, m))
    ctx.check('median rank, rounded', le(vabs(median - middle(of)) * 2, 1))
    ctx.check('ranks are whole numbers', land(*[lor(*[eq(x, v) for v in range(1, n + 1)]) for x in (mean, median)]))
