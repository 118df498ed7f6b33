"""C21  metrics of concentration: Nakamoto coefficient, Gini, statistical distance, homogeneity"""
from vf.props import register
from vf.props.util import *
from vf.props.c20 import metric, some_pools

ASSUMPTIONS = ['Where a metric jumps (a group with exactly half of the stake) stakes are taken from a grid that floating point '
               'represents exactly; elsewhere they keep a distance of 1e-9 from the jump.']
OWNERS = [(0,), (0, 1), (1, 1), (0, 1, 2), (2, 0, 2), (0, 0, 0)]


def controlled(pools, n):
    return [vsum(p.stake for p in pools if p.owner == i) for i in range(n)]


def check_nakamoto(ctx, got, stakes, away):
    """The smallest number of agents that have more than half of the total"""
    import itertools
    total = vsum(stakes)
    n = len(stakes)

    def majority(size):
        sums = [vsum(g) for g in itertools.combinations(stakes, size)]
        if away:
            for s in sums:
                ctx.assume(lor(gt(2 * s - total, 1e-9), lt(2 * s - total, -1e-9)))
        return lor(*[gt(2 * s, total) for s in sums])
    ctx.check('it is a number of agents', lor(*[eq(got, v) for v in range(1, n + 1)]))
    value = ctx.choice('coefficient', range(1, n + 1))
    ctx.assume(eq(got, value))
    ctx.check('that many agents can have more than half of the stake', majority(value))
    if value > 1:
        ctx.check('fewer agents cannot', lnot(majority(value - 1)))


@register('C21', quick=[dict(owners=o, exact=e) for o in OWNERS for e in (0, 1)],
          thorough=[dict(owners=o, exact=e) for o in OWNERS + [(0, 1, 2, 3), (0, 1, 0, 1), (3, 3, 1, 0)] for e in (0, 1)],
          bounds='1-3 (thorough 4) pools of 4 agents with any stakes; stakes that are multiples of 1/16 where ties matter')
def nakamoto(ctx):
    """How few agents control more than half of the stake in pools"""
    c = ctx.cfg
    sim = make_sim(ctx, n=4, k=3)
    if c['exact']:
        pools = some_pools(ctx, sim, c['owners'], pledge=[ctx.int('sixteenths', 1, 8) / 16 for _ in c['owners']],
                           delegated=[0.125] * len(c['owners']))
    else:
        pools = some_pools(ctx, sim, c['owners'])
    check_nakamoto(ctx, metric(ctx, sim, 'Nakamoto coefficient'), controlled(pools, 4), not c['exact'])


@register('C21', quick=[dict(exact=0), dict(exact=1)], bounds='no pools, or none yet: 3 agents with any stakes; stakes that are multiples of 1/16 where ties matter')
def nakamoto_at_the_start(ctx):
    """Before there are pools, the stake that counts is the agents' own"""
    stakes = [ctx.int('sixteenths', 1, 16) / 16 for _ in range(3)] if ctx.cfg['exact'] else sym_stakes(ctx, 3, lo=0.01)
    sim = make_sim(ctx, n=3, k=2, cls=ctx.mods.stakeholder_profiles.NonMyopicStakeholder, stakes=stakes, costs=[0.1] * 3)
    ctx.check('without pools the coefficient is 0', metric(ctx, sim, 'Nakamoto coefficient') == 0)
    del sim.pools
    check_nakamoto(ctx, metric(ctx, sim, 'Nakamoto coefficient'), stakes, not ctx.cfg['exact'])


def abs_differences(xs):
    return vsum(vabs(xs[i] - xs[j]) for i in range(len(xs)) for j in range(i))


@register('C21', quick=[dict(owners=o, k=k) for o in OWNERS for k in (2, 3, 5)],
          thorough=[dict(owners=o, k=k) for o in OWNERS + [(0, 1, 2, 3), (0, 1, 0, 1), (3, 3, 1, 0), (0, 1, 2, 0, 1), (0, 0, 0, 1, 2)]
                    for k in (1, 2, 3, 5, 8)],
          bounds='1-3 (thorough 5) pools of 4 agents with any stakes; k from {2, 3, 5} (thorough 1 to 8)')
def inequality(ctx):
    """Gini coefficients over operators: half the mean absolute difference, relative to the mean"""
    c = ctx.cfg
    k = c.get('k', 3)
    sim = make_sim(ctx, n=4, k=k)
    pools = some_pools(ctx, sim, c['owners'])
    owners = sorted(set(c['owners']))
    stakes = [controlled(pools, 4)[o] for o in owners]
    numbers = [c['owners'].count(o) for o in owners]
    n = len(owners)
    g = metric(ctx, sim, 'Gini-id')
    ctx.check('gini-id: the inequality of the numbers of pools', eq(g * n * sum(numbers), abs_differences(numbers)))
    if len(set(numbers)) == 1:
        ctx.check('gini-id is 0 if all operators run as many pools', eq(g, 0))
    gs = metric(ctx, sim, 'Gini-id stake')
    ctx.check('gini-id stake: the inequality of the stakes controlled', eq(gs * n * vsum(stakes), abs_differences(stakes), tol=1e-7))
    ctx.check('gini coefficients lie between 0 and 1', land(ge(gs, 0), lt(gs, 1), ge(g, 0), lt(g, 1)))
    more = [0] * max(k - n, 0)
    n = n + len(more)
    g = metric(ctx, sim, 'Gini-id (k)')
    ctx.check('gini-id over at least k agents', eq(g * n * sum(numbers), abs_differences(numbers + more)))
    gs = metric(ctx, sim, 'Gini-id stake (k)')
    ctx.check('gini-id stake over at least k agents', eq(gs * n * vsum(stakes), abs_differences(stakes + more), tol=1e-7))


@register('C21', quick=[dict(owners=o) for o in OWNERS] + [dict(owners=(0, 1), bare=True), dict(owners=(1, 0, 1), bare=True)],
          thorough=[dict(owners=o) for o in OWNERS + [(0, 1, 2, 3), (0, 1, 0, 1), (3, 3, 1, 0)]],
          bounds='1-3 (thorough 4) pools of 4 agents with any stakes')
def distance_and_homogeneity(ctx):
    """Statistical distance from the initial stakes; homogeneity of pool sizes"""
    c = ctx.cfg
    stakes = sym_stakes(ctx, 4, lo=0.01)
    sim = make_sim(ctx, n=4, k=3, cls=ctx.mods.stakeholder_profiles.NonMyopicStakeholder, stakes=stakes, costs=[0.1] * 4)
    pools = some_pools(ctx, sim, c['owners'], delegated=[None] * 3 if c.get('bare') else None)
    now = controlled(pools, 4)
    ctx.check('statistical distance: half the sum of differences between own and controlled stake',
              eq(metric(ctx, sim, 'Statistical distance'), vsum(vabs(x - y) for x, y in zip(now, stakes)) / 2))
    h = metric(ctx, sim, 'Pool homogeneity factor')
    most = vmax(*[p.stake for p in pools])
    ctx.check('homogeneity: mean pool size over maximal pool size', eq(h * most * len(pools), vsum(p.stake for p in pools), tol=1e-7))
    ctx.check('homogeneity is at most 1', land(le(h, 1), gt(h, 0)))
    if len(pools) == 1:
        ctx.check('pools of the same size are perfectly homogeneous', eq(h, 1))
