"""C20  what the reported metrics about pools, pledges and margins mean"""
from vf.props import register
from vf.props.util import *

ASSUMPTIONS = ['Metrics are looked up by the ids of the documentation.']
DOC = {'Pool count': 1, 'Total pledge': 2, 'Mean pledge': 3, 'Median pledge': 4, 'Average pools per operator': 5,
       'Max pools per operator': 6, 'Median pools per operator': 7, 'Average saturation rate': 8, 'Nakamoto coefficient': 9,
       'Statistical distance': 10, 'Min-aggregate pledge': 11, 'Pledge rate': 12, 'Pool homogeneity factor': 13, 'Iterations': 14,
       'Mean stake rank': 15, 'Mean cost rank': 16, 'Median stake rank': 17, 'Median cost rank': 18, 'Number of pool splitters': 19,
       'Cost efficient stakeholders': 20, 'StakePairs': 21, 'Gini-id': 22, 'Gini-id stake': 23, 'Mean margin': 24, 'Median margin': 25,
       'Stake per agent': 26, 'Stake per agent id': 27, 'Total delegated stake': 28, 'Total agent stake': 29, 'Operator count': 30}


def metric(ctx, sim, name):
    """The value of a metric, found the way the simulation finds it: by its documented id, if it has one"""
    r = ctx.mods.model_reporters
    if name not in DOC:
        return r.ALL_MODEL_REPORTEERS[name](sim)
    return r.ALL_MODEL_REPORTEERS[r.REPORTER_IDS[DOC[name]]](sim)


def some_pools(ctx, sim, owners, pledge=None, margin=None, delegated=None, private=False):
    """Live pools with arbitrary pledges, margins and delegated stake (rankings are not looked at by metrics)"""
    agents = sim.get_agents_dict()
    out = []
    for j, o in enumerate(owners):
        p = ctx.mods.pool.Pool(pool_id=sim.get_next_pool_id(), cost=1e-3 * (j + 1),
                               pledge=ctx.real('pledge', 1e-3, 0.2) if pledge is None else pledge[j], owner=o,
                               reward_scheme=sim.reward_scheme,
                               margin=ctx.real('margin', 0, 1) if margin is None else margin[j])
        extra = ctx.real('delegated', 1e-3, 0.5) if delegated is None else delegated[j]
        if extra is not None:
            p.update_delegation(extra, (o + 1) % len(agents))
        agents[o].strategy.owned_pools[p.id] = p
        sim.pools[p.id] = p
        out.append(p)
    return out


def middle(xs):
    """Median, from its definition"""
    xs = list(xs)
    n = len(xs)
    out = xs[0]

    def kth(k):
        res = xs[0]
        for i, x in enumerate(xs):
            # x is the k-th smallest iff fewer than k + 1 values precede it (ties by position)
            before = count([lor(lt(y, x), land(eq(y, x, tol=0), j < i)) for j, y in enumerate(xs)])
            res = ite(eq(before, k), x, res)
        return res
    return kth(n // 2) if n % 2 else (kth(n // 2 - 1) + kth(n // 2)) / 2


OWNERS = [(), (0,), (0, 1), (1, 1), (2, 0, 2), (0, 1, 2), (1, 1, 1), (0, 0, 1, 1), (3, 0, 0, 0)]


@register('C20', quick=[dict(owners=o, m=len(o) > 3) for o in OWNERS] + [dict(owners=(0, 2), s=4), dict(owners=(0, 1), bare=True), dict(owners=(2, 2, 0), bare=True, m=True)],
          thorough=[dict(owners=o, s=s, m=len(o) > 4) for o in OWNERS + [(0, 1, 2, 3), (0, 1, 0, 2, 0), (3, 2, 1, 0, 1)] for s in (0, 4)],
          cover=('no pools', 'pools'),
          bounds='up to 4 (thorough 5) pools of up to 4 operators with any pledges, stakes and margins, delegations or none')
def pools_and_pledges(ctx):
    """Counts, pledges, margins and saturation"""
    c = ctx.cfg
    s = c.get('s', 0)
    sim = make_sim(ctx, n=4, k=3, scheme=s, a0=3 if s == 4 else 0)
    pools = some_pools(ctx, sim, c['owners'], margin=(0.4, 0.1, 0.3, 0.2, 0)[:len(c['owners'])] if c.get('m') else None,
                       delegated=[None] * 5 if c.get('bare') else None)
    n = len(pools)
    ctx.cover('pools' if pools else 'no pools')
    m = lambda name: metric(ctx, sim, name)
    per = {}
    for p in pools:
        per[p.owner] = per.get(p.owner, 0) + 1
    ctx.check('pool count: the number of pools', m('Pool count') == n)
    ctx.check('operator count: the number of agents with a pool', m('Operator count') == len(per))
    ctx.check('number of pool splitters: the agents with two or more pools', m('Number of pool splitters') == sum(x > 1 for x in per.values()))
    ctx.check('max pools per operator', m('Max pools per operator') == max(per.values(), default=0))
    ctx.check('average pools per operator', eq(m('Average pools per operator'), n / len(per) if n else 0))
    ctx.check('total pledge: the sum of pledges', eq(m('Total pledge'), vsum(p.pledge for p in pools)))
    ctx.check('mean pledge', eq(m('Mean pledge'), vsum(p.pledge for p in pools) / max(n, 1)))
    ctx.check('mean margin', eq(m('Mean margin'), vsum(p.margin for p in pools) / max(n, 1)))
    counts = sorted(per.values())
    med = 0 if not n else (counts[len(counts) // 2] + counts[(len(counts) - 1) // 2]) / 2
    ctx.check('median pools per operator', eq(m('Median pools per operator'), med))
    ctx.check('median pledge', eq(m('Median pledge'), middle([p.pledge for p in pools]) if n else 0))
    ctx.check('median margin', eq(m('Median margin'), middle([p.margin for p in pools]) if n else 0))
    rate = vsum(p.stake / sim.reward_scheme.get_pool_saturation_threshold(p.pledge) for p in pools)
    ctx.check('average saturation rate: stake over saturation threshold', eq(m('Average saturation rate') * max(n, 1), rate, tol=1e-7))
    total = vsum(p.stake for p in pools)
    if n:
        ctx.check('pledge rate: pledge over stake of the pools', eq(m('Pledge rate') * total, vsum(p.pledge for p in pools), tol=1e-7))
    else:
        ctx.check('pledge rate without pools', m('Pledge rate') == 0)
    ctx.check('total delegated stake: the stake of all pools', eq(m('Total delegated stake'), total))
    ctx.check('total agent stake', eq(m('Total agent stake'), vsum(a.stake for a in sim.get_agents_list())))
    by_owner = {i: vsum(p.stake for p in pools if p.owner == i) for i in range(4)}
    listed, mapped = m('Stake per agent'), m('Stake per agent id')
    ctx.check('stake per agent has a place for every agent', len(listed) == 4 and sorted(mapped) == [0, 1, 2, 3])
    for i in range(4):
        ctx.check('stake per agent: the stake of all pools of the agent', land(eq(listed[i], by_owner[i]), eq(mapped[i], by_owner[i])))
    pairs = m('StakePairs')
    agents = sim.get_agents_dict()
    ctx.check('stake pairs name pools and owners', list(pairs['pool_id']) == [p.id for p in pools] and
              list(pairs['owner_id']) == [p.owner for p in pools])
    for i, p in enumerate(pools):
        ctx.check('stake pairs give the stake of owner and pool, and the margin',
                  land(eq(pairs['x'][i], agents[p.owner].stake), eq(pairs['y'][i], p.stake), eq(pairs['r'][i], p.margin)))
    ctx.check('iterations: the number of rounds so far', m('Iterations') == sim.schedule.steps)


@register('C20', quick=[dict(s=s, a0=a) for s, a in ((0, 0), (0, 0.5), (2, 1), (4, 3))],
          thorough=[dict(s=s, a0=a) for s, a in ((0, 0), (0, 0.5), (1, 1), (2, 1), (3, 0), (4, 3), (4, 1))],
          cover=('some', 'none'),
          bounds='3 agents with any stakes and costs')
def cost_efficient(ctx):
    """The number of agents that could run a pool at a profit"""
    c = ctx.cfg
    stakes = sym_stakes(ctx, 3, lo=0.01)
    costs = [ctx.real('cost', 0, 1) for _ in range(3)]
    sim = make_sim(ctx, n=3, k=2, scheme=c['s'], a0=c['a0'], cls=ctx.mods.stakeholder_profiles.NonMyopicStakeholder, stakes=stakes, costs=costs)
    got = metric(ctx, sim, 'Cost efficient stakeholders')
    rs = sim.reward_scheme
    n = 0
    for s, cost in zip(stakes, costs):
        profit = rs.calculate_pool_reward(pool_pledge=s, pool_stake=rs.get_pool_saturation_threshold(s)) - cost
        ctx.assume(lor(gt(profit, 1e-9), lt(profit, -1e-9)))
        n += 1 if ctx.test(profit > 0) else 0
    ctx.cover('some' if n else 'none')
    ctx.check('cost efficient stakeholders: those with a positive potential profit', eq(got, n))
