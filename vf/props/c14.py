"""C14  how much stake non-myopic agents expect a pool to attract"""
from vf.props import register
from vf.props.util import *

ASSUMPTIONS = ['Pools are compared by their place in the ranking of C09.']


def expected_stake(ctx, rs, better, pool):
    """Top pools are expected to get saturated (or keep what they have), the others to be left with their pledge"""
    taken = vsum(rs.get_pool_saturation_threshold(p.pledge) for p in better)
    if ctx.cfg.get('s') == 4:
        ctx.assume(lor(lt(taken, 1 - 1e-6), gt(taken, 1 + 1e-6), same(taken, 1)))
        top = ctx.test(taken < 1 - 1e-7)
    else:
        top = len(better) < rs.k          # every pool saturates at 1/k
    ctx.cover('top' if top else 'not top')
    return vmax(rs.get_pool_saturation_threshold(pool.pledge), pool.stake) if top else pool.pledge


def operator_income(ctx, rs, stake, pool):
    left = pool_reward(ctx, rs, stake, pool.pledge) - pool.cost
    if ctx.test(left <= 0):
        return left
    return left * (pool.margin + (1 - pool.margin) * pool.pledge / stake)


def delegator_income(ctx, rs, stake, pool, amount):
    left = pool_reward(ctx, rs, stake, pool.pledge) - pool.cost
    if ctx.test(left <= 0):
        return 0
    return left * (1 - pool.margin) * amount / stake


KS = [1, 2, 3, 10, 29, 48, 49, 50, 98, 103, 107, 161]


@register('C14', quick=[dict(k=k) for k in KS] + [dict(k=k, private=p) for k, p in ((1, (0,)), (2, (0,)), (3, (0, 2)), (10, (3, 10)))],
          thorough=[dict(k=k) for k in range(1, 301)] + [dict(k=k) for k in (500, 1000)] +
                   [dict(k=k, private=p) for k in (1, 2, 3, 10, 50) for p in ((0,), (1,), (0, 1), (k,), tuple(range(k)))],
          cover=('top', 'not top'),
          bounds='k = 1, 2, 3, 10, 29, 48..50, 98, 103, 107, 161 (thorough 1..300, 500, 1000); k + 2 pools, private ones among them; the '
                 'pool in question in first place or around the k-th, with any delegated stake')
def by_rank(ctx):
    """Exactly the first k pools of the ranking are expected to get saturated, for any k"""
    c = ctx.cfg
    k = c['k']
    prof = ctx.mods.stakeholder_profiles
    sim = make_sim(ctx, n=4, k=k, cls=prof.NonMyopicStakeholder, stakes=[0.25] * 4, costs=[1e-9] * 4)
    place = ctx.choice('place', sorted({0, k - 2, k - 1, k, k + 1} & set(range(k + 2))))
    pledge = 0.25 / k
    for j in range(k + 2):
        dels = []
        if j == place and j not in c.get('private', ()):
            dels = [(1, ctx.real('delegated', 1e-3 / k, 0.2))]
        add_pool(ctx, sim, 0, pledge, 1e-6 / k, margin=(j + 1) / (k + 5), private=j in c.get('private', ()),
                 delegations=dels)
    ranked = list(sim.pools.values())
    pool = ranked[place]
    ns = expected_stake(ctx, sim.reward_scheme, ranked[:place], pool)
    got = ctx.mods.helper.calculate_non_myopic_pool_stake(pool=pool, pool_rankings=sim.pool_rankings,
                                                          reward_scheme=sim.reward_scheme, total_stake=sim.total_stake)
    ctx.check('only the top pools are expected to get saturated', eq(got, ns))
    amount = ctx.real('amount', 1e-3 / k, 0.25)
    me = sim.get_agents_dict()[2]
    u = me.calculate_delegator_utility_from_pool(pool, amount)
    ctx.check('delegating is valued at the share of what the pool is expected to earn',
              eq(u, delegator_income(ctx, sim.reward_scheme, vmax(ns, pool.stake + amount), pool, amount), tol=1e-7))


@register('C14', quick=[dict(k=2, pools=1, own=1), dict(k=2, pools=2, own=1), dict(k=1, pools=1, own=1), dict(k=2, pools=1, own=2),
                        dict(k=2, pools=2, own=1, s=4), dict(k=2, pools=2, own=1, s=4, a0=0.5)],
          thorough=[dict(k=k, pools=p, own=o, s=s) for k in (1, 2, 3) for p in (1, 2, 3) for o in (1, 2) for s in (0, 1)] +
                   [dict(k=k, pools=p, own=1, s=4, a0=a) for k in (2, 3) for p in (1, 2, 3) for a in (4, 0.5)],
          cover=('top', 'not top'),
          bounds='1-2 (thorough 3) pools of others with any margin, 1-2 own pools planned with any margin; k = 1..2 (thorough '
                 '3); Cardano, CIP-50 with any pledges of the others (thorough also simplified)')
def operating(ctx):
    """What a non-myopic agent expects a plan to operate to yield"""
    c = ctx.cfg
    s = c.get('s', 0)
    prof = ctx.mods.stakeholder_profiles
    sim = make_sim(ctx, n=4, k=c['k'], a0=c.get('a0', 4) if s == 4 else 0, scheme=s, cls=prof.NonMyopicStakeholder, stakes=[0.2, 0.2, 0.3, 0.3],
                   costs=[1e-2] * 4)
    rs = sim.reward_scheme
    for j in range(c['pools']):
        add_pool(ctx, sim, 1 + j % 2, ctx.real('pledge', 0.05, 0.2) if s == 4 else 0.05, 1e-2 * (j + 1), margin=ctx.real('margin', 0, 1),
                 private=False, delegations=[(3, 0.1 * (j + 1))])
    others = list(sim.pools.values())
    for j in range(c['own'] - 1):
        add_pool(ctx, sim, 0, 0.1, 1e-2, margin=0.5, private=False)      # replaced by the plan
    me = sim.get_agents_dict()[0]
    Pool = ctx.mods.pool.Pool
    planned = {}
    for j in range(c['own']):
        pid = sim.get_next_pool_id()
        planned[pid] = Pool(pool_id=pid, cost=2e-2, pledge=0.2 / c['own'], owner=0, reward_scheme=rs,
                            margin=ctx.real('own_margin', 0, 1))
        planned[pid].update_delegation(0.3 * (j + 1), 3)
    plan = ctx.mods.strategy.Strategy(owned_pools=planned)
    got = me.calculate_expected_utility(plan)
    key = {p.id: (-appeal(ctx, rs, p), -profit_at_saturation(ctx, rs, p), p.id) for p in others + list(planned.values())}
    ranked = sorted(others + list(planned.values()), key=lambda p: key[p.id])
    want = 0
    for i, p in enumerate(ranked):
        if p.owner == 0:
            want = want + operator_income(ctx, rs, expected_stake(ctx, rs, ranked[:i], p), p)
    ctx.check('operating is valued at the income of the own pools with the stake they are expected to attract',
              eq(got, want, tol=1e-7))
