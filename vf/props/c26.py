"""C26  what agents expect from delegating, and short-sighted agents from operating"""
from vf.props import register
from vf.props.util import *
from vf.props.c14 import operator_income, delegator_income

ASSUMPTIONS = ['How much stake far-sighted agents expect a pool to attract in the long run is decided by C14.']
CFG = [dict(who='Myopic', pools=2, s=0), dict(who='NonMyopic', pools=1, s=0), dict(who='Myopic', pools=1, s=1, a0=0.3),
       dict(who='NonMyopic', pools=2, s=0), dict(who='NonMyopic', pools=1, s=1, a0=0.3), dict(who='Myopic', pools=1, s=2, a0=0.3),
       dict(who='Myopic', pools=1, s=4, a0=4)]


@register('C26', quick=CFG, thorough=CFG + [dict(who=w, pools=p, s=s, a0=a) for w in ('Myopic', 'NonMyopic') for p in (1, 2)
                                            for s, a in ((0, 0), (0, 0.3), (1, 0.3), (2, 0.3), (4, 4)) if (p, s) != (2, 4)],
          cover=('stays', 'joins', 'moves away', 'profit'),
          bounds='1-2 pools of others with any margin and any stake from third parties; the agent delegates any or no amount to '
                 'each at present and any or no amount under the plan; k = 3')
def delegating(ctx):
    """A plan to delegate is valued at the agent's share of what each pool earns once the plan is in force"""
    c = ctx.cfg
    a0 = c.get('a0', 0)
    cls = getattr(ctx.mods.stakeholder_profiles, c['who'] + 'Stakeholder')
    sim = make_sim(ctx, n=4, k=3, a0=a0, scheme=c['s'], cls=cls, stakes=[0.14, 0.1, 0.1, 0.66], costs=[1e-3] * 4)
    rs = sim.reward_scheme
    me = sim.get_agents_dict()[0]
    now, planned = {}, {}
    for j in range(c['pools']):
        others = ctx.real('others', 1e-3, 0.6) if j == 0 else 0.125
        dels = [(3, others)]
        had, will = ctx.bool('delegates'), ctx.bool('will delegate')
        if had:
            dels.append((0, ctx.real('has', 1e-3, 0.14) if j == 0 else 0.0625))
        pool = add_pool(ctx, sim, 1 + j, 0.1, ctx.real('cost', 0, 0.3) if j == 0 else 1e-2, margin=ctx.real('margin', 0, 1) if j == 0 else 0.25,
                        private=False, delegations=dels)
        if had:
            now[pool.id] = dels[1][1]
        if will:
            planned[pool.id] = ctx.real('will', 1e-3, 0.14) if j == 0 else 0.09375
        if had or will:
            ctx.cover({(True, True): 'stays', (False, True): 'joins', (True, False): 'moves away'}[had, will])
    allocations = dict(planned)
    if ctx.bool('closed pool'):
        allocations[99] = 0.01       # closed in the meantime: nothing can be earned there
    plan = ctx.mods.strategy.Strategy(stake_allocations=allocations)
    got = me.calculate_expected_utility(plan)
    want = 0
    for pid, amount in planned.items():
        p = sim.pools[pid]
        stake = p.stake - now.get(pid, 0) + amount
        if c['who'] == 'NonMyopic':
            stake = vmax(stake, ctx.mods.helper.calculate_non_myopic_pool_stake(
                pool=p, pool_rankings=sim.pool_rankings, reward_scheme=rs, total_stake=sim.total_stake))
        income = delegator_income(ctx, rs, stake, p, amount)
        if not (isinstance(income, int) and income == 0):
            ctx.cover('profit')
        want = want + income
    ctx.observe('utility', got)
    ctx.check('a plan to delegate is valued at what it would earn', eq(got, want, tol=1e-7))


@register('C26', quick=[dict(own=o, s=s, a0=a) for o in (1, 2) for s, a in ((0, 0), (1, 0.3))],
          thorough=[dict(own=o, s=s, a0=a) for o in (1, 2, 3) for s, a in ((0, 0), (0, 0.3), (1, 0.3), (2, 0.3), (4, 4))],
          cover=('operating',), bounds='1-2 (thorough 3) own pools with any delegated stake and margins, any cost of the first')
def operating_short_sightedly(ctx):
    """A short-sighted agent values a plan to operate at the income of the pools with the stake they have"""
    c = ctx.cfg
    sim = make_sim(ctx, n=4, k=3, a0=c['a0'], scheme=c['s'], cls=ctx.mods.stakeholder_profiles.MyopicStakeholder,
                   stakes=[0.3, 0.2, 0.2, 0.3], costs=[1e-3] * 4)
    rs = sim.reward_scheme
    add_pool(ctx, sim, 1, 0.1, 1e-3, margin=0.1, private=False, delegations=[(3, 0.1)])
    planned = {}
    for j in range(c['own']):
        pid = sim.get_next_pool_id()
        planned[pid] = ctx.mods.pool.Pool(pool_id=pid, cost=ctx.real('cost', 0, 0.3) if j == 0 else 1e-2, pledge=0.3 / c['own'], owner=0,
                                          reward_scheme=rs, margin=ctx.real('margin', 0, 1) if j == 0 else 0.5)
        if ctx.bool('delegated to'):
            planned[pid].update_delegation(ctx.real('delegated', 1e-3, 0.2), 3)
    got = sim.get_agents_dict()[0].calculate_expected_utility(ctx.mods.strategy.Strategy(owned_pools=planned))
    ctx.cover('operating')
    ctx.check('operating is valued at the income of the pools with the stake they have',
              eq(got, vsum(operator_income(ctx, rs, p.stake, p) for p in planned.values()), tol=1e-7))
