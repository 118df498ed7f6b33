"""C04  margins and desirability"""
from vf.props import register
from vf.props.util import *

ASSUMPTIONS = ['The 1e-6 head start over the competitor that the code adds is part of the claim only as ">=".']
PROFILES = ('NonMyopicStakeholder', 'MyopicStakeholder')


@register('C04', quick=[{}], cover=('positive', 'zero'), bounds='any potential profit in [-1, 1], any target in [0, 1]')
def suitable_margin(ctx):
    """The margin chosen against one competitor, and the desirability it leads to"""
    hlp = ctx.mods.helper
    for i in range(2):
        pp = ctx.real('potential_profit', -1, 1)
        target = ctx.real('target', 0, 1)
        m = hlp.calculate_suitable_margin(potential_profit=pp, target_desirability=target)
        ctx.check('margin is a fraction', land(ge(m, 0), le(m, 1)))
        d = hlp.calculate_pool_desirability(margin=m, potential_profit=pp)
        ctx.check('desirability is never negative', ge(d, 0))
        if ctx.test(pp > 0):
            if ctx.test(m > 0):
                ctx.cover('positive')
                ctx.check('a positive margin keeps the pool as desirable as the target', ge(d, target))
                ctx.check('no higher margin would do', le(d, target))
            else:
                ctx.cover('zero')
                ctx.check('no margin is given away', ge(target, pp))
        free = ctx.real('margin', 0, 1)
        d = hlp.calculate_pool_desirability(margin=free, potential_profit=pp)
        ctx.check('desirability is the profit left to the delegators', eq(d, vmax((1 - free) * pp, 0)))
        d = hlp.calculate_myopic_pool_desirability(margin=free, current_profit=pp)
        ctx.check('myopic desirability is the current profit left to the delegators', eq(d, vmax((1 - free) * pp, 0)))


GRID = [(0, 2, 2), (1, 2, 1), (1, 2, 2), (2, 2, 1), (2, 2, 2), (2, 3, 3), (3, 3, 1), (3, 3, 2)]


@register('C04', quick=[dict(profile=p, pools=n, k=k, m=m, own=o) for p in PROFILES for n, k, m in GRID for o in (0, 1)
                        if n + o <= 3 and (p == PROFILES[0] or n * m + 2 * o < 6)],
          thorough=[dict(profile=p, pools=n, k=k, m=m, own=o) for p in PROFILES for o in (0, 1, 2)
                    for n, k, m in GRID + [(3, 3, 3), (3, 2, 2), (4, 3, 2), (4, 4, 4), (4, 4, 2)]],
          cover=('positive margin', 'hopeless'),
          bounds='0-3 (thorough 4) pools of others and 0-1 (2) own pools, k = 2..3 (4), a0 = 0; non-myopic: any margins in '
                 '[0, 1]; myopic: margins from {0, 0.5} and any stakes; own cost from {1e-5, 0.6/k, 1.2/k}; 1-3 (4) pools planned')
def planned_margins(ctx):
    """The margins an agent of each profile plans for its pools against the pools of others"""
    c = ctx.cfg
    k = c['k']
    myopic = c['profile'] == 'MyopicStakeholder'
    stake = ctx.real('stake', 0.01, 0.3)
    sim = make_sim(ctx, n=3, k=k, stakes=[stake, 0.3, 0.3], costs=[1e-5, 0.002, 0.001],
                   cls=getattr(ctx.mods.stakeholder_profiles, c['profile']))
    hlp, rs = ctx.mods.helper, sim.reward_scheme
    agent = sim.get_agents_dict()[0]
    for j in range(c['pools'] + c['own']):
        m = ctx.choice('pm', (0, 0.5)) if myopic else ctx.real('pm', 0, 1)
        owner = 0 if j < c['own'] else 1 + j % 2
        dels = [(2 if owner == 1 else 1, ctx.real('delegated', 0.001, 0.9))] if myopic else []
        add_pool(ctx, sim, owner, 0.01, (0.003, 0.001, 0.002, 0.004, 0.001, 0.002)[j], margin=m, private=False,
                 delegations=dels)
    agent.cost = ctx.choice('cost', (1e-5, 0.6 / k, 1.2 / k))
    margins, _ = agent.calculate_margins_and_utility(num_pools=c['m'])
    ctx.check('one margin per planned pool', len(margins) == c['m'])

    def appeal(p):
        if not myopic:
            return p.desirability
        profit = hlp.calculate_pool_reward(reward_scheme=rs, pool_stake=p.stake, pool_pledge=p.pledge) - p.cost
        return vmax((1 - p.margin) * profit, 0)
    others = [(appeal(p), p) for p in sim.get_pools_list() if p.owner != 0]
    pledge = vmin(stake / c['m'], 1 / k)
    cost = (agent.cost + (c['m'] - 1) * 0.4 * agent.cost) / c['m']
    if myopic:
        st = vmax(vsum(p.stake for p in agent.strategy.owned_pools.values()), stake) / c['m']
        pp = hlp.calculate_pool_reward(reward_scheme=rs, pool_stake=st, pool_pledge=pledge) - cost
    else:
        pp = hlp.calculate_potential_profit(reward_scheme=rs, pledge=pledge, cost=cost)
    for t, m in enumerate(margins, 1):
        ctx.check('margin is a fraction', land(ge(m, 0), le(m, 1)))
        if not ctx.test(m > 1e-9):
            ctx.cover('hopeless')
            continue
        ctx.cover('positive margin')
        left = (1 - m) * pp
        # the t-th own pool competes with the pool that only k - t others precede
        for a, p in others:
            at_least = count([ge(b, a, 0) for b, q in others if q is not p])
            above = count([gt(b, a) for b, q in others if q is not p])
            ctx.check('a pool with a positive margin outranks the competitor it displaces',
                      implies(ge(at_least, k - t, 0), ge(left, a)))
            if not myopic:
                ctx.check('... even if that competitor were to waive its margin',
                          implies(land(le(at_least, k - t, 0), ge(above, k - t, 0)), ge(left, p.potential_profit)))
        limit = vmax(*([0] + [a for a, _ in others] + ([] if myopic else [p.potential_profit for _, p in others])))
        ctx.check('no more is left to delegators than competition requires', le(left, limit + 1e-6))
    ctx.observe('margins', margins)


@register('C04', quick=[dict(s=s) for s in (0, 1, 2, 4)], thorough=[dict(s=s) for s in SCHEMES],
          bounds='k = 10, a0 in [0, 1], any pledge, cost and two margins')
def pool_record(ctx):
    """Profit and desirability recorded on a pool when it is created and when its margin changes"""
    hlp = ctx.mods.helper
    rs = make_scheme(ctx, ctx.cfg['s'], 10, ctx.real('a0', 0, 1))
    pledge, cost = ctx.real('pledge', 0, 1), ctx.real('cost', 0, 1)
    m1, m2 = ctx.real('margin_a', 0, 1), ctx.real('margin_b', 0, 1)
    pool = ctx.mods.pool.Pool(pool_id=1, cost=cost, pledge=pledge, owner=0, reward_scheme=rs, margin=m1)
    pp = hlp.calculate_pool_reward(reward_scheme=rs, pool_stake=rs.get_pool_saturation_threshold(pledge),
                                   pool_pledge=pledge) - cost
    ctx.check('potential profit is the profit at saturation', eq(pool.potential_profit, pp))
    ctx.check('desirability is the profit left to the delegators', eq(pool.desirability, vmax((1 - m1) * pp, 0)))
    pool.margin = m2
    ctx.check('margin can be changed', same(pool.margin, m2))
    ctx.check('desirability is the profit left to the delegators', eq(pool.desirability, vmax((1 - m2) * pp, 0)))
    ctx.check('desirability is never negative', ge(pool.desirability, 0))


@register('C04', quick=[dict(profile=PROFILES[0], pools=n, order='semisimultaneous') for n in (0, 1)] +
                 [dict(profile=PROFILES[1], pools=0, order='sequential')] +
                 [dict(profile=p, pools=0, own=1, order='sequential') for p in PROFILES],
          thorough=[dict(profile=p, pools=n, own=w, order=o) for p in PROFILES for n in (0, 1, 2) for w in (0, 1, 2)
                    for o in ('sequential', 'semisimultaneous')],
          bounds='3 agents, k = 2, a0 = 0; one agent of each profile takes a turn, 0-1 (thorough 2) competing and own pools of any '
                 'margin')
def margins_of_live_pools(ctx):
    """Margins and desirabilities recorded on the pools after a turn of a real profile"""
    c = ctx.cfg
    sim = make_sim(ctx, n=3, k=2, order=c['order'], stakes=[0.2, 0.5, 0.3], costs=[1e-3, 2e-3, 3e-3],
                   cls=getattr(ctx.mods.stakeholder_profiles, c['profile']))
    for j in range(c['pools']):
        add_pool(ctx, sim, 1 + j, 0.1, (0.001, 0.003)[j], margin=ctx.real('pm', 0, 1), private=False)
    for j in range(c.get('own', 0)):
        add_pool(ctx, sim, 0, 0.02, 0.05, margin=ctx.choice('own_margin', (0, 0.25)), private=False, delegations=[(2, ctx.choice('d', (0.01, 0.2)))])
    agent = sim.get_agents_dict()[0]
    agent.cost = ctx.choice('cost', (1e-3, 0.2))
    agent.stake = ctx.choice('stake', (0.2, 0.6))
    agent.step()
    agent.advance()
    for p in sim.get_pools_list():
        ctx.check('margin is a fraction', land(ge(p.margin, 0), le(p.margin, 1)))
        ctx.check('desirability is the profit left to the delegators',
                  eq(p.desirability, vmax((1 - p.margin) * p.potential_profit, 0)))
        ctx.check('desirability is never negative', ge(p.desirability, 0))
        th = sim.reward_scheme.get_pool_saturation_threshold(p.pledge)
        ctx.check('potential profit is the profit at saturation',
                  eq(p.potential_profit, ctx.mods.helper.calculate_pool_reward(
                      reward_scheme=sim.reward_scheme, pool_stake=th, pool_pledge=p.pledge) - p.cost))


@register('C04', quick=[dict(own=w, order=o) for w, o in ((1, 'sequential'), (2, 'simultaneous'))],
          thorough=[dict(own=w, order=o, s=s) for w in (0, 1, 2) for o in ('sequential', 'simultaneous', 'semisimultaneous') for s in (0, 2, 4) if w < 2 or s == 0],
          cover=('same margin', 'other margin'),
          bounds='2 agents, k = 2; an agent of any cost with 1-2 (thorough 0-2) own pools adopts any plan with margins from {0, 0.25}, the '
                 'previous ones included')
def desirability_after_any_plan(ctx):
    """Profit and desirability recorded on the pools after a plan of any kind was carried out"""
    c = ctx.cfg
    s = c.get('s', 0)
    sim = make_sim(ctx, n=2, k=2, a0=4 if s == 4 else 0.3 if s else 0, scheme=s, order=c['order'], stakes=[0.6, 0.4],
                   costs=[ctx.real('cost', 0, 0.6), 0.1], cls=chaos(ctx, margins=(0, 0.25)))
    for j in range(c['own']):
        add_pool(ctx, sim, 0, 0.3 / (c['own'] or 1), 0.05, margin=ctx.choice('old_margin', (0, 0.25)),
                 private=False, delegations=[(1, 0.1)])
    agent = sim.get_agents_dict()[0]
    old = {i: p.margin for i, p in agent.strategy.owned_pools.items()}
    agent.step()
    agent.advance()
    for i, p in sim.pools.items():
        if i in old:
            ctx.cover('same margin' if p.margin == old[i] else 'other margin')
        pp = profit_at_saturation(ctx, sim.reward_scheme, p)
        ctx.check('potential profit is the profit at saturation', eq(p.potential_profit, pp))
        ctx.check('desirability is the profit left to the delegators', eq(p.desirability, vmax((1 - p.margin) * p.potential_profit, 0)))
