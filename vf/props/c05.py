"""C05  pledge and cost of an operator's pools"""
from vf.props import register
from vf.props.util import *

ASSUMPTIONS = ['In the turn harnesses the agent\'s judgement of how many pools are best is an arbitrary input.']


@register('C05', quick=[dict(k=k) for k in (1, 2, 5, 10, 100)], thorough=[dict(k=k) for k in range(1, 200)],
          bounds='any stake in [0, 1], any cost in [0, 1], any extra-pool cost fraction in [0, 10], 1 to 40 pools')
def per_pool_amounts(ctx):
    """Pledge and cost per pool for every number of pools, queried twice (results may be cached)"""
    hlp = ctx.mods.helper
    z = 1 / ctx.cfg['k']
    cost, phi = ctx.real('cost', 0, 1), ctx.real('extra_pool_cost_fraction', 0, 10)
    stake = ctx.real('stake', 0, 1)
    for rnd in range(2):
        for m in (1, 2, 3, 4, 5, 7, 10, 40):
            c = hlp.calculate_cost_per_pool(num_pools=m, initial_cost=cost, extra_pool_cost_fraction=phi)
            ctx.check('costs add up: the first pool costs c, every further one the given fraction of it',
                      eq(c * m, cost + phi * cost * (m - 1), 1e-7))
            p = hlp.calculate_pledge_per_pool(agent_stake=stake, global_saturation_threshold=z, num_pools=m)
            ctx.check('pools never pledge more than the stake', le(p * m, stake, 1e-8))
            ctx.check('no pool pledges more than saturation', le(p, z))
            ctx.check('stake is withheld only from saturated pools',
                      lor(ge(p * m, stake, 1e-8), ge(p, z)))
    for m in (0, -1):
        bad, _ = ctx.raises(ValueError, hlp.calculate_pledge_per_pool, agent_stake=stake,
                            global_saturation_threshold=z, num_pools=m)
        ctx.check('no pledge for zero or fewer pools', bad)


@register('C05', quick=[dict(k=k, s=s, pools=p, order=o) for k, s, p, o in
                        ((1, 0, 0, 'sequential'), (3, 0, 0, 'sequential'), (2, 0, 1, 'sequential'),
                         (2, 0, 1, 'semisimultaneous'), (2, 4, 1, 'sequential'), (3, 2, 2, 'sequential'))],
          thorough=[dict(k=k, s=s, pools=p, order=o) for k in (1, 2, 3, 4) for s in SCHEMES for p in (0, 1, 2)
                    for o in ('sequential', 'simultaneous', 'semisimultaneous') if k < 4 or p == 0],
          cover=('one pool', 'several pools'),
          bounds='2 agents, symbolic stakes, k = 1..3 (thorough 4); the agent owns 0-2 pools before its turn, with any '
                 'delegation from the other agent, and changes to any number of pools')
def after_a_turn(ctx):
    """Pledge, cost, ownership and privacy of an operator's pools after a turn"""
    c = ctx.cfg
    k = c['k']
    stakes = sym_stakes(ctx, 2, lo=0.01)
    a0 = 4 if c['s'] == 4 else 0.3 if c['s'] else 0
    sim = make_sim(ctx, n=2, k=k, a0=a0, scheme=c['s'], order=c['order'], stakes=stakes, costs=[1e-3, 2e-3],
                   cls=chaos(ctx, margins=(0.5,)), extra_pool_cost_fraction=0.4)
    phi = 0.4
    rs = sim.reward_scheme
    agents = sim.get_agents_dict()
    if c['pools']:
        old = ctx.real('old_pledge', 1e-4, 1)
        ctx.assume(old * c['pools'] <= stakes[0])
        ctx.assume(old <= 1 / k)
        private = ctx.test(old >= rs.get_pool_saturation_threshold(old))
        for j in range(c['pools']):
            dels = []
            if not private and j == 0:
                d = ctx.real('delegated', 1e-4, 1)
                ctx.assume(d <= stakes[1])
                dels = [(1, d)]
            add_pool(ctx, sim, 0, old, (1e-3 + (c['pools'] - 1) * phi * 1e-3) / c['pools'], margin=0.5, private=private, delegations=dels)
    agent = agents[0]
    was = dict(agent.strategy.owned_pools)
    snapshot = {i: (p.pledge, p.cost) for i, p in was.items()}
    agent.step()
    agent.advance()
    owned = agent.strategy.owned_pools
    m = len(owned)
    ctx.observe('pools', m)
    ctx.check('at most k pools are run', m <= k)
    changed = not (set(owned) == set(was) and all(
        owned[i] is was[i] for i in owned))
    if not changed:
        for i, p in owned.items():
            ctx.check('an idle turn leaves the pools alone', land(eq(p.pledge, snapshot[i][0]), eq(p.cost, snapshot[i][1])))
        return
    if m:
        ctx.cover('one pool' if m == 1 else 'several pools')
    for p in owned.values():
        ctx.check('pledge is an equal part of the stake, up to saturation', eq(p.pledge, vmin(stakes[0] / m, 1 / k)))
        ctx.check('cost is the average of first and further pools', eq(p.cost, (1e-3 + (m - 1) * phi * 1e-3) / m))
        ctx.check('the operator owns the pool', p.owner == 0)
        th = rs.get_pool_saturation_threshold(p.pledge)
        ctx.check('a pool is private exactly if its pledge saturates it',
                  ge(p.pledge, th) if p.is_private else lt(p.pledge, th))
    ctx.check('pledges of one operator never exceed the stake', le(vsum(p.pledge for p in owned.values()), stakes[0]))


@register('C05', quick=[dict(k=(4, 2), s=0), dict(k=(2, 5), s=0), dict(k=(2, 3), s=4)],
          thorough=[dict(k=k, s=s) for k in ((4, 2), (2, 5), (2, 3), (10, 100), (100, 10), (1, 2)) for s in SCHEMES],
          bounds='two agents with any stakes and costs; 1 to 5 pools; k, the extra-pool cost fraction, a stake and a cost change in between')
def amounts_follow_the_state(ctx):
    """What an agent plans per pool follows its own stake and cost and the parameters in force, whatever was planned before"""
    c = ctx.cfg
    phi = ctx.real('phi', 0, 2)
    n = 2
    stakes = [ctx.real('stake', 0.01, 0.6), ctx.real('stake', 0.01, 0.6)]
    costs = [ctx.real('cost', 0, 1), ctx.real('cost', 0, 1)]
    sim = make_sim(ctx, n=n, k=c['k'][0], a0=2 if c['s'] == 4 else 0, scheme=c['s'], stakes=list(stakes), costs=list(costs),
                   cls=ctx.mods.stakeholder_profiles.NonMyopicStakeholder, extra_pool_cost_fraction=phi)
    agents = sim.get_agents_dict()

    def look(k, phi):
        for m in (2, 1, 3, 5, 2):
            for i in (0, 1):
                pledge, cost = agents[i].determine_pledge_per_pool(m), agents[i].calculate_cost_per_pool(m)
                ctx.check('pledge is an equal part of the stake, up to saturation', eq(pledge, vmin(stakes[i] / m, 1 / k)))
                ctx.check('cost is the average of first and further pools', eq(cost * m, costs[i] + (m - 1) * phi * costs[i], 1e-8))
        plan = agents[0].find_operator_move(2, {}, [0.25, 0.5])
        ctx.check('as many pools as planned', len(plan.owned_pools) == 2)
        th = None
        for p in plan.owned_pools.values():
            ctx.check('pledge is an equal part of the stake, up to saturation', eq(p.pledge, vmin(stakes[0] / 2, 1 / k)))
            ctx.check('cost is the average of first and further pools', eq(p.cost * 2, costs[0] + phi * costs[0], 1e-8))
            th = sim.reward_scheme.get_pool_saturation_threshold(p.pledge)
            ctx.check('a pool is private exactly if its pledge saturates it', ge(p.pledge, th) if p.is_private else lt(p.pledge, th))
    look(c['k'][0], phi)
    sim.reward_scheme.k = c['k'][1]
    look(c['k'][1], phi)
    agents[0].stake = stakes[0] = ctx.real('new_stake', 0.01, 0.6)
    agents[0].cost = costs[0] = ctx.real('new_cost', 0, 1)
    phi = sim.extra_pool_cost_fraction = ctx.real('new_phi', 0, 2)
    look(c['k'][1], phi)
