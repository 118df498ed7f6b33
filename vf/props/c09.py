"""C09  pool rankings"""
from vf.props import register
from vf.props.util import *

ASSUMPTIONS = ['Agents\' judgements are arbitrary inputs (margins drawn from a small set); Cardano scheme, a0 = 0.']


@register('C09', quick=[dict(n=2, k=2, pools=0, who=0, m=(0, 0.5)), dict(n=2, k=2, pools=1, who=0, m=(0.25,), pm=(0, 0.5)),
                        dict(n=2, k=2, pools=1, who=1, m=(0.5,), pm=(0, 0.5)),
                        dict(n=3, k=1, pools=1, who=0, m=(0, 0.5), pm=(0.5,)), dict(n=2, k=1, pools=2, who=0, m=(0.5,), pm=(0.5,)),
                        dict(n=2, k=1, pools=2, who=1, m=(0.5,), pm=(0,))],
          thorough=[dict(n=n, k=k, pools=p, who=w) for n, k, p in ((2, 2, 0), (2, 2, 1), (3, 2, 1), (2, 2, 2), (3, 1, 2),
                                                                   (3, 2, 2), (2, 3, 1))
                    for w in range(n)],
          cover=('opened', 'closed', 'kept', 'delegated', 'two ranked'),
          bounds='2-3 agents with any stakes, k = 1..2 (thorough 3), any consistent state with up to 2 pools, margins from '
                 '{0, 0.5}; the agent may make any move')
def one_activation(ctx):
    """From any consistent and correctly ranked state, one agent takes a turn"""
    c = ctx.cfg
    n = c['n']
    stakes = sym_stakes(ctx, n, lo=0.01)
    sim = make_sim(ctx, n=n, k=c['k'], cls=chaos(ctx, margins=c.get('m', (0, 0.5))), stakes=stakes,
                   costs=[1e-3 * (i + 1) for i in range(n)])
    arbitrary_state(ctx, sim, c['pools'], min_pools=c['pools'], margins=c.get('pm', (0, 0.5)))
    agent = sim.get_agents_dict()[c['who']]
    before = set(agent.strategy.owned_pools)
    agent.step()
    after = set(agent.strategy.owned_pools)
    for label, pred in (('opened', after - before), ('closed', before - after), ('kept', before & after),
                        ('delegated', agent.strategy.stake_allocations), ('two ranked', len(sim.pools) > 1)):
        if pred:
            ctx.cover(label)
    check_rankings(ctx, sim)


@register('C09', quick=[dict(k=1, pools=1, order=o) for o in ('simultaneous', 'semisimultaneous', 'random')],
          thorough=[dict(k=k, pools=p, order=o) for k in (1, 2) for p in (0, 1, 2)
                    for o in ('simultaneous', 'semisimultaneous', 'random')],
          bounds='2 agents, k = 1 (thorough 2), any consistent state with 1 (thorough 0-2) pools; every agent makes any move in one round')
def one_round(ctx):
    """From any consistent and correctly ranked state, one round of every activation order"""
    c = ctx.cfg
    stakes = sym_stakes(ctx, 2, lo=0.01)
    sim = make_sim(ctx, n=2, k=c['k'], order=c['order'], cls=chaos(ctx, margins=(0.5,)), stakes=stakes, costs=[1e-3, 2e-3])
    arbitrary_state(ctx, sim, c['pools'], min_pools=c['pools'], margins=(0.5,))
    sim.random = SymRandom(ctx)
    sim.schedule.step()
    check_rankings(ctx, sim)


@register('C09', quick=[dict(pools=2, s=0, m=(0, 1)), dict(pools=3, s=0, m=(1,)), dict(pools=2, s=2, m=(0.25,)), dict(pools=2, s=4, m=(0.5, 1))],
          thorough=[dict(pools=p, s=s, m=m) for p in (2, 3) for s in SCHEMES for m in ((0, 1), (0.25,), (0.5, 1), (1,)) if p < 3 or len(m) == 1],
          cover=('equal desirability', 'all equal'),
          bounds='2-3 pools with any costs and pledges (equal ones included) and margins from {0, 0.25, 0.5, 1}, opened in any order; one of them '
                 'is closed by its owner; Cardano, flat pledge benefit, CIP-50 (thorough: every scheme)')
def order(ctx):
    """The order of pools that are equally desirable, or equal in everything but age"""
    c = ctx.cfg
    prof = ctx.mods.stakeholder_profiles.NonMyopicStakeholder
    sim = make_sim(ctx, n=3, k=4, a0=2 if c['s'] == 4 else 0.5 if c['s'] else 0, scheme=c['s'], cls=prof, stakes=[0.3, 0.3, 0.4], costs=[0.1] * 3)
    pools = []
    for j in range(c['pools']):
        pledge = ctx.real('pledge', 0.01, 0.2) if j == 0 or ctx.bool('other pledge') else pools[0].pledge
        cost = ctx.real('cost', 0, 1) if j == 0 or ctx.bool('other cost') else pools[0].cost
        pools.append(ctx.mods.pool.Pool(pool_id=sim.get_next_pool_id(), cost=cost, pledge=pledge, owner=j, reward_scheme=sim.reward_scheme,
                                        margin=ctx.choice('margin', c['m'])))
    if ctx.bool('youngest first'):
        pools.reverse()
    for p in pools:
        sim.get_agents_dict()[p.owner].strategy.owned_pools[p.id] = p
        sim.get_agents_dict()[p.owner].open_pool(p.id)
    a, b = pools[:2]
    if ctx.test(same(a.desirability, b.desirability)):
        ctx.cover('all equal' if ctx.test(same(a.potential_profit, b.potential_profit)) else 'equal desirability')
    check_rankings(ctx, sim)
    gone = pools[ctx.pick('closed', len(pools))]
    sim.get_agents_dict()[gone.owner].close_pool(gone.id)
    check_rankings(ctx, sim)


@register('C09', quick=[dict(k=(2, 3), a0=0, pools=2), dict(k=(3, 2), a0=0, pools=2), dict(k=2, a0=(0, 1), pools=2)],
          thorough=[dict(k=k, a0=a, pools=p) for k in ((2, 3), (3, 2), (2, 8), 2) for a in (0, (0, 1), (1, 0)) for p in (2, 3)
                    if isinstance(k, tuple) or isinstance(a, tuple)],
          bounds='2-3 pools with any pledges and costs, delegations and margins from {0, 0.5}; k and a0 change between phases')
def new_phase(ctx):
    """The rankings after the parameters have changed"""
    c = ctx.cfg
    as_arg = lambda v: list(v) if isinstance(v, tuple) else v
    sim = make_sim(ctx, n=3, k=as_arg(c['k']), a0=as_arg(c['a0']), cls=decided(ctx, 'stay'), stakes=[0.3, 0.3, 0.4], costs=[0.1] * 3,
                   iterations_after_convergence=1)
    for j in range(c['pools']):
        add_pool(ctx, sim, j, ctx.real('pledge', 0.01, 0.1), ctx.real('cost', 0, 0.5), margin=ctx.choice('margin', (0, 0.5)) if j else 0, private=False,
                 delegations=[(2, ctx.real('delegated', 0.01, 0.2))] if j == 0 else [])
    check_rankings(ctx, sim)
    sim.step()
    ctx.check('the next phase has begun', sim.current_phase == 1)
    check_rankings(ctx, sim)


@register('C09', quick=[dict(prof=p, limit=3, order=o, k=2) for p in ('non', 'my', 'mixed') for o in ('sequential', 'simultaneous')],
          thorough=[dict(prof=p, limit=5, order=o, k=k, s=s, a0=0.25 if s else 0) for p in ('non', 'my', 'mixed') for k in (1, 2, 3) for s in (0, 2, 4) for o in ('sequential', 'simultaneous')] +
                   [dict(prof=p, limit=3, order='sequential', n=3, k=k, most=0.5) for p, k in (('non', 2), ('mixed', 2), ('my', 1))],
          bounds='2 (thorough 3) agents with fixed stakes, one with any cost between 0.001 and 2, k = 1..2 (thorough 3); runs of up to 3 (thorough 5) rounds')
def real_profiles(ctx):
    """Every round of a run of myopic and non-myopic agents, with an arbitrary cost"""
    sim = real_sim(ctx, ctx.cfg)
    while sim.running:
        sim.step()
        check_rankings(ctx, sim)
