"""C07  consistency of pools, delegations and stakes under one-at-a-time activation"""
from vf.props import register
from vf.props.util import *

ASSUMPTIONS = ['Agents\' judgements (utilities) are arbitrary inputs, so the claim does not depend on any profile; '
               'reward sharing uses the Cardano scheme with a0 = 0 unless stated.',
               'One turn is checked from every consistent state (which includes the initial one), so the claim extends '
               'to any number of turns by induction, within the stated numbers of agents and pools.']


def grid(tier):
    out = [dict(n=3, k=2, pools=p, who=w) for p in (0, 1) for w in (0, 1, 2)]
    out += [dict(n=3, k=2, pools=2, who=1), dict(n=2, k=3, pools=2, who=0), dict(n=3, k=2, pools=1, who=0, abst=1)]
    if tier == 'thorough':
        out += [dict(n=3, k=2, pools=2, who=w) for w in (0, 2)] + [dict(n=3, k=3, pools=3, who=1), dict(n=4, k=2, pools=1, who=0),
                dict(n=4, k=2, pools=2, who=0), dict(n=2, k=3, pools=3, who=1), dict(n=3, k=2, pools=2, who=0, abst=1),
                dict(n=3, k=2, pools=1, who=0, s=4), dict(n=2, k=2, pools=2, who=0, s=4)]
    return out


@register('C07', quick=grid('quick'), thorough=grid('thorough'),
          cover=('opened', 'closed', 'kept', 'delegated'),
          bounds='2-3 agents (thorough 4) with any stakes, k = 2..3, any consistent state with up to 2 (thorough 3) pools of '
                 'any owners, pledges (public and private) and delegations; the agent may make any move')
def one_activation(ctx):
    """From any consistent state, one agent takes a turn"""
    c = ctx.cfg
    n = c['n']
    stakes = sym_stakes(ctx, n, lo=0.01)
    costs = [1e-6 * (i + 1) for i in range(n)]
    s = c.get('s', 0)
    cls = [chaos(ctx, margins=(1,))] * n
    if c.get('abst'):
        cls[n - 1] = ctx.mods.stakeholder_profiles.Abstainer
    sim = make_sim(ctx, n=n, k=c['k'], cls=cls, stakes=stakes, costs=costs, scheme=s, a0=4 if s == 4 else 0)
    arbitrary_state(ctx, sim, c['pools'], min_pools=c['pools'], margins=(1,), abstainers=(n - 1,) if c.get('abst') else ())
    agent = sim.get_agents_dict()[c['who']]
    before = set(agent.strategy.owned_pools)
    agent.step()
    after = set(agent.strategy.owned_pools)
    for label, pred in (('opened', after - before), ('closed', before - after), ('kept', before & after),
                        ('delegated', agent.strategy.stake_allocations)):
        if pred:
            ctx.cover(label)
    check_consistent(ctx, sim)
    ctx.observe('pools', sorted(sim.pools))
    ctx.observe('stakes', [p.stake for _, p in sorted(sim.pools.items())])


@register('C07', quick=[dict(order='random', pools=1)],
          thorough=[dict(order=o, pools=p) for o in ('random', 'sequential') for p in (0, 1, 2)],
          bounds='2 agents, k = 2, any consistent state with 1 (thorough 0-2) pools; one whole round')
def one_round(ctx):
    """From any consistent state, one round of the simulation, in any order"""
    c = ctx.cfg
    stakes = sym_stakes(ctx, 2, lo=0.01)
    sim = make_sim(ctx, n=2, k=2, order=c['order'], cls=chaos(ctx, margins=(1,)), stakes=stakes, costs=[1e-6, 2e-6])
    arbitrary_state(ctx, sim, c['pools'], min_pools=c['pools'], margins=(1,))
    sim.random = SymRandom(ctx)
    sim.step()
    check_consistent(ctx, sim)
    ctx.observe('pools', sorted(sim.pools))


@register('C07', quick=[dict(prof=p, limit=3, order=o, k=2) for p in ('non', 'my', 'mixed') for o in ('sequential',)] + [dict(prof='mixed', limit=2, order='random', k=1)],
          thorough=[dict(prof=p, limit=5, order='sequential', k=k, s=s, a0=0.25 if s else 0) for p in ('non', 'my', 'mixed') for k in (1, 2, 3) for s in (0, 2, 4)] +
                   [dict(prof=p, limit=3, order='sequential', n=3, k=k, most=0.5) for p, k in (('non', 2), ('mixed', 2), ('my', 1))],
          bounds='2 (thorough 3) agents with fixed stakes, one with any cost between 0.001 and 2, k = 1..2 (thorough 3); runs of up to 3 (thorough 5) rounds')
def real_profiles(ctx):
    """Every round of a run of myopic and non-myopic agents, with an arbitrary cost"""
    sim = real_sim(ctx, ctx.cfg)
    while sim.running:
        sim.step()
        check_consistent(ctx, sim)
