"""C08  consistency of pools, delegations and stakes when agents decide simultaneously"""
from vf.props import register
from vf.props.util import *

ASSUMPTIONS = ['Agents\' judgements (utilities) are arbitrary inputs, so the claim does not depend on any profile; '
               'reward sharing uses the Cardano scheme with a0 = 0.']


@register('C08', quick=[dict(n=2, k=1, pools=0), dict(n=2, k=1, pools=1), dict(n=2, k=2, pools=1, order='simultaneous'),
                       dict(n=3, k=1, pools=1, order='semisimultaneous')],
          thorough=[dict(n=n, k=k, pools=p, order=o) for n, k, p in
                    ((2, 1, 0), (2, 1, 1), (2, 2, 0), (2, 2, 1), (2, 2, 2), (2, 1, 2), (3, 1, 0), (3, 1, 1), (3, 2, 1), (3, 1, 2),
                     (3, 2, 2))
                    for o in ('simultaneous', 'semisimultaneous')],
          cover=('several moved',),
          bounds='2-3 agents with any stakes, k = 1..2, any consistent state with up to 1 (thorough 2) pools of any owner, '
                 'pledge and delegations; every agent may make any move; all activation orders')
def one_round(ctx):
    """From any consistent state, a round in which agents decide on the same state and then act one after the other"""
    c = ctx.cfg
    n = c['n']
    stakes = sym_stakes(ctx, n, lo=0.01)
    order = c.get('order') or ctx.choice('order', ('simultaneous', 'semisimultaneous'))
    sim = make_sim(ctx, n=n, k=c['k'], order=order, cls=chaos(ctx, margins=(1,)), stakes=stakes,
                   costs=[1e-6 * (i + 1) for i in range(n)])
    arbitrary_state(ctx, sim, c['pools'], min_pools=c['pools'], margins=(1,))
    sim.random = SymRandom(ctx)
    strategies = {i: a.strategy for i, a in sim.get_agents_dict().items()}
    sim.schedule.step()
    if sum(a.strategy is not strategies[i] for i, a in sim.get_agents_dict().items()) > 1:
        ctx.cover('several moved')
    check_consistent(ctx, sim)
    ctx.observe('pools', sorted(sim.pools))
    ctx.observe('stakes', [p.stake for _, p in sorted(sim.pools.items())])


@register('C08', quick=[dict(prof=p, limit=3, order='simultaneous', k=2) for p in ('non', 'my', 'mixed')] + [dict(prof='mixed', limit=2, order='semisimultaneous', k=1)],
          thorough=[dict(prof=p, limit=5, order='simultaneous', k=k, s=s, a0=0.25 if s else 0) for p in ('non', 'my', 'mixed') for k in (1, 2, 3) for s in (0, 2, 4)] +
                   [dict(prof=p, limit=3, order='simultaneous', n=3, k=k, most=0.5) for p, k in (('non', 2), ('mixed', 2), ('my', 1))],
          bounds='2 (thorough 3) agents with fixed stakes, one with any cost between 0.001 and 2, k = 1..2 (thorough 3); runs of up to 3 (thorough 5) rounds')
def real_profiles(ctx):
    """Every round of a run of myopic and non-myopic agents, with an arbitrary cost"""
    sim = real_sim(ctx, ctx.cfg)
    while sim.running:
        sim.step()
        check_consistent(ctx, sim)
