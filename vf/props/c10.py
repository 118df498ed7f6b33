"""C10  deciding changes nothing; only acting does"""
from vf.props import register
from vf.props.util import *

ASSUMPTIONS = ['Cardano scheme, a0 = 0.']


def snapshot(sim):
    pools = {}
    for i, p in sim.pools.items():
        pools[i] = (p, p.id, p.owner, p.stake, p.pledge, p.cost, p.margin, p.is_private, p.potential_profit,
                    p.desirability, dict(p.delegators))
    agents = {}
    for i, a in sim.get_agents_dict().items():
        st = a.strategy
        agents[i] = (a, a.stake, a.cost, st, None if st is None else dict(st.stake_allocations),
                     None if st is None else dict(st.owned_pools))
    return pools, agents, list(sim.pool_rankings), list(sim.pool_rankings_myopic)


def same_dict(a, b):
    return land(set(a) == set(b), *[eq(a[k], b[k]) for k in a if k in b])


def check_unchanged(ctx, before, after, but=None):
    ctx.check('the set of pools is unchanged', set(before[0]) == set(after[0]))
    for i in before[0]:
        if i not in after[0]:
            continue
        x, y = before[0][i], after[0][i]
        ctx.check('pools stay the same objects', x[0] is y[0])
        ctx.check('id, owner and privacy of pools are unchanged', x[1] == y[1] and x[2] == y[2] and x[7] == y[7])
        ctx.check('stakes of pools are unchanged', eq(x[3], y[3]))
        ctx.check('pledge, cost and margin of pools are unchanged', land(*[eq(x[j], y[j]) for j in (4, 5, 6)]))
        ctx.check('profit and desirability of pools are unchanged', land(eq(x[8], y[8]), eq(x[9], y[9])))
        ctx.check('delegations of pools are unchanged', same_dict(x[10], y[10]))
    for i in before[1]:
        x, y = before[1][i], after[1][i]
        ctx.check('stake and cost of agents are unchanged', land(eq(x[1], y[1]), eq(x[2], y[2])))
        ctx.check('strategies in force are unchanged', x[3] is y[3])
        if x[3] is not None:
            ctx.check('allocations in force are unchanged', same_dict(x[4], y[4]))
            ctx.check('owned pools in force are unchanged',
                      set(x[5]) == set(y[5]) and all(x[5][k] is y[5][k] for k in x[5]))
    for r in (2, 3):
        a = [p for p in before[r] if p is not None]
        b = [p for p in after[r] if p is not None]
        ctx.check('rankings are unchanged', len(a) == len(b) and all(p is q for p, q in zip(a, b)))
        ctx.check('rankings keep their length', len(before[r]) == len(after[r]))


@register('C10', quick=[dict(n=3, k=2, pools=0), dict(n=3, k=2, pools=1), dict(n=2, k=2, pools=2, own=1), dict(n=2, k=3, pools=1)],
          thorough=[dict(n=3, k=2, pools=p) for p in (0, 1, 2)] + [dict(n=2, k=3, pools=p) for p in (1, 2, 3)] +
                   [dict(n=4, k=2, pools=1)],
          cover=('will operate', 'will delegate', 'stays'),
          bounds='2-3 agents (thorough 4) with any stakes, k = 2..3, any consistent state with up to 2 (3) pools; arbitrary '
                 'judgement')
def any_judgement(ctx):
    """An agent with arbitrary judgement decides; nothing but its own plan changes"""
    c = ctx.cfg
    n = c['n']
    stakes = sym_stakes(ctx, n, lo=0.01)
    sim = make_sim(ctx, n=n, k=c['k'], order='simultaneous', cls=chaos(ctx, margins=(0.25,)), stakes=stakes,
                   costs=[1e-3 * (i + 1) for i in range(n)])
    arbitrary_state(ctx, sim, c['pools'], min_pools=c['pools'], margins=(0,))
    agent = sim.get_agents_dict()[0]
    before = snapshot(sim)
    agent.step()
    ns = agent.new_strategy
    ctx.cover('stays' if ns is None else 'will operate' if ns.owned_pools else 'will delegate')
    check_unchanged(ctx, before, snapshot(sim))


@register('C10', quick=[dict(profile=p, pools=n) for p in ('NonMyopicStakeholder', 'MyopicStakeholder', 'Abstainer')
                        for n in (1, 2)],
          thorough=[dict(profile=p, pools=n, a0=a) for p in ('NonMyopicStakeholder', 'MyopicStakeholder', 'Abstainer')
                    for n in (0, 1, 2, 3) for a in (0, 0.3)],
          bounds='3 agents, k = 2, 1-2 (thorough 3) existing pools, one of which may be the deciding agent\'s own, any '
                 'delegations to them; each real profile decides')
def real_profiles(ctx):
    """An agent of each profile decides; nothing but its own plan changes"""
    c = ctx.cfg
    prof = ctx.mods.stakeholder_profiles
    cls = getattr(prof, c['profile'])
    sim = make_sim(ctx, n=3, k=2, a0=c.get('a0', 0), order='simultaneous', cls=[cls] + [prof.NonMyopicStakeholder] * 2,
                   stakes=[0.2, 0.45, 0.35], costs=[1e-3, 2e-3, 3e-3])
    abst = c['profile'] == 'Abstainer'
    left = {0: 0.2, 1: 0.35, 2: 0.25}
    for j in range(c['pools']):
        owner = (1 if abst else ctx.choice('owner', (0, 1))) if j == 0 else 2 if j == 1 else 1
        dels = []
        for d in ((0, 2) if owner == 1 else (1,) if owner == 0 else (0,)):
            if (d == 0 and abst) or not ctx.bool('delegates'):
                continue
            a = ctx.real('deleg', 1e-3, 0.3)
            ctx.assume(a <= left[d])
            left[d] = left[d] - a
            dels.append((d, a))
        add_pool(ctx, sim, owner, 0.2 if owner == 0 else 0.05, 1e-3 * (owner + 1), margin=(0.01, 0.5, 0)[j], private=False,
                 delegations=[x for x in dels if not (x[0] == 0 and 0 in [q.owner for q in sim.pools.values()])])
    agent = sim.get_agents_dict()[0]
    before = snapshot(sim)
    agent.step()
    check_unchanged(ctx, before, snapshot(sim))
    if abst:
        ctx.check('abstainers make no plans', agent.new_strategy is None and agent.strategy is None)
