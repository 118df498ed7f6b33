"""C29  nothing is created or lost when the rewards are paid out"""
from vf.props import register
from vf.props.util import *

ASSUMPTIONS = ['CIP-7 is left out where a lower bound of rewards matters (its published formula can be negative).']


@register('C29', quick=[dict(pools=(0,)), dict(pools=(0, 1)), dict(pools=(0,), profile='MyopicStakeholder', s=1), dict(pools=(1,), s=2, a0=0.5),
                        dict(pools=(2,), s=4, a0=3), dict(pools=(0, 0)), dict(pools=(0, 0), k=1), dict(pools=(1,), abst=1)],
          thorough=[dict(pools=p, s=s, a0=a, profile=f, all=len(p) < 3) for p in ((0,), (1, 1), (0, 1), (0, 1, 2), (2, 2, 0)) for s, a in ((0, 0), (1, 0), (2, 0), (3, 0), (0, 0.5), (1, 1), (2, 1), (4, 3))
                    for f in ('NonMyopicStakeholder', 'MyopicStakeholder')],
          cover=('profit', 'loss'),
          bounds='3 agents with any stakes (listed ones with two pools), k = 3, or 1 with more pools than that; 1-2 (thorough 3) pools of listed owners with any pledge, the first (thorough: each) with any cost and margin, any of the others delegating '
                 'any amount to the first (thorough: to each) of them')
def income(ctx):
    """The agents together receive what the pools earn, less what running them costs"""
    c = ctx.cfg
    prof = ctx.mods.stakeholder_profiles
    s, a0 = c.get('s', 0), c.get('a0', 0)
    kind = getattr(prof, c.get('profile', 'NonMyopicStakeholder'))
    owners = c['pools']
    cls = [prof.Abstainer if c.get('abst') and i == 0 else kind for i in range(3)]
    sim = make_sim(ctx, n=3, k=c.get('k', 3), a0=a0, scheme=s, cls=cls, stakes=sym_stakes(ctx, 3, lo=0.01) if len(owners) == 1 or c.get('all') else [0.3, 0.3, 0.4], costs=[0.1, 0.2, 0.3])
    agents = sim.get_agents_dict()
    left = {i: a.stake for i, a in agents.items()}
    for j, o in enumerate(owners):
        pledge = ctx.real('pledge', 1e-3, 0.33)
        ctx.assume(pledge <= left[o])
        left[o] = left[o] - pledge
        dels = []
        for i in agents:
            if i != o and agents[i].strategy is not None and (j == 0 or i == 2 or c.get('all')) and ctx.bool('delegates'):
                amount = ctx.real('delegated', 1e-3, 1) if j == 0 or c.get('all') else 0.05
                ctx.assume(amount <= left[i])
                left[i] = left[i] - amount
                dels.append((i, amount))
        add_pool(ctx, sim, o, pledge, ctx.real('cost', 0, 0.4) if j == 0 or c.get('all') else 0.03, margin=ctx.real('margin', 0, 1) if j == 0 else 0.25, private=False, delegations=dels)
    rs = sim.reward_scheme
    paid = 0
    earned = 0
    for p in sim.pools.values():
        reward = pool_reward(ctx, rs, p.stake, p.pledge)
        earned = earned + reward
        paid = paid + reward - p.cost
        ctx.cover('profit' if ctx.test(reward > p.cost) else 'loss')
    got = {i: a.calculate_current_utility() if a.strategy is not None else 0 for i, a in agents.items()}
    total = vsum(got.values())
    ctx.check('the agents receive what the pools earn less their costs', eq(total, paid, 1e-8))
    ctx.check('no more is paid out than an epoch has to give', le(earned, 1))
    for i, u in got.items():
        if i not in owners:
            ctx.check('who runs no pool pays nothing', ge(u, 0))
            if not any(i in p.delegators for p in sim.pools.values()):
                ctx.check('who takes no part receives nothing', eq(u, 0))
