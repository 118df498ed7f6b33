"""C01  reward bounds"""
from vf.props import register
from vf.props.util import *

KS = [1, 2, 3, 7, 10, 49, 100, 150, 500, 1000]
KT = list(range(1, 61)) + [98, 99, 100, 107, 128, 150, 200, 250, 333, 500, 750, 1000, 2000, 5000, 10000]
ASSUMPTIONS = ['CIP-7 curve parameters at their defaults; non-negativity is not claimed for CIP-7, whose published '
               'formula is negative for tiny unsaturated pools with high pledge.']


@register('C01', quick=[dict(s=s, k=k) for s in SCHEMES for k in KS + ([0] if s != 3 else [])],
          thorough=[dict(s=s, k=k) for s in SCHEMES for k in KT + [0]],
          bounds='every a0 in [0, 1e6]; every pledge and stake with 0 <= pledge <= stake <= 1; k from the listed values '
                 'and (k=0 in the list) any real k in [1, 1e5]')
def pool_reward_bounds(ctx):
    """Reward of one pool against 0 and against its capped share of the total reward"""
    c = ctx.cfg
    a0 = ctx.real('a0', 0, 10 ** 6)
    k = c['k'] or ctx.real('k', 1, 10 ** 5)
    stake = ctx.real('stake', 0, 1)
    pledge = ctx.real('pledge', 0, 1)
    ctx.assume(pledge <= stake)
    rs = make_scheme(ctx, c['s'], k, a0)
    r = ctx.mods.helper.calculate_pool_reward(reward_scheme=rs, pool_stake=stake, pool_pledge=pledge)
    ctx.observe('r', r)
    if c['s'] != 3:
        ctx.check('reward is never negative', ge(r, 0))
    ctx.check('reward does not exceed the capped stake share', land(le(r, stake), le(r * k, 1)))


@register('C01', quick=[dict(s=s, k=k, n=n) for s in SCHEMES for k, n in ((1, 2), (2, 3), (3, 4))],
          thorough=[dict(s=s, k=k, n=n) for s in SCHEMES for k in (1, 2, 3, 5, 10) for n in (2, 3, 4, 5)],
          bounds='2-4 (thorough: 2-5) pools with symbolic stake and pledge, a0 in [0, 1e3]')
def total_rewards(ctx):
    """The rewards of all pools of a system whose stakes sum to at most 1 (each pool's bound is shown on the same path)"""
    c = ctx.cfg
    a0 = ctx.real('a0', 0, 1000)
    rs = make_scheme(ctx, c['s'], c['k'], a0)
    left, total, bound = 1, 0, 0
    for i in range(c['n']):
        share = ctx.real('share', 0, 1)
        ctx.assume(share <= left)
        left = left - share
        pledge = ctx.real('pledge', 0, 1)
        ctx.assume(pledge <= share)
        r = ctx.mods.helper.calculate_pool_reward(reward_scheme=rs, pool_stake=share, pool_pledge=pledge)
        total = total + r
        # lemma: with all individual bounds the sum follows by linear arithmetic
        ctx.check('each reward at most its stake', le(r, share))
        ctx.lemma(le(r, share))
    ctx.check('rewards of all pools together do not exceed the total', le(total, 1, 1e-8))


@register('C01', quick=[dict(s=s, order=o, profile=p) for s in SCHEMES for o in ('sequential', 'semisimultaneous') for p in ('NonMyopicStakeholder', 'MyopicStakeholder')],
          bounds='two flat-stake agents of either profile, k = 2, a0 in {0, 0.3, 2}; one round of the real simulation per scheme')
def usable_in_a_simulation(ctx):
    """Every documented scheme can drive a simulation, which then pays bounded rewards to the pools that were formed"""
    c = ctx.cfg
    a0 = ctx.choice('a0', (0, 0.3, 2))
    sim = make_sim(ctx, n=2, k=2, a0=a0, scheme=c['s'], order=c['order'], cls=getattr(ctx.mods.stakeholder_profiles, c['profile']))
    rs = sim.reward_scheme
    ctx.check('the scheme has the requested parameters', land(same(rs.k, 2), eq(rs.a0, a0)))
    sim.step()
    total = 0
    for p in sim.get_pools_list():
        r = ctx.mods.helper.calculate_pool_reward(reward_scheme=rs, pool_stake=p.stake, pool_pledge=p.pledge)
        total = total + r
        ctx.check('reward does not exceed the capped stake share', land(le(r, p.stake), le(r, 0.5)))
    ctx.check('rewards of all pools together do not exceed the total', le(total, 1, 1e-8))
