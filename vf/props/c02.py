"""C02  shape of the reward curves"""
from vf.props import register
from vf.props.util import *

KS = [1, 2, 3, 10, 100, 500]
KT = list(range(1, 31)) + [49, 98, 100, 107, 150, 200, 333, 500, 1000, 5000]
ASSUMPTIONS = ['CIP-7 curve parameters at their published defaults (crossover 8, cube root).']


def reward(ctx, rs, stake, pledge):
    return ctx.mods.helper.calculate_pool_reward(reward_scheme=rs, pool_stake=stake, pool_pledge=pledge)


def formula(s, z, a0, stake, pledge):
    """The published definitions, written independently of the implementation; total reward 1, saturation z"""
    if s == 4:
        return vmin(stake, a0 * pledge, z)
    sg = vmin(stake, z)
    if s == 3:
        pledge = pledge ** (1 / 3) * (z / 8) ** (2 / 3)
    la = vmin(pledge, z)
    if s in (0, 3):
        return (sg + la * a0 * (sg - la * (z - sg) / z) / z) / (1 + a0)
    if s == 1:
        return (sg + a0 * sg * la / z) / (1 + a0)
    return (sg + a0 * la) / (1 + a0)


@register('C02', quick=[dict(s=s, k=k) for s in SCHEMES for k in KS],
          thorough=[dict(s=s, k=k) for s in SCHEMES for k in KT],
          bounds='every a0 in [0, 1000], 0 <= pledge <= stake <= 1, k from the listed values')
def definition(ctx):
    """The reward equals the published definition of its scheme"""
    c = ctx.cfg
    a0 = ctx.real('a0', 0, 1000)
    stake = ctx.real('stake', 0, 1)
    pledge = ctx.real('pledge', 0, 1)
    ctx.assume(pledge <= stake)
    rs = make_scheme(ctx, c['s'], c['k'], a0)
    r = reward(ctx, rs, stake, pledge)
    ctx.observe('r', r)
    # forks instead of if-then-else terms keep the arithmetic polynomial
    z = 1 / c['k']
    ctx.test(stake <= z)
    ctx.test(pledge <= z)
    ctx.check('reward equals the definition of the scheme', eq(r, formula(c['s'], z, a0, stake, pledge), 1e-8))
    th = rs.get_pool_saturation_threshold(pledge)
    ctx.check('saturation threshold', eq(th, vmin(a0 * pledge, z) if c['s'] == 4 else z))


@register('C02', quick=[dict(s=s, k=k) for s in SCHEMES for k in (1, 2, 10, 100)],
          thorough=[dict(s=s, k=k) for s in SCHEMES for k in KT],
          bounds='two stakes of the same pool, every a0 in [0, 1000], k from the listed values')
def more_stake(ctx):
    """The same pool with more stake"""
    c = ctx.cfg
    a0 = ctx.real('a0', 0, 1000)
    pledge = ctx.real('pledge', 0, 1)
    s1 = ctx.real('stake_a', 0, 1)
    s2 = ctx.real('stake_b', 0, 1)
    ctx.assume(pledge <= s1)
    ctx.assume(s1 <= s2)
    rs = make_scheme(ctx, c['s'], c['k'], a0)
    r1, r2 = reward(ctx, rs, s1, pledge), reward(ctx, rs, s2, pledge)
    ctx.check('more stake never earns less', le(r1, r2))
    th = rs.get_pool_saturation_threshold(pledge)
    ctx.check('stake beyond saturation earns nothing extra', implies(F(lambda d: s1 >= th), eq(r1, r2)))
    rt = reward(ctx, rs, th, pledge)
    ctx.check('no stake earns more than saturation does', le(r2, rt) if c['s'] != 3 else le(r2, rt))


@register('C02', quick=[dict(s=s, k=k) for s in SCHEMES for k in (1, 2, 10, 100)],
          thorough=[dict(s=s, k=k) for s in SCHEMES for k in KT],
          bounds='two pledges, every a0 in [0, 1000], k from the listed values')
def pledge_influence(ctx):
    """The same pool with more pledge, at saturation and without pledge influence"""
    c = ctx.cfg
    a0 = ctx.real('a0', 0, 1000)
    p1 = ctx.real('pledge_a', 0, 1)
    p2 = ctx.real('pledge_b', 0, 1)
    ctx.assume(p1 <= p2)
    rs = make_scheme(ctx, c['s'], c['k'], a0)
    q1 = ctx.mods.helper.calculate_potential_profit(reward_scheme=rs, pledge=p1, cost=0)
    q2 = ctx.mods.helper.calculate_potential_profit(reward_scheme=rs, pledge=p2, cost=0)
    ctx.check('a saturated pool with more pledge earns at least as much', le(q1, q2))
    cost = ctx.real('cost', 0, 1)
    q3 = ctx.mods.helper.calculate_potential_profit(reward_scheme=rs, pledge=p1, cost=cost)
    ctx.check('costs are paid out of the reward of a saturated pool', eq(q3, q1 - cost))
    ctx.check('potential profit is the profit at saturation',
              eq(q1, reward(ctx, rs, rs.get_pool_saturation_threshold(p1), p1)))
    z = 1 / c['k']
    ctx.check('pledge beyond saturation brings nothing',
              implies(F(lambda d: AND(p1 >= z, a0 >= 1) if c['s'] == 4 else p1 >= z), eq(q1, q2))
              if c['s'] != 3 else le(q1, q2))
    if c['s'] != 4:
        zero = make_scheme(ctx, c['s'], c['k'], 0)
        st = ctx.real('stake', 0, 1)
        r = reward(ctx, zero, st, p1)
        ctx.check('with a0 = 0 the reward is the stake up to saturation', eq(r, vmin(st, z)))


@register('C02', quick=[dict(s=s, k=k) for s in SCHEMES for k in ((10, 20), (3, 2))],
          thorough=[dict(s=s, k=k) for s in SCHEMES for k in ((10, 20), (3, 2), (1, 500), (7, 8), (100, 50))],
          bounds='two values of a0 in [0, 10] and of k (listed pairs) for one scheme object and for two, the same pledge and stake, any '
                 'order of queries')
def changing_parameters(ctx):
    """The same pool under several parameter values in one process: no result outlives the parameters it belongs to"""
    c = ctx.cfg
    hlp = ctx.mods.helper
    a, b = ctx.real('a0_a', 0, 10), ctx.real('a0_b', 0, 10)
    pledge, stake, cost = ctx.real('pledge', 0, 1), ctx.real('stake', 0, 1), ctx.real('cost', 0, 1)
    ctx.assume(pledge <= stake)
    k1, k2 = c['k']
    one, two = make_scheme(ctx, c['s'], k1, a), make_scheme(ctx, c['s'], k1, b)
    other = make_scheme(ctx, (c['s'] + 1) % 5, k1, a)

    def look(rs, s, k, a0):
        z = 1 / k
        ctx.test(stake <= z)
        ctx.test(pledge <= z)
        ctx.check('reward equals the definition of the scheme', eq(reward(ctx, rs, stake, pledge), formula(s, z, a0, stake, pledge), 1e-8))
        th = vmin(a0 * pledge, z) if s == 4 else z
        ctx.check('saturation threshold', eq(rs.get_pool_saturation_threshold(pledge), th))
        ctx.check('potential profit is the profit at saturation',
                  eq(hlp.calculate_potential_profit(reward_scheme=rs, pledge=pledge, cost=cost), formula(s, z, a0, th, pledge) - cost, 1e-8))
    look(one, c['s'], k1, a)
    look(two, c['s'], k1, b)
    look(other, (c['s'] + 1) % 5, k1, a)
    one.k = k2
    look(one, c['s'], k2, a)
    one.a0 = b
    look(one, c['s'], k2, b)
    one.k = k1
    look(one, c['s'], k1, b)
    look(two, c['s'], k1, b)
