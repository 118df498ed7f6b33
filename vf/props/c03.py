"""C03  division of a pool's reward among operator and delegators"""
from vf.props import register
from vf.props.util import *

ASSUMPTIONS = []


@register('C03', quick=[dict(n=n, s=s) for n in (1, 2, 3) for s in (0, 1, 2, 4)] + [dict(n=2, s=0, k=10)],
          thorough=[dict(n=n, s=s, k=k) for n in (1, 2, 3, 4, 5) for s in SCHEMES for k in (2, 10, 100)],
          cover=('profit', 'loss'),
          bounds='one pool with up to 3 (thorough: 5) delegators, symbolic pledge, amounts, margin in [0, 1], cost in '
                 '[0, 1], a0 in [0, 10]')
def split(ctx):
    """What the operator and all delegators of one pool receive"""
    c = ctx.cfg
    hlp = ctx.mods.helper
    a0 = ctx.real('a0', 0, 10)
    rs = make_scheme(ctx, c['s'], c.get('k', 2), a0)
    margin = ctx.real('margin', 0, 1)
    cost = ctx.real('cost', 0, 1)
    pledge = ctx.real('pledge', 1e-6, 1)
    left = 1 - pledge
    amounts = []
    for i in range(c['n']):
        a = ctx.real('amount', 0, 1)
        ctx.assume(a <= left)
        left = left - a
        amounts.append(a)
    stake = pledge + vsum(amounts)
    kw = dict(pool_stake=stake, pledge=pledge, margin=margin, cost=cost, reward_scheme=rs)
    r = hlp.calculate_pool_reward(reward_scheme=rs, pool_stake=stake, pool_pledge=pledge)
    op = hlp.calculate_operator_utility_from_pool(**kw)
    dels = [hlp.calculate_delegator_utility_from_pool(stake_allocation=a, **kw) for a in amounts]
    ctx.observe('shares', [op] + dels)
    # the reward enters the rest only as a number: cut the polynomial
    profit = r - cost
    if ctx.test(profit >= 0):
        ctx.cover('profit')
        for a, d in zip(amounts, dels):
            ctx.check('a delegator receives the share of the profit left after the margin',
                      eq(d * stake, (1 - margin) * profit * a))
        ctx.check('the operator receives the margin and the share of the own pledge',
                  eq(op * stake, (margin * stake + (1 - margin) * pledge) * profit))
        ctx.check('shares add up to the profit', eq((op + vsum(dels)) * stake, profit * stake, 1e-8))
        ctx.check('the operator never pays in a profitable pool', ge(op, 0))
    else:
        ctx.cover('loss')
        ctx.check('the operator bears the whole loss', eq(op, profit))
        for d in dels:
            ctx.check('delegators neither pay nor receive in a loss', eq(d, 0))
    for d in dels:
        ctx.check('a delegator never pays', ge(d, 0))


@register('C03', quick=[{}], cover=('profit', 'loss'),
          bounds='arbitrary reward in [-1, 1], margin, cost, and shares')
def split_of_any_reward(ctx):
    """The two sharing rules for an arbitrary reward, for two pools evaluated one after the other"""
    hlp = ctx.mods.helper
    for i in range(2):
        r = ctx.real('reward', -1, 1)
        margin = ctx.real('margin', 0, 1)
        cost = ctx.real('cost', 0, 1)
        f = ctx.real('operator_fraction', 0, 1)
        g = ctx.real('delegator_fraction', 0, 1)
        ctx.assume(f + g <= 1)
        op = hlp.calculate_operator_reward_from_pool(pool_margin=margin, pool_cost=cost, pool_reward=r,
                                                     operator_stake_fraction=f)
        d = hlp.calculate_delegator_reward_from_pool(pool_margin=margin, pool_cost=cost, pool_reward=r,
                                                     delegator_stake_fraction=g)
        if ctx.test(r - cost >= 0):
            ctx.cover('profit')
            ctx.check('operator share', eq(op, (margin + (1 - margin) * f) * (r - cost)))
            ctx.check('delegator share', eq(d, (1 - margin) * g * (r - cost)))
            ctx.check('no more than the profit is handed out', le(op + d, r - cost))
        else:
            ctx.cover('loss')
            ctx.check('loss borne by the operator', eq(op, r - cost))
            ctx.check('no delegator pays', eq(d, 0))
