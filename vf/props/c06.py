"""C06  a pool's stake is its pledge plus what is delegated to it, after every sequence of delegation changes"""
from vf.props import register
from vf.props.util import *

ASSUMPTIONS = []


@register('C06', quick=[dict(n=n, steps=s) for n, s in ((1, 4), (2, 4), (3, 4), (2, 5))],
          thorough=[dict(n=n, steps=s) for n, s in ((1, 8), (2, 7), (3, 6), (4, 5), (5, 5))],
          cover=('changed', 'withdrawn'),
          bounds='every sequence of 4-5 (thorough 5-8) changes by 1-3 (5) delegators, each to any amount in [1e-13, 1] or to 0, '
                 'any pledge')
def delegation_history(ctx):
    """A pool whose delegators change their delegation any number of times"""
    c = ctx.cfg
    rs = make_scheme(ctx, 0, 2, 0)
    pledge = ctx.real('pledge', 0, 1)
    pool = ctx.mods.pool.Pool(pool_id=1, cost=0.001, pledge=pledge, owner=99, reward_scheme=rs, margin=0)
    ctx.check('a new pool holds exactly its pledge', eq(pool.stake, pledge))
    book = {}
    for i in range(c['steps']):
        who = ctx.pick('delegator', c['n'])
        if ctx.bool('withdraw'):
            amount = 0
            if who in book:
                ctx.cover('withdrawn')
        else:
            amount = ctx.real('amount', 1e-13, 1)
            if who in book:
                ctx.cover('changed')
        pool.update_delegation(new_delegation=amount, delegator_id=who)
        book.pop(who, None)
        if not (isinstance(amount, int) and amount == 0):
            book[who] = amount
        ctx.check('stake = pledge + current delegations', eq(pool.stake, pledge + vsum(book.values()), tol=1e-12))
        ctx.check('exactly the current delegators are recorded', set(pool.delegators) == set(book))
        for d in book:
            if d in pool.delegators:
                ctx.check('each with the latest amount', eq(pool.delegators[d], book[d], tol=1e-12))
    ctx.check('pledge, owner and id are unaffected', land(eq(pool.pledge, pledge), same(pool.owner, 99), same(pool.id, 1)))


@register('C06', quick=[{}], bounds='two pools of the same scheme, three changes each, interleaved')
def pools_are_independent(ctx):
    """Delegation changes of one pool do not reach another"""
    rs = make_scheme(ctx, 0, 2, 0)
    mk = ctx.mods.pool.Pool
    pools = [mk(pool_id=i, cost=0.001, pledge=0.1 * i, owner=90 + i, reward_scheme=rs, margin=0) for i in (1, 2)]
    books = [{}, {}]
    for i in range(4):
        w, who = ctx.pick('pool', 2), ctx.pick('delegator', 2)
        a = ctx.real('amount', 1e-6, 1)
        pools[w].update_delegation(new_delegation=a, delegator_id=who)
        books[w][who] = a
        for j in (0, 1):
            ctx.check('stake = pledge + current delegations',
                      eq(pools[j].stake, 0.1 * (j + 1) + vsum(books[j].values())))
            ctx.check('exactly the current delegators are recorded', set(pools[j].delegators) == set(books[j]))
