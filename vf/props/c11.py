"""C11  where a delegating agent puts its stake"""
from vf.props import register
from vf.props.util import *

ASSUMPTIONS = ['Whether the agent prefers to delegate or to operate is an arbitrary input; stake below 2.2e-17 (the unit of '
               'the code) counts as none.']
UNIT = 2.2e-17


def ranked(ctx, sim, pools, myopic):
    rs = sim.reward_scheme
    if myopic:
        key = {p.id: (-myopic_appeal(ctx, rs, p), p.id) for p in pools}
    else:
        key = {p.id: (-appeal(ctx, rs, p), -profit_at_saturation(ctx, rs, p), p.id) for p in pools}
    return sorted(pools, key=lambda p: key[p.id])


def expected(ctx, sim, agent_id, amount, myopic):
    """The documented rule: best-ranked public pool of somebody else first, each up to saturation; what fits nowhere goes
    to the best pool that was saturated to begin with"""
    rs = sim.reward_scheme
    own = sim.get_agents_dict()[agent_id].strategy.stake_allocations
    pools = [p for p in ranked(ctx, sim, list(sim.pools.values()), myopic)
             if not p.is_private and p.owner != agent_id]
    out, left, saturated = {}, amount, None
    for p in pools:
        room = rs.get_pool_saturation_threshold(p.pledge) - (p.stake - own.get(p.id, 0))
        if ctx.test(room < UNIT):
            saturated = saturated or p
            continue
        if not ctx.test(left >= UNIT):
            break
        give = room if ctx.test(room <= left) else left
        out[p.id] = give
        left = left - give
    if saturated is not None and ctx.test(left >= UNIT):
        out[saturated.id] = left
    return out, left, saturated


def check_allocations(ctx, sim, agent_id, got, amount, myopic):
    want, left, saturated = expected(ctx, sim, agent_id, amount, myopic)
    for pid, a in got.items():
        p = sim.pools.get(pid)
        ctx.check('only live pools', p is not None)
        ctx.check('only public pools', not p.is_private)
        ctx.check('only pools of others', p.owner != agent_id)
        ctx.check('never a negative amount', ge(a, 0))
    ctx.check('not more than the available stake', le(vsum(got.values()), amount))
    for pid in sim.pools:
        ctx.check('stake goes to the best-ranked pools first, each up to saturation',
                  eq(got.get(pid, 0), want.get(pid, 0)))
    if saturated is not None or not ctx.test(left >= UNIT):
        ctx.check('all available stake is delegated where possible',
                  eq(vsum(got.values()), amount) if want else True)


def scene(ctx, myopic):
    c = ctx.cfg
    k = c['k']
    stake = ctx.real('stake', 0.01, 1)
    n = 4
    op = c.get('op', 0)
    cls = decided(ctx, 'operate' if op else 'delegate', op or 1, profile='MyopicStakeholder' if myopic else 'NonMyopicStakeholder')
    sim = make_sim(ctx, n=n, k=k, a0=2 if c.get('s') == 4 else 0, scheme=c.get('s', 0), order='simultaneous', cls=cls,
                   stakes=[stake, 0.3, 0.3, 0.3], costs=[1e-3, 2e-3, 3e-3, 4e-3])
    left = stake
    for j in range(c['pools']):
        owner = (1, 2, 1, 2)[j] if j != c.get('mine', -1) else 0
        private = j == c.get('private', -1)
        pledge = 1 / k if private else 0.05 if j % 2 else 0.1
        dels = []
        if not private:
            if j in c.get('o', (0, 1, 2, 3)) and ctx.bool('others_delegate'):
                dels.append((3, ctx.real('others', 1e-3, 1)))
            if owner != 0 and j in c.get('d', (0, 1, 2, 3)) and ctx.bool('i_delegate'):
                a = ctx.real('mine', 1e-3, 1)
                ctx.assume(a <= left)
                left = left - a
                dels.append((0, a))
        if owner == 0:
            ctx.assume(pledge <= left)
            left = left - pledge
        add_pool(ctx, sim, owner, pledge, (3e-3, 1e-3, 2e-3, 3e-3)[j], private=private,
                 margin=c.get('margin', 0.5) if j == c.get('costly', 1) else 0, delegations=dels)
    return sim, sim.get_agents_dict()[0], stake


CFG = [dict(k=2, pools=0), dict(k=2, pools=1), dict(k=2, pools=2), dict(k=3, pools=3, o=(1,), d=(0,)),
       dict(k=3, pools=3, o=(0, 2), d=()), dict(k=2, pools=2, mine=0),
       dict(k=2, pools=2, private=0), dict(k=2, pools=2, s=4), dict(k=4, pools=3, private=1, o=(0,), d=(2,)),
       dict(k=3, pools=3, mine=1, o=(0,), d=(0,)),
       dict(k=4, pools=2, op=1), dict(k=4, pools=2, op=2, mine=0), dict(k=5, pools=3, op=1, costly=0, o=(2,), d=(0,)),
       dict(k=2, pools=1, costly=0, margin=1), dict(k=3, pools=2, costly=0, margin=1)]
DEEP = [dict(k=3, pools=3), dict(k=4, pools=3, private=1), dict(k=3, pools=3, mine=1), dict(k=5, pools=3, op=1, costly=0)]


@register('C11', quick=CFG + [dict(k=2, pools=1, myopic=1), dict(k=2, pools=2, myopic=1)],
          thorough=CFG + DEEP + [dict(k=k, pools=p, myopic=m, costly=co) for k in (2, 3, 5) for p in (2, 3) for m in (0, 1)
                          for co in (0, 1, 2)] + [dict(k=4, pools=4), dict(k=3, pools=3, s=4)],
          cover=('delegates', 'operates'),
          bounds='any stake; 0-3 (thorough 4) pools with any stake delegated by others and by the agent itself, public or '
                 'private, own or not; k = 2..4 (5); non-myopic and myopic ranking; pools that promise nothing (margin 1) included; Cardano and CIP-50')
def planned_delegation(ctx):
    """The allocations of the plan an agent adopts"""
    c = ctx.cfg
    myopic = bool(c.get('myopic'))
    sim, agent, stake = scene(ctx, myopic)
    agent.step()
    ns = agent.new_strategy
    if ns is None:
        return
    pledged = vsum(p.pledge for p in ns.owned_pools.values())
    ctx.cover('operates' if ns.owned_pools else 'delegates')
    free = stake - pledged
    # an operator delegates only what it cannot pledge
    if ns.owned_pools and not ctx.test(free >= UNIT):
        ctx.check('an operator without spare stake delegates nothing', eq(vsum(ns.stake_allocations.values()), 0))
        return
    check_allocations(ctx, sim, 0, ns.stake_allocations, free, myopic)
    ctx.observe('allocations', dict(ns.stake_allocations))
