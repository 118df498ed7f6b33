"""C35  a move changes the mover's own pools and delegations, as planned, and nothing else"""
from vf.props import register
from vf.props.util import *

ASSUMPTIONS = ['Agents\' judgements (utilities) are arbitrary inputs, so the claim does not depend on any profile; reward sharing uses the Cardano scheme with a0 = 0.',
               'One move is checked from every consistent state, so the claim extends to any number of moves, within the stated numbers of agents and pools.']


def pool_facts(p):
    return dict(owner=p.owner, pledge=p.pledge, cost=p.cost, margin=p.margin, private=p.is_private)


def facts(sim):
    """All there is, as plain values"""
    pools = {i: dict(pool_facts(p), delegators=dict(p.delegators)) for i, p in sim.pools.items()}
    agents = {}
    for i, a in sim.get_agents_dict().items():
        st = a.strategy
        plan = getattr(a, 'new_strategy', None)
        agents[i] = dict(stake=a.stake, cost=a.cost, abstains=st is None,
                         owned=set(st.owned_pools) if st is not None else set(), delegations=dict(st.stake_allocations) if st is not None else {},
                         plan=None if plan is None else dict(pools={j: pool_facts(p) for j, p in plan.owned_pools.items()}, delegations=dict(plan.stake_allocations)))
    return dict(pools=pools, agents=agents)


def agree(a, b):
    return land(set(a) == set(b), *[eq(a[k], b[k]) for k in a if k in b])


def same_pool(a, b):
    return land(a['owner'] == b['owner'], a['private'] == b['private'], eq(a['pledge'], b['pledge']), eq(a['cost'], b['cost']), eq(a['margin'], b['margin']))


def check_move(ctx, who, before, after, seen, started, tag):
    """who carries out its plan in `before`; `seen`: all ids of pools so far; `started`: the last id there was when the round began"""
    old, new = before['agents'], after['agents']
    plan = old[who]['plan']
    for i in old:
        ctx.check(tag + 'nobody gains or loses stake, costs stay', land(eq(old[i]['stake'], new[i]['stake']), eq(old[i]['cost'], new[i]['cost'])))
        ctx.check(tag + 'nobody starts or stops abstaining', old[i]['abstains'] == new[i]['abstains'])
    was, now = before['pools'], after['pools']
    if plan is None:
        ctx.check(tag + 'without a plan nothing happens', land(set(was) == set(now), *[same_pool(was[j], now[j]) for j in was if j in now],
                                                               *[agree(was[j]['delegators'], now[j]['delegators']) for j in was if j in now],
                                                               *[agree(old[i]['delegations'], new[i]['delegations']) for i in old]))
        return
    others = {j for j, p in was.items() if p['owner'] != who}
    ctx.check(tag + 'afterwards there are the pools of the others and the planned ones', set(now) == others | set(plan['pools']))
    for j in others & set(now):
        ctx.check(tag + 'pools of others keep owner, pledge, cost, margin and privacy', same_pool(was[j], now[j]))
        theirs = {d: a for d, a in was[j]['delegators'].items() if d != who}
        ctx.check(tag + 'pools of others keep the delegations of others', agree(theirs, {d: a for d, a in now[j]['delegators'].items() if d != who}))
        ctx.check(tag + 'the mover delegates what was planned', eq(now[j]['delegators'].get(who, 0), plan['delegations'].get(j, 0)))
    lost = {j for j in was if was[j]['owner'] == who and j not in plan['pools']}
    for j, p in plan['pools'].items():
        if j not in now:
            continue
        ctx.check(tag + 'the mover\'s pools are as planned', same_pool(p, now[j]))
        if j not in was:
            ctx.check(tag + 'a new pool has a new id', j not in seen and j > started)
            ctx.check(tag + 'a new pool has no delegators yet', now[j]['delegators'] == {})
        elif p['private']:
            lost.add(j)
            ctx.check(tag + 'a pool that turned private has no delegators', now[j]['delegators'] == {})
        else:
            ctx.check(tag + 'a pool that is kept keeps its delegators', agree(was[j]['delegators'], now[j]['delegators']))
            ctx.cover('kept')
    if any(was[j]['delegators'] for j in lost):
        ctx.cover('delegators lost their pool')
    ctx.check(tag + 'the mover runs the planned pools', new[who]['owned'] == set(plan['pools']))
    ctx.check(tag + 'the mover has the planned delegations on record', agree(plan['delegations'], new[who]['delegations']))
    ctx.check(tag + 'a plan is carried out once', new[who]['plan'] is None)
    for i in old:
        if i == who:
            continue
        ctx.check(tag + 'others keep their pools', old[i]['owned'] == new[i]['owned'])
        ctx.check(tag + 'others keep their delegations, but to pools that closed or turned private',
                  agree({j: a for j, a in old[i]['delegations'].items() if j not in lost}, new[i]['delegations']))
        x, y = old[i]['plan'], new[i]['plan']
        ctx.check(tag + 'others keep their plans', (x is None) == (y is None))
        if x is not None and y is not None:
            ctx.check(tag + 'others keep their plans', land(set(x['pools']) == set(y['pools']), *[same_pool(x['pools'][j], y['pools'][j]) for j in x['pools'] if j in y['pools']],
                      agree({j: a for j, a in x['delegations'].items() if j not in lost}, {j: a for j, a in y['delegations'].items() if j not in lost})))


CFG = [dict(n=3, k=2, pools=0, who=0), dict(n=3, k=2, pools=1, who=0), dict(n=3, k=2, pools=1, who=1), dict(n=2, k=3, pools=2, who=0), dict(n=3, k=2, pools=1, who=0, abst=1),
       dict(n=3, k=1, pools=2, who=1), dict(n=2, k=2, pools=1, who=0, margin=0.125)]


@register('C35', quick=CFG, thorough=CFG + [dict(n=3, k=2, pools=2, who=w) for w in (0, 1, 2)] + [dict(n=4, k=2, pools=1, who=0), dict(n=2, k=3, pools=3, who=1),
                                          dict(n=3, k=2, pools=2, who=0, abst=1), dict(n=3, k=2, pools=2, who=0, abst=1)],
          cover=('opened', 'closed', 'kept', 'delegated', 'delegators lost their pool', 'no move'),
          bounds='2-3 agents (thorough 4) with any stakes, k = 1..3, any consistent state with up to 2 (thorough 3) pools of any owners, pledges (public and private) and '
                 'delegations; the agent may decide on any move')
def one_move(ctx):
    """From any consistent state, an agent decides and carries out its move"""
    c = ctx.cfg
    n = c['n']
    cls = [chaos(ctx, margins=(0.25,))] * n
    if c.get('abst'):
        cls[n - 1] = ctx.mods.stakeholder_profiles.Abstainer
    sim = make_sim(ctx, n=n, k=c['k'], order='simultaneous', cls=cls, stakes=sym_stakes(ctx, n, lo=0.01), costs=[1e-6 * (i + 1) for i in range(n)])
    arbitrary_state(ctx, sim, c['pools'], min_pools=c['pools'], margins=(c.get('margin', 0.5),), abstainers=(n - 1,) if c.get('abst') else ())
    agent = sim.get_agents_dict()[c['who']]
    seen = set(sim.pools)
    agent.step()
    before = facts(sim)
    agent.advance()
    after = facts(sim)
    plan = before['agents'][c['who']]['plan']
    if plan is None:
        ctx.cover('no move')
    else:
        own = before['agents'][c['who']]['owned']
        for label, pred in (('opened', set(plan['pools']) - own), ('closed', own - set(plan['pools'])), ('delegated', plan['delegations'])):
            if pred:
                ctx.cover(label)
    check_move(ctx, c['who'], before, after, seen, max(seen, default=0), '')


@register('C35', quick=[dict(n=2, k=1, pools=0), dict(n=2, k=1, pools=1), dict(n=2, k=2, pools=1, order='simultaneous')],
          thorough=[dict(n=n, k=k, pools=p, order=o) for n, k, p in ((2, 1, 0), (2, 1, 1), (2, 2, 0), (2, 2, 1), (2, 2, 2), (2, 1, 2), (3, 1, 0), (3, 1, 1))
                    for o in ('simultaneous', 'semisimultaneous')],
          cover=('several moved', 'opened'),
          bounds='2 (thorough 3) agents with any stakes, k = 1..2, any consistent state with up to 1 (thorough 2) pools; every agent may decide on any move')
def whole_round(ctx):
    """From any consistent state, a round in which agents decide on the same state and then act one after the other"""
    c = ctx.cfg
    n = c['n']
    base = chaos(ctx, margins=(0.25,))
    moved, seen = [], set()

    class Watched(base):
        def advance(self):
            before = facts(self.model)
            super().advance()
            after = facts(self.model)
            if before['agents'][self.unique_id]['plan'] is not None:
                moved.append(self.unique_id)
                if set(after['pools']) - set(before['pools']):
                    ctx.cover('opened')
            check_move(ctx, self.unique_id, before, after, seen, started, 'in a round: ')
            seen.update(after['pools'])
    order = c.get('order') or ctx.choice('order', ('simultaneous', 'semisimultaneous'))
    sim = make_sim(ctx, n=n, k=c['k'], order=order, cls=Watched, stakes=sym_stakes(ctx, n, lo=0.01), costs=[1e-6 * (i + 1) for i in range(n)])
    arbitrary_state(ctx, sim, c['pools'], min_pools=c['pools'], margins=(0.5,))
    seen.update(sim.pools)
    started = max(seen, default=0)
    sim.random = SymRandom(ctx)
    sim.schedule.step()
    if len(moved) > 1:
        ctx.cover('several moved')
