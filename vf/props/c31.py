"""C31  decisions depend on the present state only, not on how it came about"""
from vf.props import register
from vf.props.util import *

# the stakes below are sums of powers of two, so that the numbers that are not open are not rounded on the way
ASSUMPTIONS = ['The deciding agent runs at most one pool (with more, the order in which margins are handed to them follows their ids).',
               'Ids matter only by their order.']


def world(ctx, c, pledge, delegated, mine, history):
    """The same state, reached in different ways.  Agent 0 decides; agent 1 runs a pool that agent 2 delegates to."""
    prof = ctx.mods.stakeholder_profiles
    Strategy, Pool = ctx.mods.strategy.Strategy, ctx.mods.pool.Pool
    k, a0 = c.get('k', 2), c.get('a0', 0)
    phases = history == 'phase'
    idle = history == 'idle rounds'
    profile = getattr(prof, c['profile'])
    content = type('Content', (ctx.mods.stakeholder.Stakeholder,), {'update_strategy': lambda self: setattr(self, 'new_strategy', None)})
    sim = make_sim(ctx, n=3, k=[c.get('before', 5), k] if phases else k, a0=[1, a0] if phases else a0, scheme=c.get('s', 0), order='simultaneous',
                   cls=content if phases or idle else profile, absolute_utility_threshold=c.get('threshold', 0), stakes=[0.3125, 0.3125, 0.375], costs=[c.get('cost', 1e-3), 2e-3, 3e-3], iterations_after_convergence=10 if idle else 1)
    agents = sim.get_agents_dict()
    ids = []

    def opened(owner, pledge, margin):
        i = sim.get_next_pool_id()
        ids.append(i)
        return Pool(pool_id=i, cost=agents[owner].cost, pledge=pledge, owner=owner, reward_scheme=sim.reward_scheme, margin=margin, is_private=False)

    def move(who, pools=(), allocations=None):
        agents[who].new_strategy = Strategy(owned_pools={p.id: p for p in pools}, stake_allocations=allocations or {})
        agents[who].advance()
        sim.current_step_idle = True
    if history == 'ids':
        for _ in range(7):
            sim.get_next_pool_id()
    first = opened(1, pledge, 0.125)
    terms = Pool(pool_id=first.id, cost=agents[1].cost, pledge=0.25, owner=1, reward_scheme=sim.reward_scheme, margin=0.5, is_private=False)
    move(1, [terms if history == 'other terms' else first])
    if history == 'closed':
        # closed again below, by the moves that lead to the state
        extra = opened(2, 0.1875, 0.5)
        move(2, [extra])
        move(0, allocations={extra.id: 0.0625, first.id: 0.1875})
    if history == 'moved':
        move(2, allocations={first.id: 0.34375})
        move(0, allocations={first.id: 0.015625})
    if history == 'considered':
        for a in agents.values():
            a.step()
            a.new_strategy = None
    move(2, allocations={first.id: 0.25 if history == 'other delegations' else delegated})
    own = None
    if mine == 'own':
        own = opened(0, 0.25, 0.0625)
        move(0, [own])
    elif mine == 'delegates':
        move(0, allocations={first.id: 0.1875})
    else:
        move(0)
    if history == 'considered':
        for a in agents.values():
            a.step()
            a.new_strategy = None
    if history in ('other terms', 'other delegations'):
        # everybody considered what to do, and then the state became what it is
        for a in agents.values():
            a.step()
            a.new_strategy = None
        if history == 'other terms':
            move(1, [first])
        else:
            move(2, allocations={first.id: delegated})
    if history == 'decided':
        agents[0].step()
    if phases or idle:
        # an idle round ends the first phase
        for _ in range(4 if idle else 1):
            sim.step()
        assert sim.current_phase == (0 if idle else 1)
        for a in list(sim.get_agents_list()):
            b = profile(unique_id=a.unique_id, model=sim, stake=a.stake, cost=a.cost)
            b.strategy = a.strategy
            sim.schedule.remove(a)
            sim.schedule.add(b)
    return sim, first, own


def decision(ctx, w):
    """What agent 0 decides, in terms that do not depend on ids"""
    sim, first, own = w
    agent = sim.get_agents_dict()[0]
    agent.step()
    plan = agent.new_strategy
    if plan is None:
        return None
    known = {first.id: 'first'}
    if own is not None:
        known[own.id] = 'own'
    pools = [(known.get(i, 'new'), p.pledge, p.cost, p.margin, p.stake, p.is_private) for i, p in sorted(plan.owned_pools.items())]
    return pools, sorted((known.get(i, 'unknown'), a) for i, a in plan.stake_allocations.items())


HISTORIES = ('ids', 'closed', 'moved', 'considered', 'decided', 'phase', 'other', 'other terms', 'other delegations', 'idle rounds')
PROFILES = ('NonMyopicStakeholder', 'MyopicStakeholder')


OWN = ('own', 'delegates', 'nothing')


def configs(schemes):
    return [dict(profile=p, history=h, mine=m, s=s, a0=a) for p in PROFILES for h in HISTORIES for m in OWN for s, a in schemes]


EXTRA = ([dict(profile=p, history=h, mine=m, k=1) for p in PROFILES for h in ('other terms', 'other delegations') for m in OWN] +
         [dict(profile=p, history='phase', mine=m, before=2, a0=a) for p in PROFILES for m in OWN[1:] for a in (0, 0.25)] +
         [dict(profile=PROFILES[i], history='phase', mine=m, before=1, k=3) for i, m in enumerate(('own', 'delegates'))] +
         [dict(profile=p, history='considered', mine='own', threshold=0.0625) for p in PROFILES] +
         [dict(profile=p, history=h, mine=m, cost=0.5) for p in PROFILES for h in HISTORIES for m in OWN[1:]])


@register('C31', quick=configs(((0, 0), (0, 0.3), (2, 1))) + EXTRA, thorough=configs(((0, 0), (0, 0.3), (2, 1), (1, 0.5), (2, 0.25), (4, 0))) + EXTRA,
          cover=('operates', 'delegates', 'stays'),
          bounds='3 agents, k = 2 or 3, one or two pools with any delegation and (but for the hardest cases) any pledge; 10 histories: ids used up, a pool opened and closed again, delegations '
                 'changed, moves considered before, decided already, other parameters before, another simulation before, the pool of another agent on other terms, or with other delegations, when everybody considered a move, some rounds in which nobody moved')
def history_does_not_matter(ctx):
    """The same state, reached directly and with a history, leads to the same decision"""
    c = ctx.cfg
    # every decision on the way adds its own case distinctions, so the hardest cases leave one quantity open
    pledge = 0.125 if c['history'] in ('considered', 'other terms', 'other delegations') or c.get('a0') == 0.3 else ctx.real('pledge', 0.01, 0.3125)
    delegated = ctx.real('delegated', 0.01, 0.375)
    one = decision(ctx, world(ctx, c, pledge, delegated, c['mine'], None))
    ctx.as_new_process()
    if c['history'] == 'other':
        # simulations that differ in one parameter decide first, in the same process
        for other in (dict(k=3), dict(a0=0.75), dict(cost=2e-3)):
            decision(ctx, world(ctx, dict(c, **other), 0.125, 0.25, c['mine'], None))
    two = decision(ctx, world(ctx, c, pledge, delegated, c['mine'], c['history']))
    ctx.cover('stays' if one is None else 'operates' if one[0] else 'delegates' if one[1] else 'leaves')
    ctx.check('moves or not, whatever came before', (one is None) == (two is None))
    if one is None or two is None:
        return
    ctx.check('the same pools, whatever came before', len(one[0]) == len(two[0]) and [x[0] for x in one[0]] == [x[0] for x in two[0]] and
              [x[5] for x in one[0]] == [x[5] for x in two[0]])
    for x, y in zip(one[0], two[0]):
        ctx.check('pools on the same terms, whatever came before', land(*[eq(x[j], y[j]) for j in range(1, 5)]))
    ctx.check('the same delegations, whatever came before', [x[0] for x in one[1]] == [x[0] for x in two[1]])
    for x, y in zip(one[1], two[1]):
        ctx.check('delegations of the same amounts, whatever came before', eq(x[1], y[1]))
