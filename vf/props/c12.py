"""C12  when an agent changes its strategy, and for which one"""
from vf.props import register
from vf.props.util import *

ASSUMPTIONS = ['The margins and the number of pools of a plan to operate are fixed here (C04, C13 decide them).']


def weighing(ctx, margin=0.25):
    """A profile that weighs its options with arbitrary results; the harness gets to see what it compared"""
    Base = ctx.mods.stakeholder.Stakeholder

    class Weighing(Base):
        def __init__(self, unique_id, model, stake, cost, strategy=None):
            super().__init__(unique_id=unique_id, model=model, stake=stake, cost=cost, strategy=strategy)
            self.rankings = model.pool_rankings
            self.u = {}

        def value(self, kind):
            if kind not in self.u:
                self.u[kind] = ctx.real('%s%s' % (kind, self.unique_id), -1, 1)
            return self.u[kind]

        def calculate_current_utility(self):
            super().calculate_current_utility()
            return self.value('earns')

        def calculate_operator_utility_from_strategy(self, strategy):
            return 0

        def calculate_delegator_utility_from_pool(self, pool, stake_allocation):
            return 0

        def calculate_expected_utility(self, strategy):
            super().calculate_expected_utility(strategy)
            if strategy is self.strategy:
                return self.value('expects')
            return self.value('operate') if strategy.owned_pools else self.value('delegate')

        def calculate_margins_and_utility(self, num_pools):
            return [margin] * num_pools, -num_pools
    return Weighing


@register('C12', quick=[dict(order=o, start=s, rel=r) for o in ('sequential', 'simultaneous')
                        for s, r in (('nothing', 0.25), ('delegating', 0), ('operating', 0.25), ('delegating', 1))],
          thorough=[dict(order=o, start=s, rel=r) for o in ('sequential', 'simultaneous', 'random', 'semisimultaneous')
                    for s in ('nothing', 'delegating', 'operating') for r in ('any', 0, 0.25, 1)],
          cover=('stays', 'delegates', 'operates'),
          bounds='any actual utility, expected utility of the present strategy and of each alternative in [-1, 1]; any absolute '
                 'threshold in [0, 1]; relative threshold 0, 0.25, 1 (thorough any in [0, 2]); 3 agents, one pool')
def adoption(ctx):
    """A single decision, with arbitrary results of weighing the options"""
    c = ctx.cfg
    rel = ctx.real('relative_threshold', 0, 2) if c['rel'] == 'any' else c['rel']
    absolute = ctx.real('absolute_threshold', 0, 1)
    sim = make_sim(ctx, n=3, k=2, order=c['order'], cls=weighing(ctx), stakes=[0.3, 0.4, 0.3], costs=[1e-3, 2e-3, 3e-3],
                   relative_utility_threshold=rel, absolute_utility_threshold=absolute)
    agent = sim.get_agents_dict()[0]
    add_pool(ctx, sim, 1, 0.1, 2e-3, margin=0.5, private=False, delegations=[(0, 0.3)] if c['start'] == 'delegating' else [])
    if c['start'] == 'operating':
        add_pool(ctx, sim, 0, 0.3, 1e-3, margin=0.75, private=False)
    before = agent.strategy
    had = (dict(before.owned_pools), dict(before.stake_allocations))
    sim.current_step_idle = True
    agent.step()
    staged = 'simultaneous' in c['order']
    u = agent.u
    bar = vmax(u['earns'] + absolute, (1 + rel) * u['earns'], u['expects'] + absolute, (1 + rel) * u['expects'])
    moves = lor(gt(u['delegate'], bar), gt(u['operate'], bar))
    if staged:
        ctx.check('with simultaneous moves nothing happens before the move is due',
                  agent.strategy is before and (dict(before.owned_pools), dict(before.stake_allocations)) == had)
        plan = agent.new_strategy
        agent.advance()
    else:
        plan = None if agent.strategy is before else agent.strategy
    ctx.check('a plan is carried out once', agent.new_strategy is None)
    if plan is None:
        ctx.cover('stays')
        ctx.check('worthwhile moves are made', lnot(moves))
        ctx.check('the strategy stays in force', agent.strategy is before)
        return
    ctx.check('the adopted strategy is in force', agent.strategy is plan)
    ctx.check('a move must be worth more than the thresholds', moves)
    if plan.owned_pools:
        ctx.cover('operates')
        ctx.check('operates only if that beats delegating', gt(u['operate'], u['delegate']))
    else:
        ctx.cover('delegates')
        ctx.check('delegates only if operating is not better', ge(u['delegate'], u['operate']))


@register('C12', quick=[dict(owners=o, s=s) for o in ((0,), (0, 1), (0, 0)) for s in (0, 1)],
          thorough=[dict(owners=o, s=s, a0=a) for o in ((0,), (0, 1), (0, 0), (0, 1, 2)) for s in (0, 1, 2, 4) for a in (0, 0.3, 2)
                    if s != 4 or a > 1],
          cover=('loss', 'profit'),
          bounds='3 agents, k = 3, 1-2 (thorough 3) pools with a pledge of 0.1 each, any delegations of each other agent to '
                 'each of them, any cost up to 0.5 of the first pool')
def current_utility(ctx):
    """What an agent takes its present strategy to yield is what it actually receives"""
    c = ctx.cfg
    a0 = c.get('a0', 0)
    sim = make_sim(ctx, n=3, k=3, a0=a0, scheme=c['s'], cls=chaos(ctx), stakes=[0.3, 0.3, 0.4], costs=[0.1, 0.01, 0.02])
    for j, owner in enumerate(c['owners']):
        dels = [(i, ctx.real('delegated', 1e-3, 0.1)) for i in (1, 2) if i != owner and ctx.bool('delegates')]
        add_pool(ctx, sim, owner, 0.1, ctx.real('cost', 0, 0.5) if j == 0 else 0.03, margin=0.25 * (j + 1), private=False,
                 delegations=dels)
    Plain = ctx.mods.stakeholder.Stakeholder
    got = {i: Plain.calculate_current_utility(a) for i, a in sim.get_agents_dict().items()}
    rs = sim.reward_scheme
    earns = {i: 0 for i in got}
    for p in sim.pools.values():
        left = pool_reward(ctx, rs, p.stake, p.pledge) - p.cost
        loss = ctx.test(left <= 0)
        ctx.cover('loss' if loss else 'profit')
        # a loss is borne by the operator; otherwise the margin and a share of the rest
        earns[p.owner] = earns[p.owner] + (left if loss else left * (p.margin + (1 - p.margin) * p.pledge / p.stake))
        for i in p.delegators:
            if not loss:
                earns[i] = earns[i] + left * (1 - p.margin) * p.delegators[i] / p.stake
    for i in earns:
        ctx.check('the present strategy is valued at what it earns', eq(got[i], earns[i]))
