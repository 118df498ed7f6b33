"""C13  how many pools an operator decides to run"""
from vf.props import register
from vf.props.util import *

ASSUMPTIONS = ['The utility of running t pools is an arbitrary input (for the claim about the best number: with a single peak, '
               'which is the documented assumption of the search).']


def planner(ctx, values, asked):
    """A profile for which running t pools is worth values[t], with margins that tell which t they were planned for"""
    Base = ctx.mods.stakeholder.Stakeholder

    class Planner(Base):
        def __init__(self, unique_id, model, stake, cost, strategy=None):
            super().__init__(unique_id=unique_id, model=model, stake=stake, cost=cost, strategy=strategy)
            self.rankings = model.pool_rankings

        def calculate_operator_utility_from_strategy(self, strategy):
            return 1

        def calculate_delegator_utility_from_pool(self, pool, stake_allocation):
            return 0

        def calculate_expected_utility(self, strategy):
            return 0 if strategy is self.strategy or not strategy.owned_pools else 1

        def calculate_current_utility(self):
            return 0

        def calculate_margins_and_utility(self, num_pools):
            asked.append(num_pools)
            return [num_pools / 64] * num_pools, values[num_pools]
    return Planner


@register('C13', quick=[dict(k=k, own=o) for k in (1, 2, 3, 5, 8, 12, 25) for o in (0, 2) if o <= k],
          thorough=[dict(k=k, own=o) for k in list(range(1, 25)) + [40, 60] for o in (0, 1, 2, 3) if o <= k],
          cover=('one', 'several'),
          bounds='k = 1, 2, 3, 5, 8, 12, 25 (thorough 1..24, 40, 60); any utilities with a single peak; 0 or 2 (thorough 0-3) pools owned '
                 'already')
def best_number(ctx):
    """With a single-peaked utility, the number of pools is the one that maximises it"""
    c = ctx.cfg
    k = c['k']
    values = {t: ctx.real('utility_of_%d' % t, -1, 1) for t in range(1, k + 1)}
    peak = ctx.int('peak', 1, k)
    for t in range(1, k):
        ctx.assume(iff(gt(peak, t), gt(values[t + 1], values[t])))
        ctx.assume(iff(le(peak, t), lt(values[t + 1], values[t])))
    asked = []
    sim = make_sim(ctx, n=2, k=k, order='simultaneous', cls=planner(ctx, values, asked), stakes=[0.6, 0.4], costs=[1e-3, 2e-3])
    for j in range(c['own']):
        add_pool(ctx, sim, 0, 0.6 / c['own'] / 2, 1e-3, margin=0.5, private=False)
    agent = sim.get_agents_dict()[0]
    agent.step()
    plan = agent.new_strategy
    ctx.check('the agent makes a plan to operate', plan is not None)
    n = len(plan.owned_pools)
    ctx.cover('one' if n == 1 else 'several')
    ctx.check('the number of pools is the one with the highest utility', eq(peak, n))
    for p in plan.owned_pools.values():
        ctx.check('the margins are those planned for that number of pools', eq(p.margin, n / 64))
    ctx.observe('number', n)


@register('C13', quick=[dict(k=k) for k in (1, 2, 3, 4, 6, 8)], thorough=[dict(k=k) for k in range(1, 17)],
          cover=('planned',),
          bounds='k = 1, 2, 3, 4, 6, 8 (thorough 1..16); any utilities whatsoever')
def always_an_answer(ctx):
    """Whatever the utilities, the search ends with a number of pools from 1 to k, no worse than its neighbours in reach"""
    c = ctx.cfg
    k = c['k']
    values = {t: ctx.real('utility_of_%d' % t, -1, 1) for t in range(1, k + 1)}
    asked = []
    sim = make_sim(ctx, n=2, k=k, order='simultaneous', cls=planner(ctx, values, asked), stakes=[0.6, 0.4], costs=[1e-3, 2e-3])
    agent = sim.get_agents_dict()[0]
    agent.step()
    ctx.cover('planned')
    plan = agent.new_strategy
    ctx.check('the agent makes a plan to operate', plan is not None)
    n = len(plan.owned_pools)
    ctx.check('from 1 to k pools', 1 <= n <= k)
    ctx.check('no number of pools out of range was considered', all(1 <= t <= k for t in asked))
    ctx.check('the search is short', len(asked) <= 3 * (k + 1))
    for p in plan.owned_pools.values():
        ctx.check('the margins are those planned for that number of pools', eq(p.margin, n / 64))


@register('C13', quick=[dict(own=2, keep=1), dict(own=2, keep=2), dict(own=2, keep=3), dict(own=3, keep=1), dict(own=3, keep=2)],
          thorough=[dict(own=o, keep=t) for o in (1, 2, 3, 4) for t in range(1, 6)],
          cover=('kept',),
          bounds='2-3 (thorough 4) own pools with any margins and delegations, resized to 1-3 (thorough 5) pools')
def resizing(ctx):
    """Changing the number of own pools keeps the best of them"""
    c = ctx.cfg
    own, keep = c['own'], c['keep']
    k = 6
    values = {t: -abs(t - keep) for t in range(0, k + 2)}
    sim = make_sim(ctx, n=3, k=k, cls=planner(ctx, values, []), stakes=[0.12, 0.4, 0.48], costs=[1e-3, 2e-3, 3e-3])
    mine = []
    for j in range(own):
        d = [(1, ctx.real('delegated', 1e-3, 0.1))] if j < 2 and ctx.bool('delegates') else []
        mine.append(add_pool(ctx, sim, 0, 0.12 / own, 1e-3, margin=ctx.choice('margin%d' % j, (0.25, 0.5)), private=False,
                             delegations=d))
    agent = sim.get_agents_dict()[0]
    rs = sim.reward_scheme
    rank = {p.id: (appeal(ctx, rs, p), profit_at_saturation(ctx, rs, p), p.stake, -p.id) for p in mine}
    best = []
    for p in sorted(mine, key=lambda p: rank[p.id], reverse=True)[:keep]:
        best.append(p.id)
    delegated = {p.id: dict(p.delegators) for p in mine}
    agent.step()
    now = agent.strategy.owned_pools
    ctx.check('the chosen number of pools is run', len(now) == keep)
    ctx.cover('kept')
    for i in best:
        ctx.check('the best pools are kept', i in now)
        ctx.check('pools that are kept keep their delegators', set(now[i].delegators) == set(delegated[i]))
        for d in delegated[i]:
            if d in now[i].delegators:
                ctx.check('pools that are kept keep their delegations', eq(now[i].delegators[d], delegated[i][d]))
    for p in mine:
        if p.id not in best:
            ctx.check('the other pools are closed', p.id not in sim.pools and p.id not in now)
    for p in now.values():
        ctx.check('pools that are kept or new run under the new plan',
                  land(eq(p.margin, keep / 64), eq(p.pledge, vmin(0.12 / keep, rs.global_saturation_threshold))))
