"""Shared pieces of the harnesses."""
from vf.harness import *
from vf.props.shelf import shelf

SCHEMES = (0, 1, 2, 3, 4)     # Cardano, simplified, flat pledge benefit, CIP-7, CIP-50


def make_scheme(ctx, scheme, k, a0):
    """The way Simulation builds it: mapping entry instantiated with placeholders, then parameters assigned."""
    rss = ctx.mods.reward_schemes
    obj = rss.RSS_MAPPING[scheme](-1, -1)
    obj.k = k
    obj.a0 = a0
    return obj


def quiet_io(ctx):
    """File output is not the subject: it stays in memory."""
    return shelf(ctx)


class SymRandom:
    """Stands in for random.Random: every outcome the documentation allows is a choice of the solver."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.log = []

    def shuffle(self, x):
        rest = list(x)
        out = []
        while rest:
            out.append(rest.pop(self.ctx.pick('shuffle', len(rest))))
        x[:] = out
        self.log.append(list(out))

    def sample(self, population, k, **kw):
        rest = list(population)
        out = []
        for _ in range(k):
            out.append(rest.pop(self.ctx.pick('sample', len(rest))))
        self.log.append(list(out))
        return out

    def choices(self, population, weights=None, *, cum_weights=None, k=1):
        population = list(population)
        ok = [p for i, p in enumerate(population) if weights is None or weights[i] > 0]
        return [ok[self.ctx.pick('choices', len(ok))] for _ in range(k)]

    def choice(self, seq):
        return seq[self.ctx.pick('choice', len(seq))]

    def random(self):
        return self.ctx.real('random', 0, 1, hi_open=True)

    def randint(self, a, b):
        return self.ctx.int('randint', a, b)

    def seed(self, *a, **k):
        pass


def make_sim(ctx, n=3, k=2, a0=0, scheme=0, order='sequential', cls=None, stakes=None, costs=None, **kw):
    """A Simulation built by its real constructor, whose agents' class / stakes / costs are then replaced."""
    quiet_io(ctx)
    args = dict(n=n, k=k, a0=a0, reward_scheme=scheme, agent_activation_order=order, stake_distr_source='flat', seed=1,
                generate_graphs=False)
    args.update(kw)
    sim = ctx.mods.sim.Simulation(**args)
    agents = sim.get_agents_list()
    for i, old in enumerate(agents):
        stake = old.stake if stakes is None else stakes[i]
        cost = old.cost if costs is None else costs[i]
        if cls is not None:
            c = cls[i] if isinstance(cls, (list, tuple)) else cls
            sim.schedule.remove(old)
            sim.schedule.add(c(unique_id=old.unique_id, model=sim, stake=stake, cost=cost))
        else:
            old.stake, old.cost = stake, cost
    return sim


def sym_stakes(ctx, n, total=1, lo=0):
    """n stakes summing to `total` (the last one is the remainder)."""
    out, left = [], total
    for i in range(n - 1):
        s = ctx.real('stake%d' % i, lo, 1)
        ctx.assume(s <= left)
        left = left - s
        out.append(s)
    ctx.assume(left >= lo)
    out.append(left)
    return out


def chaos(ctx, margins=(0, 0.5), rankings='pool_rankings'):
    """A stakeholder profile whose judgement is arbitrary: every utility and margin it reports is a free input."""
    Base = ctx.mods.stakeholder.Stakeholder

    class Chaos(Base):
        def __init__(self, unique_id, model, stake, cost, strategy=None):
            super().__init__(unique_id=unique_id, model=model, stake=stake, cost=cost, strategy=strategy)
            self.rankings = getattr(model, rankings)

        def calculate_current_utility(self):
            super().calculate_current_utility()      # executed for its errors; its value is arbitrary here
            return ctx.real('u_now%s' % self.unique_id, -1, 1)

        def calculate_operator_utility_from_strategy(self, strategy):
            return ctx.real('u_op%s' % self.unique_id, -1, 1)

        def calculate_delegator_utility_from_pool(self, pool, stake_allocation):
            return ctx.real('u_del%s' % self.unique_id, -1, 1)

        def calculate_margins_and_utility(self, num_pools):
            ms = [ctx.choice('margin%s' % self.unique_id, margins) for _ in range(num_pools)]
            return ms, ctx.real('u_t%s' % self.unique_id, -1, 1)
    return Chaos


def decided(ctx, move, pools=1, margin=0.25, profile=None):
    """A stakeholder profile that has made up its mind: move is 'delegate', 'operate' (that many pools) or 'stay'.  With
    a profile it looks at the pools the way that profile does."""
    Base = getattr(ctx.mods.stakeholder_profiles, profile) if profile else ctx.mods.stakeholder.Stakeholder

    class Decided(Base):
        def __init__(self, unique_id, model, stake, cost, strategy=None):
            super().__init__(unique_id=unique_id, model=model, stake=stake, cost=cost, strategy=strategy)
            if not profile:
                self.rankings = model.pool_rankings

        def calculate_current_utility(self):
            super().calculate_current_utility()
            return 0

        def calculate_operator_utility_from_strategy(self, strategy):
            return 1

        def calculate_delegator_utility_from_pool(self, pool, stake_allocation):
            return 1

        def calculate_expected_utility(self, strategy):
            super().calculate_expected_utility(strategy)
            if strategy is self.strategy or move == 'stay':
                return 0
            return (2 if move == 'operate' else 0.5) if strategy.owned_pools else 1

        def calculate_margins_and_utility(self, num_pools):
            return [margin] * num_pools, -abs(num_pools - pools)
    return Decided


def real_sim(ctx, c):
    """A simulation of agents with the real profiles (c['prof']: 'non', 'my' or 'mixed') of whom one has an arbitrary cost"""
    prof = ctx.mods.stakeholder_profiles
    n = c.get('n', 2)
    cost = ctx.real('cost', c.get('least', 0.001), c.get('most', 2))
    cls = {'non': [prof.NonMyopicStakeholder] * n, 'my': [prof.MyopicStakeholder] * n,
           'mixed': [prof.NonMyopicStakeholder, prof.MyopicStakeholder, prof.NonMyopicStakeholder][:n]}[c['prof']]
    sim = make_sim(ctx, n=n, k=c['k'], order=c['order'], cls=cls, a0=c.get('a0', 0), scheme=c.get('s', 0),
                   stakes=[0.375, 0.625] if n == 2 else [0.25, 0.25, 0.5], costs=[cost, 0.125, 0.0625][:n],
                   max_iterations=c['limit'], iterations_after_convergence=c.get('idle', 1))
    sim.random = SymRandom(ctx)
    return sim


def add_pool(ctx, sim, owner, pledge, cost, margin=0, stake=None, private=None, delegations=()):
    """Registers a pool the way opening it does."""
    agents = sim.get_agents_dict()
    rs = sim.reward_scheme
    if private is None:
        private = ctx.test(pledge >= rs.get_pool_saturation_threshold(pledge))
    pool = ctx.mods.pool.Pool(pool_id=sim.get_next_pool_id(), cost=cost, pledge=pledge, owner=owner, reward_scheme=rs,
                              margin=margin, is_private=private)
    for agent_id, amount in delegations:
        pool.update_delegation(new_delegation=amount, delegator_id=agent_id)
        agents[agent_id].strategy.stake_allocations[pool.id] = amount
    agents[owner].strategy.owned_pools[pool.id] = pool
    sim.pools[pool.id] = pool
    sim.pool_rankings.add(pool)
    sim.pool_rankings_myopic.add(pool)
    return pool


def arbitrary_state(ctx, sim, max_pools, margins=(0, 0.5), costs=None, min_pools=0, no_private=False, abstainers=()):
    """Any state in which pools, delegations and stakes are consistent:  up to max_pools pools of any owners, any of
    the other agents delegating any amount to any public pool, nobody committing more than their stake."""
    agents = sim.get_agents_dict()
    ids = [i for i in agents if i not in abstainers]
    npools = ctx.choice('npools', range(min_pools, max_pools + 1))
    left = {i: agents[i].stake for i in ids}
    owners = []
    for j in range(npools):
        # owners in non-decreasing order do not lose generality for the counts, but ids carry age, so all are tried
        owners.append(ctx.choice('owner%d' % j, ids))
    pledge = {}
    for j, o in enumerate(owners):
        if o not in pledge:
            # all pools of one operator carry the same pledge
            m = owners.count(o)
            p = ctx.real('pledge%d' % j, 1e-4, 1)
            ctx.assume(p * m <= left[o])
            ctx.assume(p <= sim.reward_scheme.global_saturation_threshold)
            pledge[o] = p
            left[o] = left[o] - p * m
    pools = []
    for j, o in enumerate(owners):
        p = pledge[o]
        private = ctx.test(p >= sim.reward_scheme.get_pool_saturation_threshold(p))
        if no_private and private:
            ctx.assume(False)
        dels = []
        if not private:
            for i in ids:
                if i != o and ctx.bool('delegates_%s_%d' % (i, j)):
                    a = ctx.real('deleg_%s_%d' % (i, j), 1e-6, 1)
                    ctx.assume(a <= left[i])
                    left[i] = left[i] - a
                    dels.append((i, a))
        cost = agents[o].cost if costs is None else costs[j]
        pools.append(add_pool(ctx, sim, o, p, cost, ctx.choice('pm%d' % j, margins), private=private, delegations=dels))
    return pools


# ---------------------------------------------------------------------------------------------- the invariant
def check_consistent(ctx, sim, tag=''):
    agents = sim.get_agents_dict()
    pools = sim.pools
    for pid, p in pools.items():
        ctx.check(tag + 'pools are filed under their own id', p.id == pid)
        ctx.check(tag + 'every pool has an existing owner', p.owner in agents)
        ctx.check(tag + 'pool stake = pledge + delegated amounts', eq(p.stake, p.pledge + vsum(p.delegators.values())))
        for d, amount in p.delegators.items():
            ctx.check(tag + 'delegations are positive', gt(amount, 0))
            ctx.check(tag + 'an operator does not delegate to the own pool', d != p.owner)
            st = agents[d].strategy
            rec = None if st is None else st.stake_allocations.get(pid)
            ctx.check(tag + 'recorded delegators have a matching allocation',
                      rec is not None and eq(rec, amount) if rec is None else eq(rec, amount))
        if p.is_private:
            ctx.check(tag + 'private pools have no delegators', len(p.delegators) == 0)
        else:
            ctx.check(tag + 'a public pool is not saturated by its pledge',
                      lt(p.pledge, sim.reward_scheme.get_pool_saturation_threshold(p.pledge)))
        if p.owner in agents and agents[p.owner].strategy is not None:
            ctx.check(tag + 'the owner knows every pool of theirs',
                      agents[p.owner].strategy.owned_pools.get(pid) is p)
    for i, ag in agents.items():
        st = ag.strategy
        if st is None:
            continue
        used = 0
        for pid, p in st.owned_pools.items():
            ctx.check(tag + 'owned pools are live', pid in pools and pools[pid] is p)
            ctx.check(tag + 'owned pools belong to the owner', p.owner == i)
            used = used + p.pledge
        for pid, a in st.stake_allocations.items():
            ctx.check(tag + 'no allocation to a closed pool', pid in pools)
            if pid in pools:
                d = pools[pid].delegators.get(i)
                ctx.check(tag + 'allocations are recorded by the pool', False if d is None else eq(d, a))
            used = used + a
        ctx.check(tag + 'nobody commits more than their stake', le(used, ag.stake))


def check_rankings(ctx, sim, tag='', ordered=True):
    live = list(sim.pools.values())
    rs = sim.reward_scheme
    for name in ('pool_rankings', 'pool_rankings_myopic'):
        ranking = list(getattr(sim, name))
        listed = [p for p in ranking if p is not None]
        ctx.check(tag + 'every live pool is ranked exactly once, and no other',
                  len(listed) == len(live) and all(any(p is q for q in live) for p in listed))
        ctx.check(tag + 'rankings have room for k + 1 pools', len(ranking) >= rs.k + 1)
        if not ordered:
            continue
        for p, q in zip(listed, listed[1:]):
            if name == 'pool_rankings':
                dp, dq = appeal(ctx, rs, p), appeal(ctx, rs, q)
                pp, pq = profit_at_saturation(ctx, rs, p), profit_at_saturation(ctx, rs, q)
                ctx.check(tag + 'ranked by desirability, then potential profit, then age',
                          lor(gt(dp, dq), land(eq(dp, dq), lor(gt(pp, pq), land(eq(pp, pq), same(p.id < q.id, True))))))
            else:
                dp, dq = myopic_appeal(ctx, rs, p), myopic_appeal(ctx, rs, q)
                ctx.check(tag + 'ranked by current desirability, then age',
                          lor(gt(dp, dq), land(eq(dp, dq), same(p.id < q.id, True))))


def pool_reward(ctx, rs, stake, pledge):
    return ctx.mods.helper.calculate_pool_reward(reward_scheme=rs, pool_stake=stake, pool_pledge=pledge)


def profit_at_saturation(ctx, rs, p):
    return pool_reward(ctx, rs, rs.get_pool_saturation_threshold(p.pledge), p.pledge) - p.cost


def appeal(ctx, rs, p):
    return vmax((1 - p.margin) * profit_at_saturation(ctx, rs, p), 0)


def myopic_appeal(ctx, rs, p):
    return vmax((1 - p.margin) * (pool_reward(ctx, rs, p.stake, p.pledge) - p.cost), 0)
