"""C23  what is written at the end of a run, and recorded in each round, is the state of the system"""
from vf.props import register
from vf.props.util import *
from vf.props.c20 import metric, middle, some_pools

ASSUMPTIONS = ['Files are kept in memory, with the values that were to be written; the csv and json libraries are not '
               'the subject. Numbers are compared up to a relative error of 1e-9 (they are rounded to 15 decimals).']


def table(files, what):
    got = files.named(what)
    assert len(got) == 1, 'one file of ' + what
    rows = got[0].rows()
    return [dict(zip(rows[0], r)) for r in rows[1:]]


CFG = [dict(pools=()), dict(pools=(0,)), dict(pools=(0, 2)), dict(pools=(1, 1)), dict(pools=(1,), s=1, a0=0.5), dict(pools=(1, 0), s=2, a0=1),
       dict(pools=(2, 2), s=4, a0=3, abst=1), dict(pools=(), conv=1), dict(pools=(1,), conv=1), dict(pools=(1,), conv='only the first phase')]


@register('C23', quick=CFG, thorough=CFG + [dict(pools=p, s=s, a0=a, abst=b) for p in ((), (0, 0), (0, 1), (2, 1, 0), (0, 0, 0)) for s, a in
                                          ((0, 0), (0, 0.3), (1, 1), (2, 1), (3, 0), (4, 3)) for b in (0, 1) if not b or s == 0],
          cover=('pools', 'no pools'),
          bounds='3 agents (one possibly abstaining) with any stakes and costs (with a0 > 0: any cost of one agent); up to 2 (thorough 3) pools with any pledges, margins '
                 'and delegated stakes')
def final_state(ctx):
    """The files written at the end describe every pool and every agent as they are"""
    c = ctx.cfg
    prof = ctx.mods.stakeholder_profiles
    if c.get('a0'):
        stakes, costs = [0.2, 0.5, 0.3], [0.3, ctx.real('agent_cost', 1e-3, 0.5), 0.6]
    else:
        stakes, costs = sym_stakes(ctx, 3, lo=0.01), [ctx.real('agent_cost', 1e-3, 0.5) for _ in range(3)]
    s, a0 = c.get('s', 0), c.get('a0', 0)
    stay = decided(ctx, 'stay') if not c.get('conv') else type('Content', (ctx.mods.stakeholder.Stakeholder,), {
        'update_strategy': lambda self: setattr(self, 'new_strategy', None)})
    abst = 0 if c.get('abst') else None
    cls = [prof.Abstainer if i == abst else stay for i in range(3)]
    k = 4 if c.get('conv') == 'only the first phase' else 3
    sim = make_sim(ctx, n=3, k=3 if k == 3 else [3, k], scheme=s, a0=a0, cls=cls, stakes=stakes, costs=costs, max_iterations=3 if c.get('conv') else 0, extra_pool_cost_fraction=0.4, iterations_after_convergence=2,
                   execution_id='my-run')
    pools = some_pools(ctx, sim, c['pools'])
    if k != 3:
        for rankings in (sim.pool_rankings, sim.pool_rankings_myopic):      # the change of phase looks at them
            rankings.update(pools)
    agents = sim.get_agents_dict()
    for p in pools:
        for i, amount in p.delegators.items():
            if agents[i].strategy is not None:      # operators may delegate, too
                agents[i].strategy.stake_allocations[p.id] = amount
    files = shelf(ctx)
    sim.run_model()
    ctx.cover('pools' if pools else 'no pools')
    ctx.check('the run is over', not sim.running)
    rs = sim.reward_scheme
    rows = table(files, 'final-state-pools')
    ctx.check('one row per pool', [r['Pool id'] for r in rows] == [p.id for p in pools])
    for r, p in zip(rows, pools):
        ctx.check('a pool is written with its owner', r['Owner id'] == p.owner)
        ctx.check('a pool is written with its pledge, stake, cost and margin',
                  land(eq(r['Pool Pledge'], p.pledge), eq(r['Pool stake'], p.stake), eq(r['Pool cost'], p.cost), eq(r['Pool margin'], p.margin)))
        ctx.check('a pool is written with stake and cost of its owner', land(eq(r['Owner stake'], stakes[p.owner]), eq(r['Owner cost'], costs[p.owner])))
        pp = profit_at_saturation(ctx, rs, p)
        ctx.check('a pool is written with its potential profit and desirability',
                  land(eq(r['Pool PP'], pp), eq(r['Pool desirability'], vmax((1 - p.margin) * pp, 0))))
    rows = table(files, 'final-state-stakeholders')
    ctx.check('one row per agent', [r['Agent id'] for r in rows] == [0, 1, 2])
    for i, r in enumerate(rows):
        own = [p for p in pools if p.owner == i]
        ctx.check('an agent is written with its stake and cost', land(eq(r['Initial stake'], stakes[i]), eq(r['Cost'], costs[i])))
        thr = rs.get_pool_saturation_threshold(stakes[i])
        ctx.check('an agent is written with its potential profit', eq(r['Potential Profit'], pool_reward(ctx, rs, thr, stakes[i]) - costs[i]))
        ctx.check('an agent is written with its role', r['Status'] == ('Abstainer' if i == abst else 'Operator' if own else 'Delegator'))
        ctx.check('an agent is written with its pools', r['Pools owned'] == len(own))
        ctx.check('an agent is written with the stake of its pools', eq(r['Total pool stake'], vsum(p.stake for p in own)))
        split = (1 + a0) * (1 - 0.4) * costs[i] - stakes[i] * a0
        ctx.check('an agent is written with what splitting its pool would gain', eq(r['Pool splitting profit'], split))
        ctx.assume(lor(gt(split, 1e-9), lt(split, -1e-9)))
        ctx.check('splitting is profitable iff that is positive', r['Profitable pool splitter'] == ('YES' if ctx.test(split > 0) else 'NO'))
    d = [data for f, data in files.documents() if 'final' in f.name][0]
    ctx.check('the summary gives the numbers of pools and operators', d['Pool count'] == len(pools) and d['Operator count'] == len(set(c['pools'])))
    ctx.check('the summary gives the total pledge, rounded to 4 decimals',
              le(vabs(d['Total pledge fraction'] - vsum(p.pledge for p in pools)), 5.0001e-5))
    ctx.check('the summary gives the Nakamoto coefficient', eq(d['Nakamoto coefficient'], metric(ctx, sim, 'Nakamoto coefficient')))
    ctx.check('an equilibrium is reported exactly if the run converged', d['Equilibrium reached'] == ('Yes' if c.get('conv') == 1 else 'No'))
    t = table(files, 'experiment-tracker')[0]
    ctx.check('the experiment is tracked with its parameters', t['n'] == 3 and t['k'] == k and t['a0'] == a0 and t['phi'] == 0.4 and
              t['activation order'] == 'sequential' and t['id'] == sim.seq_id and t['descriptor'] == 'my-run')
    ctx.check('the experiment is tracked with its result', t['#pools'] == len(pools) and t['#operators'] == len(set(c['pools'])))


IDS = [1, 2, 5, 6, 19, 26, 28, 29, 30, 14]


@register('C23', quick=[dict(order='sequential', rounds=2), dict(order='simultaneous', rounds=1), dict(order='semisimultaneous', rounds=2, converge=1)],
          thorough=[dict(order=o, rounds=r, converge=c) for o in ('sequential', 'simultaneous', 'semisimultaneous', 'random') for r in (1, 2, 3)
                    for c in (0, 1)],
          cover=('something happened',),
          bounds='2 agents, 1-2 (thorough 3) rounds in which each agent opens a pool, delegates or stays put; 10 of the metrics')
def rounds(ctx):
    """Each round is recorded with the metrics of the state it started from, and the last with the final state"""
    c = ctx.cfg
    names = ctx.mods.model_reporters.REPORTER_IDS
    Base = ctx.mods.stakeholder.Stakeholder
    Strategy, Pool = ctx.mods.strategy.Strategy, ctx.mods.pool.Pool

    class Player(Base):
        def update_strategy(self):
            what = ctx.choice('move', ('stay', 'open', 'delegate'))
            sim = self.model
            self.new_strategy = None
            others = [p for p in sim.pools.values() if p.owner != self.unique_id]
            if what == 'open' and not self.strategy.owned_pools:
                i = sim.get_next_pool_id()
                pool = Pool(pool_id=i, cost=1e-3, pledge=self.stake / 4, owner=self.unique_id, reward_scheme=sim.reward_scheme, margin=0.5)
                self.new_strategy = Strategy(owned_pools={i: pool})
            elif what == 'delegate' and others and not self.strategy.owned_pools:
                self.new_strategy = Strategy(stake_allocations={others[0].id: self.stake / 2})
    sim = make_sim(ctx, n=2, k=2, order=c['order'], cls=Player, stakes=sym_stakes(ctx, 2, lo=0.1), costs=[1e-3, 2e-3], metrics=IDS,
                   max_iterations=c['rounds'], iterations_after_convergence=1 if c.get('converge') else 99)
    sim.random = type('First', (), {'sample': lambda self, x, k: list(x)[:k], 'shuffle': lambda self, x: None})()
    sim.start_time = 0
    want = []
    while sim.running and len(want) < c['rounds'] + 3:
        want.append([metric_by_id(ctx, sim, i) for i in IDS])
        sim.step()
    want.append([metric_by_id(ctx, sim, i) for i in IDS])
    if sim.pools:
        ctx.cover('something happened')
    got = sim.datacollector.model_vars
    ctx.check('the metrics asked for are recorded, under their names', list(got) == [names[i] for i in IDS])
    n = len(got[names[1]])
    ctx.check('the run ends', not sim.running)
    ctx.check('one record per round', len(want) - 1 == n)
    for j, i in enumerate(IDS):
        for r in range(n):
            a, b = got[names[i]][r], want[r][j]
            f = land(*[eq(x, y) for x, y in zip(a, b)]) if isinstance(b, list) else eq(a, b)
            ctx.check('a record has the values of its round', f)
        a, b = got[names[i]][-1], want[-1][j]
        if names[i] != 'Iterations':
            f = land(*[eq(x, y) for x, y in zip(a, b)]) if isinstance(b, list) else eq(a, b)
            ctx.check('the last record describes the final state', f)


def metric_by_id(ctx, sim, i):
    r = ctx.mods.model_reporters
    return r.ALL_MODEL_REPORTEERS[r.REPORTER_IDS[i]](sim)


@register('C23', quick=[dict(n=1), dict(n=2), dict(n=3), dict(n=2, s=4, a0=3, seed=None), dict(n=3, inactive=0.25)],
          thorough=[dict(n=n, s=s, a0=a, inactive=i, seed=x) for n in (1, 2, 3, 4) for s, a in ((0, 0), (1, 0), (2, 1), (4, 3)) for i in (0, 0.5) for x in (5, None)
                    if n < 4 or (not a and not i)],
          cover=('written',),
          bounds='1-3 (thorough 4) agents with any stakes and costs')
def initial_state(ctx):
    """The description of the initial state is that of the agents' stakes, costs and the seed"""
    c = ctx.cfg
    n = c['n']
    hlp = ctx.mods.helper
    stakes = sym_stakes(ctx, n, lo=0.01)
    costs = [ctx.real('cost', 0.01, 1) for _ in range(n)]
    files = quiet_io(ctx)
    ctx.patch(hlp, 'generate_stake_distr_flat', lambda *a, **k: list(stakes))
    used = []
    ctx.patch(hlp, 'generate_cost_distr_unfrm', lambda *a, **k: used.append(k.get('seed')) or list(costs))
    seed = c.get('seed', 5)
    sim = ctx.mods.sim.Simulation(n=n, k=2, a0=c.get('a0', 0), reward_scheme=c.get('s', 0), stake_distr_source='flat', seed=seed,
                                  inactive_stake_fraction=c.get('inactive', 0), agent_activation_order='sequential', generate_graphs=False)
    ctx.cover('written')
    got = [data for f, data in files.documents() if f.path.endswith('initial-state-descriptors.json')]
    ctx.check('the initial state is described once', len(got) == 1)
    d = got[0]
    agents = sim.get_agents_list()
    have = [a.stake for a in agents]
    total = vsum(have)
    ctx.check('the seed is that of the run', d['Randomness seed'] == seed if seed is not None else d['Randomness seed'] is not None and used in ([None], [d['Randomness seed']]))
    ctx.check('active stake: what the agents own', land(eq(d['Active stake'], total), eq(total, 1 - c.get('inactive', 0))))
    ctx.check('greatest and least stake', land(eq(d['Max stake'], vmax(*have)), eq(d['Min stake'], vmin(*have))))
    ctx.check('mean stake', eq(d['Mean stake'] * n, total))
    ctx.check('median stake', eq(d['Median stake'], middle(have)))
    spread = d['Standard deviation of stake']
    ctx.check('standard deviation of stake', land(ge(spread, 0), eq(spread * spread * n, vsum((x - total / n) * (x - total / n) for x in have), 1e-8)))
    nc = d['Nakamoto coefficient prior']
    import itertools
    for m in range(1, n + 1):
        for group in itertools.combinations(have, m):
            held = vsum(group)
            ctx.assume(gt(vabs(2 * held - total), 1e-6))
            ctx.check('as many agents as the Nakamoto coefficient says have a majority, fewer do not', implies(gt(2 * held, total), le(nc, m)))
    ctx.check('as many agents as the Nakamoto coefficient says have a majority',
              lor(*[land(eq(nc, len(g)), gt(2 * vsum(g), total)) for m in range(1, n + 1) for g in itertools.combinations(have, m)]))
    rs = sim.reward_scheme
    able = []
    for a in agents:
        pp = pool_reward(ctx, rs, rs.get_pool_saturation_threshold(a.stake), a.stake) - a.cost
        ctx.assume(gt(vabs(pp), 1e-7))
        able.append(gt(pp, 0))
    ctx.check('cost efficient agents: those who could run a pool at a profit', eq(d['Cost efficient agents'], count(able)))
