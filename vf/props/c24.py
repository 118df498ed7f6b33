"""C24  batch runs: every combination once, and the result of each run is its final state"""
from vf.props import register
from vf.props.util import *
from vf.props.c23 import metric_by_id

ASSUMPTIONS = ['Runs of a batch are executed in one process (the pool of worker processes belongs to the Python library); files are '
               'kept in memory, with the values that were to be written.']


def batch(ctx, model, parameters, **kw):
    """Runs the batch; returns its results and the rows appended to the results file"""
    files = quiet_io(ctx)
    results, path = ctx.mods.batch.custom_batch_run(model, dict(parameters), 'batch', number_processes=1, display_progress=False, **kw)
    lines = []
    for f in files.named('aggregate-results'):
        rows = f.rows()
        lines += [dict(zip(rows[0], r)) for r in rows[1:]]
    return results, lines


def model_class(ctx, runs, reporters, longest, stop_rule):
    """A model that runs for as long as the solver likes, with arbitrary values of its metrics"""
    class Collector:
        def __init__(self):
            self.model_vars = {r: [] for r in reporters}
            self._agent_records = {}
            self.agent_reporters = {}

    class Fake:
        def __init__(self, **kw):
            self.kw = kw
            self.running = True
            self.schedule = type('S', (), {'steps': 0})()
            self.datacollector = Collector()
            self.life = ctx.choice('rounds', range(1, longest + 1))
            self.final = None
            runs.append(self)

        def record(self):
            self.final = {r: ctx.real('value_of_' + r, 0, 1) for r in reporters}
            for r in reporters:
                self.datacollector.model_vars[r].append(self.final[r])

        def step(self):
            self.record()
            if self.schedule.steps >= stop_rule:
                self.running = False
                return
            self.schedule.steps += 1
            if self.schedule.steps >= self.life:
                self.running = False
    return Fake


def combinations(params):
    import itertools
    names = list(params)
    lists = [list(v) if isinstance(v, (list, tuple)) else [v] for v in params.values()]
    return [dict(zip(names, x)) for x in itertools.product(*lists)]


CFG = [dict(p=dict(n=2, k=(3,)), iterations=1), dict(p=dict(n=(1, 2), k=(3, 4), name='abc'), iterations=1),
       dict(p=dict(k=(3, 4, 5), flag=False), iterations=2), dict(p=dict(n=5), iterations=3, longest=3, max=2), dict(p=dict(n=5, k=1), iterations=1, longest=4, max=9),
       dict(p=dict(n=(2, 3)), iterations=3, longest=1, seed=0)]


@register('C24', quick=CFG, thorough=CFG + [dict(p=dict(n=(1, 2, 3), k=(3, 4), a=(0.5, 1.5)), iterations=i, longest=1) for i in (1, 2)] +
          [dict(p=dict(n=5), iterations=2, longest=l, max=m) for l in (2, 4, 6) for m in (1, 3, 9)],
          cover=('one round', 'several rounds'),
          bounds='up to 6 (thorough 24) runs: listed parameter values, 1-3 repetitions; each run takes 1-4 (6) rounds, with any values of '
                 'two metrics in each')
def combinations_and_results(ctx):
    """Which runs a batch consists of, and what is reported of each"""
    c = ctx.cfg
    runs = []
    reporters = ('first', 'second')
    limit = c.get('max', 4)
    results, lines = batch(ctx, model_class(ctx, runs, reporters, c.get('longest', 2), limit), c['p'], iterations=c['iterations'],
                           max_steps=limit, initial_seed=c.get('seed', 10))
    want = [dict(x, seed=c.get('seed', 10) + i) for x in combinations(c['p']) for i in range(c['iterations'])]
    got = [{k: r.kw.get(k) for k in want[0]} for r in runs]
    key = lambda d: sorted((k, str(v)) for k, v in d.items())
    ctx.check('every combination is run with every seed, once', sorted(map(key, got)) == sorted(map(key, want)))
    ids = [r.kw['seq_id'] for r in runs]
    ctx.check('every run has an id of its own', len(set(ids)) == len(runs))
    ctx.check('runs with different parameters go by different names',
              len({(r.kw['execution_id'], r.kw['seq_id']) for r in runs}) == len(runs))
    ctx.check('one result per run', len(results) == len(runs) and sorted(r['RunId'] for r in results) == list(range(len(runs))))
    ctx.check('one line in the results file per run', len(lines) == len(runs))
    for run in runs:
        ctx.cover('one round' if run.schedule.steps <= 1 else 'several rounds')
        ctx.check('runs are carried through to their end', not run.running)
        mine = [r for r in results if r['seq_id'] == run.kw['seq_id']]
        ctx.check('the result names the parameters of its run', len(mine) == 1 and all(mine[0].get(k) == v for k, v in run.kw.items()))
        for r in reporters:
            ctx.check('the result is the last recorded state of its run', eq(mine[0][r], run.final[r]))
        line = [x for x in lines if x.get('seq_id') == run.kw['seq_id']]
        ctx.check('the line in the results file belongs to its run', len(line) == 1)
        for r in reporters:
            ctx.check('the line in the results file is the last recorded state of its run', eq(line[0][r], run.final[r]))
        for k, v in c['p'].items():
            if isinstance(v, tuple):
                ctx.check('the line in the results file names the variable parameters', line[0].get(k) == run.kw[k])


@register('C24', quick=[dict(period=p, longest=5) for p in (1, 2, 3, 7)], thorough=[dict(period=p, longest=9) for p in range(1, 11)],
          bounds='runs of 1-5 (thorough 9) rounds, a result every 1, 2, 3, 7 (1..10) rounds')
def intermediate_results(ctx):
    """With a collection period, the result has the state of every such round and the final one"""
    c = ctx.cfg
    runs = []
    results, lines = batch(ctx, model_class(ctx, runs, ('first',), c['longest'], 99), dict(n=3), max_steps=99,
                           data_collection_period=c['period'])
    recorded = runs[0].datacollector.model_vars['first']
    last = len(recorded) - 1
    steps = sorted(set(range(0, last + 1, c['period'])) | {last})
    ctx.check('the rounds reported', [r['Step'] for r in results] == steps)
    for r in results:
        ctx.check('the values reported are those of the round', eq(r['first'], recorded[r['Step']]))
    ctx.check('one line in the results file per run', len(lines) == 1)
    ctx.check('it has the final state', eq(lines[0]['first'], recorded[-1]))


@register('C24', quick=[dict(idle=1, limit=2), dict(idle=9, limit=2), dict(idle=2, limit=3)],
          thorough=[dict(idle=i, limit=l) for i in (1, 2, 9) for l in (1, 2, 3, 4)],
          cover=('converged', 'not converged', 'pools'),
          bounds='two runs of the real simulation with 2 agents, up to 3 (thorough 4) rounds; agents open pools or stay put at will')
def real_simulation(ctx):
    """The real simulation in a batch: results are the metrics of the final state"""
    c = ctx.cfg
    names = ctx.mods.model_reporters.REPORTER_IDS
    ids = [1, 2, 28, 30]
    Base = ctx.mods.stakeholder.Stakeholder
    Strategy, Pool = ctx.mods.strategy.Strategy, ctx.mods.pool.Pool
    sims = []

    class Player(Base):
        def update_strategy(self):
            self.new_strategy = None
            if self.unique_id in self.model.movers and ctx.bool('opens'):
                i = self.model.get_next_pool_id()
                owned = dict(self.strategy.owned_pools)
                owned[i] = Pool(pool_id=i, cost=1e-3, pledge=self.stake / 8, owner=self.unique_id, reward_scheme=self.model.reward_scheme,
                                margin=0.5)
                self.new_strategy = Strategy(owned_pools=owned)

    class Sim(ctx.mods.sim.Simulation):
        def __init__(self, **kw):
            super().__init__(**kw)
            self.movers = (0,)
            for a in list(self.get_agents_list()):
                self.schedule.remove(a)
                self.schedule.add(Player(unique_id=a.unique_id, model=self, stake=a.stake, cost=a.cost))
            sims.append(self)
    results, lines = batch(ctx, Sim, dict(n=2, k=(1, 3), a0=0, stake_distr_source='flat', agent_activation_order='sequential', generate_graphs=False,
                                          iterations_after_convergence=c['idle'], max_iterations=c['limit'], metrics=((1, 2, 28, 30),)),
                           max_steps=c['limit'], initial_seed=4)
    ctx.check('both runs took place', sorted(s.reward_scheme.k for s in sims) == [1, 3] and len(results) == 2)
    for s in sims:
        ctx.cover('converged' if s.has_converged() else 'not converged')
        if s.pools:
            ctx.cover('pools')
        ctx.check('the run is over', not s.running)
        r = [x for x in results if x['k'] == s.reward_scheme.k][0]
        line = [x for x in lines if x['k'] == s.reward_scheme.k][0]
        for i in ids:
            now = metric_by_id(ctx, s, i)
            ctx.check('results are the metrics of the final state', land(eq(r[names[i]], now), eq(line[names[i]], now)))
