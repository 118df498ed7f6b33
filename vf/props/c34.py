"""C34  what a run leaves on disk is what it recorded, and the saved simulation is the one that was saved"""
import csv
import json
import pathlib
import pickle
import re

from vf.props import register
from vf.props.util import *
from vf.props.c20 import metric, some_pools
from vf.props.c23 import metric_by_id
from vf.props.c27 import Desk, Paper

ASSUMPTIONS = ['Files are written and read by the csv, json, pickle and pandas libraries as they are installed; within them, each symbolic number is represented by a '
               'decimal number that stands for nothing else (formatting it with fewer digits is seen as a change of its value).',
               'The saved object is loaded by the version of the code that saved it.']
PLACES = 0.123456789012345          # no number that is compared is short enough to survive rounding


class Archive(Paper):
    """Files of every kind that hold symbolic numbers"""

    def __init__(self, ctx):
        super().__init__(ctx)
        if ctx.native:
            return
        from vf.sym import Sym, SymB
        for cls in (Sym, SymB):
            ctx.patch(cls, '__reduce__', lambda v: (of_mark, (self.keep(v),)))
        for name in ('__str__', '__repr__'):
            ctx.patch(Sym, name, lambda v: repr(self.mark(v)))
        ctx.patch(Sym, '__format__', lambda v, spec: format(self.mark(v), spec))
        KEPT.clear()
        import pandas
        to_csv = pandas.DataFrame.to_csv
        ctx.patch(pandas.DataFrame, 'to_csv', lambda df, *a, **k: to_csv(self.frame(df), *a, **k))

    def keep(self, v):
        KEPT.append(v)
        return len(KEPT) - 1

    def frame(self, df):
        """Columns of numbers are columns of numbers"""
        from vf.sym import Sym
        out = df.copy()
        for name in out.columns:
            if any(isinstance(v, Sym) for v in out[name]) and not any(isinstance(v, (list, dict)) for v in out[name]):
                out[name] = [self.mark(v) if isinstance(v, Sym) else v for v in out[name]]
        return out

    def mark(self, v):
        if v.c is not None:
            return int(v.c) if v.i else float(v.c)
        for mark, known in self.marks:
            if known is v or known.e.eq(v.e):
                return mark
        mark = 1000 + 7 * len(self.marks) + (0 if v.e.is_int() else PLACES)
        self.marks.append((mark, v))
        return mark

    def write(self, v):
        from vf.sym import Sym
        if isinstance(v, Sym):
            return self.mark(v)
        return super().write(v)

    def number(self, text):
        """What a number in a file stands for"""
        x = float(text)
        for mark, known in self.marks:
            if abs(mark - x) < 1:
                return known if mark == x else known + (x - mark)
        return x

    def numbers(self, text):
        """All numbers in a text"""
        return [self.number(t) for t in re.findall(r'(?<![\w.])[-+]?\d+\.?\d*(?:e[-+]?\d+)?', text.replace('float64', ''))]


KEPT = []


def of_mark(i):
    return KEPT[i]


def rows(path):
    with open(path, newline='') as f:
        return [r for r in csv.reader(f)]


def only(pattern):
    found = sorted(pathlib.Path('output').glob(pattern))
    assert len(found) == 1, found
    return found[0]


def new_sim(ctx, cls, stakes, costs, **kw):
    sim = ctx.mods.sim.Simulation(**dict(dict(n=len(stakes), k=2, a0=0, stake_distr_source='flat', agent_activation_order='sequential', seed=1,
                                              generate_graphs=False, execution_id='mine', max_iterations=5, iterations_after_convergence=99), **kw))
    for i, old in enumerate(list(sim.get_agents_list())):
        sim.schedule.remove(old)
        sim.schedule.add((cls[i] if isinstance(cls, (list, tuple)) else cls)(unique_id=old.unique_id, model=sim, stake=stakes[i], cost=costs[i]))
    return sim


def check_metrics_file(ctx, archive, names, want):
    table = rows(only('1-mine/metrics.csv'))
    ctx.check('the file of metrics names the metrics asked for', table[0] == ['Round'] + names)
    ctx.check('the file of metrics has a line for every round', [r[0] for r in table[1:]] == [str(i) for i in range(len(want[names[0]]))])
    for j, name in enumerate(names):
        for i, value in enumerate(want[name]):
            cell = table[1 + i][1 + j]
            if isinstance(value, dict):
                # by id: the ids are there, too
                got = archive.numbers(cell)
                value = [x for item in value.items() for x in item]
            else:
                got = archive.numbers(cell)
                value = value if isinstance(value, list) else [value]
            ctx.check('the file of metrics has the recorded values', land(len(got) == len(value), *[eq(a, b) for a, b in zip(got, value)]))


def check_loaded(ctx, sim, old):
    """`old`, loaded from the file, is `sim`"""
    ctx.check('the saved simulation has its parameters', land(
        type(old.reward_scheme) is type(sim.reward_scheme), eq(old.reward_scheme.k, sim.reward_scheme.k), eq(old.reward_scheme.a0, sim.reward_scheme.a0),
        eq(old.reward_scheme.global_saturation_threshold, sim.reward_scheme.global_saturation_threshold),
        *[eq(getattr(old, x), getattr(sim, x)) for x in ('n', 'max_iterations', 'iterations_after_convergence', 'extra_pool_cost_fraction', 'relative_utility_threshold',
                                                         'absolute_utility_threshold', 'total_stake')]))
    ctx.check('the saved simulation is at the same point', old.schedule.steps == sim.schedule.steps and old.current_phase == sim.current_phase and
              old.running == sim.running and old.equilibrium_steps == sim.equilibrium_steps and old.pivot_steps == sim.pivot_steps and
              old.has_converged() == sim.has_converged() and old.seq_id == sim.seq_id and old.execution_id == sim.execution_id)
    ctx.check('the saved simulation has its pools', list(old.pools) == list(sim.pools))
    for i, p in sim.pools.items():
        q = old.pools[i]
        ctx.check('a saved pool is as it was', land(q.id == p.id, q.owner == p.owner, eq(q.pledge, p.pledge), eq(q.stake, p.stake), eq(q.cost, p.cost), eq(q.margin, p.margin),
                                                    eq(q.desirability, p.desirability), eq(q.potential_profit, p.potential_profit), q.is_private == p.is_private))
        ctx.check('a saved pool has its delegators', land(list(q.delegators) == list(p.delegators), *[eq(q.delegators[d], p.delegators[d]) for d in p.delegators]))
    agents, others = sim.get_agents_dict(), old.get_agents_dict()
    ctx.check('the saved simulation has its agents', list(agents) == list(others))
    for i, a in agents.items():
        b = others[i]
        ctx.check('a saved agent is as it was', land(type(b) is type(a), eq(b.stake, a.stake), eq(b.cost, a.cost), (b.strategy is None) == (a.strategy is None)))
        ctx.check('a saved agent belongs to the saved simulation', b.model is old)
        if a.strategy is not None:
            s, t = a.strategy, b.strategy
            ctx.check('a saved agent has its strategy', land(list(t.stake_allocations) == list(s.stake_allocations), list(t.owned_pools) == list(s.owned_pools),
                                                             *[eq(t.stake_allocations[x], s.stake_allocations[x]) for x in s.stake_allocations]))
            for x in t.owned_pools:
                ctx.check('a saved agent owns the saved pools', t.owned_pools[x] is old.pools.get(x))
    for name in ('pool_rankings', 'pool_rankings_myopic'):
        now, then = list(getattr(old, name)), list(getattr(sim, name))
        ctx.check('the saved rankings are as they were', [p and p.id for p in now] == [p and p.id for p in then])
        ctx.check('the saved rankings rank the saved pools', all(p is old.pools.get(p.id) for p in now if p is not None))
    ctx.check('a saved random generator goes on where it was', old.random.getstate() == sim.random.getstate())
    for name, values in sim.datacollector.model_vars.items():
        got = old.datacollector.model_vars[name]
        ctx.check('the saved simulation has its record', len(got) == len(values))
        for a, b in zip(got, values):
            if isinstance(b, (list, dict)):
                a, b = [list(x.items()) if isinstance(x, dict) else list(enumerate(x)) for x in (a, b)]
                ctx.check('the saved simulation has its record', land(len(a) == len(b), *[land(x == z, eq(y, w)) for (x, y), (z, w) in zip(a, b)]))
            else:
                ctx.check('the saved simulation has its record', eq(a, b))


IDS = [1, 2, 24, 26, 28, 30]
CFG = [dict(pools=()), dict(pools=(0,)), dict(pools=(0, 2)), dict(pools=(1, 1), a0=0.5), dict(pools=(0, 1, 2), s=1, a0=1), dict(pools=(2, 0), s=2, a0=1, abst=1),
       dict(pools=(2,), s=4, a0=3), dict(pools=(1,), s=3, a0=0.3), dict(pools=(1, 0), s=3, a0=0.3, given=True)]


@register('C34', quick=CFG, thorough=CFG + [dict(pools=p, s=s, a0=a, abst=b) for p in ((0, 0), (0, 1), (2, 1, 0)) for s, a in
                                          ((0, 0), (0, 0.3), (1, 1), (2, 1), (4, 3)) for b in (0, 1) if not b or 1 not in p],
          cover=('pools', 'no pools'),
          bounds='3 agents of either profile (one possibly abstaining); up to 3 pools with any pledges, margins and delegated stakes')
def final_state(ctx):
    """The files a run leaves, read back, give the final state; the saved simulation is that state and can be put to use"""
    c = ctx.cfg
    with Desk():
        prof = ctx.mods.stakeholder_profiles
        archive = Archive(ctx)
        stakes, costs = [0.2 + PLACES / 10, 0.5 - PLACES / 10, 0.3], [1e-3 + PLACES / 100, 2e-3, 3e-3]
        cls = [prof.NonMyopicStakeholder, prof.Abstainer if c.get('abst') else prof.MyopicStakeholder, prof.NonMyopicStakeholder]
        sim = new_sim(ctx, cls, stakes, costs, max_iterations=0, k=3, a0=c.get('a0', 0), reward_scheme=c.get('s', 0), metrics=IDS, extra_pool_cost_fraction=0.4)
        pools = some_pools(ctx, sim, c['pools'], margin=[ctx.real('margin', 0, 0.5) + PLACES / 10 for _ in c['pools']] if len(c['pools']) < 3 and not c.get('given') else [0.25] * len(c['pools']),
                           pledge=[ctx.real('pledge', 1e-3, 0.1) + PLACES / 10 for _ in c['pools']] if len(set(c['pools'])) < 3 and not c.get('given') else [PLACES, PLACES / 2, 0.1][:len(c['pools'])],
                           delegated=[ctx.real('delegated', 1e-3, 0.4) + PLACES / 10 if not c.get('abst') else None for _ in c['pools']])
        for p in pools:
            for d, amount in p.delegators.items():
                sim.get_agents_dict()[d].strategy.stake_allocations[p.id] = amount
            sim.pool_rankings.add(p)
            sim.pool_rankings_myopic.add(p)
        sim.run_model()
        ctx.cover('pools' if pools else 'no pools')
        home = '1-mine/'
        # pools
        table = rows(only(home + 'final-state-pools-*.csv'))
        ctx.check('the file of pools has a line for every pool', len(table) == 1 + len(pools))
        for r, p in zip(table[1:], pools):
            r = dict(zip(table[0], r))
            ctx.check('the file of pools names pool and owner', r['Pool id'] == str(p.id) and r['Owner id'] == str(p.owner))
            for name, value in (('Owner stake', stakes[p.owner]), ('Owner cost', costs[p.owner]), ('Pool Pledge', p.pledge), ('Pool stake', p.stake), ('Pool cost', p.cost),
                                ('Pool margin', p.margin), ('Pool PP', p.potential_profit), ('Pool desirability', p.desirability)):
                ctx.check('the file of pools has their properties', eq(archive.number(r[name]), value))
        # agents
        table = rows(only(home + 'final-state-stakeholders-*.csv'))
        ctx.check('the file of agents has a line for every agent', [r[0] for r in table[1:]] == ['0', '1', '2'])
        for i, r in enumerate(table[1:]):
            r = dict(zip(table[0], r))
            own = [p for p in pools if p.owner == i]
            ctx.check('the file of agents has their stake and cost', land(eq(archive.number(r['Initial stake']), stakes[i]), eq(archive.number(r['Cost']), costs[i])))
            ctx.check('the file of agents has their role and pools',
                      land(r['Status'] == ('Operator' if own else 'Abstainer' if c.get('abst') and i == 1 else 'Delegator'), r['Pools owned'] == str(len(own)),
                           eq(archive.number(r['Total pool stake']), vsum(p.stake for p in own))))
        # the summary
        with open(only(home + 'final-state-descriptors.json')) as f:
            d = json.load(f)
        ctx.check('the summary can be read', d['Pool count'] == len(pools) and d['Operator count'] == len(set(c['pools'])) and d['Equilibrium reached'] == 'No')
        # the list of experiments
        table = rows('output/experiment-tracker.csv')
        r = dict(zip(table[0], table[-1]))
        ctx.check('the list of experiments can be read', r['id'] == '1' and r['descriptor'] == 'mine' and r['#pools'] == str(len(pools)) and
                  r['#operators'] == str(len(set(c['pools']))) and r['n'] == '3' and r['k'] == '3' and float(r['a0']) == c.get('a0', 0))
        names = [ctx.mods.model_reporters.REPORTER_IDS[i] for i in IDS]
        check_metrics_file(ctx, archive, names, {name: [metric(ctx, sim, name)] for name in names})
        with open(only(home + 'simulation-object.pkl'), 'rb') as f:
            old = pickle.load(f)
        check_loaded(ctx, sim, old)
        # it can be put to use
        for i in IDS:
            a, b = metric_by_id(ctx, old, i), metric_by_id(ctx, sim, i)
            ctx.check('the saved simulation has the same metrics', land(*[eq(x, y) for x, y in zip(a, b)]) if isinstance(b, list) else eq(a, b))
        before = [(p.id, p.stake) for p in sim.pools.values()]
        for i in sorted(old.pools)[:1]:
            owner = old.pools[i].owner
            agent = old.get_agents_dict()[owner]
            agent.new_strategy = ctx.mods.strategy.Strategy(owned_pools={j: p for j, p in agent.strategy.owned_pools.items() if j != i})
            agent.execute_strategy()
            ctx.check('pools of the saved simulation can be closed', i not in old.pools)
            for name in ('pool_rankings', 'pool_rankings_myopic'):
                ctx.check('pools of the saved simulation can be closed', [p.id for p in getattr(old, name) if p is not None and p.id == i] == [])
        if c.get('given'):
            # the agents look at the rankings as they are now
            for agent in old.get_agents_list():
                agent.step()
                plan = agent.new_strategy
                if plan is not None:
                    ctx.check('agents of the saved simulation decide on its present state', all(j in old.pools for j in plan.stake_allocations))
            live = set(old.pools)
            for agent in old.get_agents_list():
                looked = getattr(agent, 'rankings', None)
                if looked is not None:
                    ctx.check('agents of the saved simulation decide on its present state', {p.id for p in looked if p is not None} == live)
        ctx.check('the saved simulation is another one than the original', [(p.id, p.stake) for p in sim.pools.values()] == before)


@register('C34', quick=[dict(order='sequential', rounds=2), dict(order='simultaneous', rounds=1), dict(order='semisimultaneous', rounds=2, converge=1),
                        dict(order='sequential', rounds=3, k=(2, 3), converge=1)],
          thorough=[dict(order=o, rounds=r, converge=c) for o in ('sequential', 'simultaneous', 'semisimultaneous', 'random') for r in (1, 2, 3) for c in (0, 1)] +
                   [dict(order='sequential', rounds=r, k=(2, 3), converge=1) for r in (3, 4)],
          cover=('something happened',),
          bounds='2 agents with any stakes, 1-3 rounds in which each agent opens or closes a pool, delegates or stays put, up to two phases; 8 of the metrics')
def history(ctx):
    """The file of metrics has a line for every round with what was recorded; the saved simulation goes on as the original does"""
    c = ctx.cfg
    with Desk():
        archive = Archive(ctx)
        player(ctx)
        stakes = [ctx.real('stake', 0.2, 0.6) + PLACES / 10]
        stakes.append(1 - stakes[0])
        ids = [1, 2, 26, 27, 28, 29, 30] + ([] if c.get('converge') else [14])
        sim = new_sim(ctx, Player, stakes, [1e-3, 2e-3], agent_activation_order=c['order'], metrics=ids, k=list(c['k']) if 'k' in c else 2, max_iterations=c['rounds'],
                      iterations_after_convergence=1 if c.get('converge') else 99)
        names = [ctx.mods.model_reporters.REPORTER_IDS[i] for i in ids]
        want = {name: [] for name in names}
        sim.start_time = 0
        rounds = 0
        while sim.running and rounds < c['rounds'] + 3:
            for i, name in zip(ids, names):
                want[name].append(metric_by_id(ctx, sim, i))
            sim.step()
            rounds += 1
        ctx.check('the run ends', not sim.running)
        if sim.pools:
            ctx.cover('something happened')
        check_metrics_file(ctx, archive, names, want)
        with open(only('1-mine/simulation-object.pkl'), 'rb') as f:
            old = pickle.load(f)
        check_loaded(ctx, sim, old)
        # both go on for a round
        moves = []
        for s in (sim, old):
            s.running, s.max_iterations, s.iterations_after_convergence = True, s.max_iterations + 5, 99
            PLAY[:] = [ctx, moves, 0 if s is sim else 1]
            s.step()
        check_rankings(ctx, old, 'continued: ')
        check_consistent(ctx, old, 'continued: ')
        ctx.check('the saved simulation goes on as the original', land(
            list(old.pools) == list(sim.pools), *[land(eq(p.stake, old.pools[i].stake), p.owner == old.pools[i].owner) for i, p in sim.pools.items()]))


PLAY = []
Player = None


def player(ctx):
    """A profile that does anything; classes of objects that are saved must be found in a module"""
    global Player
    PLAY[:] = [ctx, None, 0]

    class Player(ctx.mods.stakeholder.Stakeholder):
        def update_strategy(self):
            context, moves, again = PLAY
            if moves is not None and again:
                what = moves.pop(0)
            else:
                # in the last round only one agent moves
                what = context.choice('move', ('stay', 'open or close', 'delegate')) if moves is None or self.unique_id == 0 else 'stay'
                if moves is not None:
                    moves.append(what)
            sim = self.model
            self.new_strategy = None
            logic = context.mods
            others = [p for p in sim.pools.values() if p.owner != self.unique_id]
            if what == 'open or close' and not self.strategy.owned_pools:
                i = sim.get_next_pool_id()
                pool = logic.pool.Pool(pool_id=i, cost=1e-3, pledge=self.stake / 4, owner=self.unique_id, reward_scheme=sim.reward_scheme, margin=0.5)
                self.new_strategy = logic.strategy.Strategy(owned_pools={i: pool})
            elif what == 'delegate' and others and not self.strategy.owned_pools:
                self.new_strategy = logic.strategy.Strategy(stake_allocations={others[0].id: self.stake / 2})
            elif what == 'open or close' and self.strategy.owned_pools:
                self.new_strategy = logic.strategy.Strategy()
    Player.__qualname__ = 'Player'
    Player.__module__ = __name__
