"""C18  a run is determined by its parameters and its seed"""
from vf.props import register
from vf.props.util import *

ASSUMPTIONS = ['A generator that was seeded returns arbitrary values that depend on nothing but the seed and how often it was '
               'used; one that was not seeded returns arbitrary values, different in every run.']


class Chance:
    """All random generators of one exploration. Two generators with the same seed agree; unseeded ones agree on nothing."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.memo = {}
        self.fresh = 0
        self.seeds = []

    def key(self, kind, seed):
        if seed is None:
            self.fresh += 1
            return kind, 'unseeded', self.fresh
        if isinstance(seed, str):
            return kind, 'seed', seed
        for j, other in enumerate(self.seeds):       # seeds that were drawn are symbols; they agree where their values do
            if self.ctx.test(seed == other):
                return kind, 'seed', j
        self.seeds.append(seed)
        return kind, 'seed', len(self.seeds) - 1

    def generator(self, kind, *a, **k):
        seed = a[0] if a else k.get('seed')
        if hasattr(seed, 'spawn') and not isinstance(seed, int):
            seed = str(seed)
        return Generator(self, self.key(kind, seed))

    def value(self, key, i, draw):
        if (key, i) not in self.memo:
            self.memo[key, i] = draw()
        return self.memo[key, i]


class Generator:
    def __init__(self, chance, key):
        self.chance, self.k, self.i = chance, key, 0

    def seed(self, *a, **kw):
        self.k, self.i = self.chance.key(self.k[0], a[0] if a else kw.get('a')), 0

    def _v(self, draw):
        self.i += 1
        return self.chance.value(self.k, self.i, draw)

    def pick(self, n):
        return self._v(lambda: self.chance.ctx.pick('pick', n))

    def number(self, lo, hi):
        return self._v(lambda: self.chance.ctx.real('number', lo, hi))

    def randint(self, a, b):
        return self._v(lambda: self.chance.ctx.int('randint', a, b))

    randrange = integers = randint

    def random(self, size=None):
        return self.number(0, 1) if size is None else self._many(size, lambda: self.number(0, 1))

    def shuffle(self, x):
        rest, out = list(x), []
        while rest:
            out.append(rest.pop(self.pick(len(rest))))
        x[:] = out

    permutation = None

    def sample(self, population, k, **kw):
        rest, out = list(population), []
        for _ in range(k):
            out.append(rest.pop(self.pick(len(rest))))
        return out

    def choices(self, population, weights=None, *, cum_weights=None, k=1):
        ok = [p for i, p in enumerate(population) if weights is None or weights[i] > 0]
        return [ok[self.pick(len(ok))] for _ in range(k)]

    def choice(self, values, size=None, replace=True, **kw):
        if size is None:
            return list(values)[self.pick(len(list(values)))]
        rest, out = list(values), []
        for _ in range(size):
            j = self.pick(len(rest))
            out.append(rest[j] if replace else rest.pop(j))
        return self._array(out)

    def _array(self, values):
        import numpy as np
        return np.array(values, dtype=object)

    def _many(self, size, one):
        return self._array([one() for _ in range(size)])

    def pareto(self, a, size=None):
        return self.number(0, 9) if size is None else self._many(size, lambda: self.number(0, 9))

    def uniform(self, low=0.0, high=1.0, size=None):
        one = lambda: low + (high - low) * self.number(0, 1)
        return one() if size is None else self._many(size, one)

    rand = random


def install(ctx):
    import random as stdlib
    import numpy as np
    chance = Chance(ctx)
    ctx.patch(stdlib, 'Random', lambda *a, **k: chance.generator('Random', *a, **k))
    module_level = chance.generator('module')
    for name in ('randint', 'randrange', 'random', 'shuffle', 'sample', 'choices', 'choice', 'uniform', 'seed'):
        ctx.patch(stdlib, name, getattr(module_level, name))
    np_level = chance.generator('numpy')
    for name in ('random', 'shuffle', 'choice', 'uniform', 'pareto', 'seed', 'randint', 'rand'):
        ctx.patch(np.random, name, getattr(np_level, name))
    make = lambda *a, **k: chance.generator('default_rng', *a, **k)
    ctx.patch(np.random, 'default_rng', make)
    if hasattr(ctx.mods.helper, 'default_rng'):
        ctx.patch(ctx.mods.helper, 'default_rng', make)
    return chance


def build(ctx, seed, **kw):
    args = dict(n=2, k=2, a0=0, reward_scheme=0, seed=seed, generate_graphs=False)
    args.update(kw)
    return ctx.mods.sim.Simulation(**args)


def history(ctx, sim, rounds):
    """What the run started with, and who acted when"""
    start = [(a.unique_id, type(a).__name__, a.stake, a.cost) for a in sim.get_agents_list()]
    log = []
    Base = ctx.mods.stakeholder.Stakeholder

    class Logging(Base):
        def step(self):
            log.append(('step', self.unique_id))

        def advance(self):
            log.append(('advance', self.unique_id))
    for a in list(sim.get_agents_list()):
        sim.schedule.remove(a)
        sim.schedule.add(Logging(unique_id=a.unique_id, model=sim, stake=a.stake, cost=a.cost))
    sim.iterations_after_convergence = 99
    for _ in range(rounds):
        sim.step()
    return start, log


def compare(ctx, one, two):
    ctx.check('the same agents', [x[:2] for x in one[0]] == [x[:2] for x in two[0]])
    for x, y in zip(one[0], two[0]):
        ctx.check('the same stakes and costs', land(eq(x[2], y[2]), eq(x[3], y[3])))
    ctx.check('the same turns', one[1] == two[1])


CFG = [dict(order='random', src='pareto'), dict(order='semisimultaneous', src='flat'), dict(order='random', src='flat', n=3, rounds=1),
       dict(order='sequential', src='pareto', w=(1, 1, 0)), dict(order='simultaneous', src='disparity', n=4, w=(0, 1, 1)),
       dict(order='semisimultaneous', src='pareto', n=3, rounds=1), dict(order='random', src='file', n=2, rounds=1)]


@register('C18', quick=[dict(seed=s, **x) for x in CFG for s in (0, 'auto')] + [dict(seed=7, other=1, order='random', src='pareto')],
          thorough=[dict(seed=s, **x) for x in CFG for s in (0, 5, 'auto')] +
                   [dict(seed=s, other=1, order=o, src='flat', n=n, w=w) for s in (7, 'auto') for o in ('random', 'semisimultaneous') for n in (2, 3)
                    for w in ((1, 0, 0), (1, 1, 1))] + [dict(seed=3, order='random', src='flat', n=2, rounds=4)],
          cover=('compared',),
          bounds='2-4 agents, 1-2 (thorough 4) rounds, all sources of stake and all activation orders, given and automatically '
                 'chosen seeds; any values drawn')
def twice(ctx):
    """Two runs with the same parameters and seed start and proceed alike, whatever else happens in the process"""
    c = ctx.cfg
    files = quiet_io(ctx)
    chance = install(ctx)
    kw = dict(n=c.get('n', 2), agent_activation_order=c['order'], stake_distr_source=c['src'],
              agent_profile_distr=list(c.get('w', (1, 0, 0))))
    if c['src'] == 'file':
        with open('synthetic-stake-distribution-10000-agents.csv', 'w') as f:
            f.write('1\n2\n5\n')
    seed = None if c['seed'] == 'auto' else c['seed']
    rounds = c.get('rounds', 2)
    first = build(ctx, seed, **kw)
    if seed is None:
        recorded = [data['Randomness seed'] for _, data in files.documents() if 'Randomness seed' in data]
        ctx.check('an automatically chosen seed is recorded', len(recorded) == 1 and recorded[0] is not None)
        seed = recorded[0]
    one = history(ctx, first, rounds)
    second = build(ctx, seed, **kw)
    if c.get('other'):
        # another simulation is set up in the same process in between
        build(ctx, 99, **kw)
    two = history(ctx, second, rounds)
    if c['src'] == 'file':
        import os
        os.remove('synthetic-stake-distribution-10000-agents.csv')
    ctx.cover('compared')
    compare(ctx, one, two)
