"""C27  the parameters of a run are written down, and running from that file repeats the run"""
import inspect
import json
import os
import pathlib
import shutil
import tempfile

from vf.props import register
from vf.props.util import *
from vf.props.c18 import install

ASSUMPTIONS = ['A generator that was seeded returns arbitrary values that depend on nothing but the seed and how often it was used.',
               'A decimal or natural number that is written to a JSON file is read back as it was (the Python library sees to that).']


def as_list(v):
    return list(v) if isinstance(v, tuple) else v


def parameters(ctx, c):
    """Values of the parameters, as documented; the ones marked in the configuration are left at their defaults"""
    p = dict(n=c.get('n', 2), k=as_list(c.get('k', 2)), a0=as_list(c['a0']) if 'a0' in c else ctx.real('a0', 0, 5),
             reward_scheme=c.get('s', 0), seed=c.get('seed', 7), stake_distr_source=c['src'],
             agent_activation_order=c['order'], cost_min=ctx.real('cost_min', 0, 0.1), cost_max=ctx.real('cost_max', 0.1, 1),
             extra_pool_cost_fraction=ctx.real('extra_pool_cost_fraction', 0, 2), max_iterations=ctx.int('max_iterations', 1, 9999),
             iterations_after_convergence=ctx.int('iterations_after_convergence', 1, 99),
             relative_utility_threshold=ctx.real('relative_utility_threshold', 0, 2),
             absolute_utility_threshold=ctx.real('absolute_utility_threshold', 0, 2),
             inactive_stake_fraction=c.get('inactive', 0), inactive_stake_fraction_known=c.get('known', False),
             pareto_param=ctx.real('pareto_param', 0.1, 9), metrics=as_list(c.get('metrics', (1, 30, 5))), agent_profile_distr=list(c.get('w', (1, 0, 1))),
             generate_graphs=False, execution_id='mine')
    for name in c.get('default', ()):
        p.pop(name)
    return p


class Paper:
    """JSON files that hold symbolic numbers: in the text each is represented by a number that stands for nothing else"""

    def __init__(self, ctx):
        self.marks = []
        if ctx.native:
            return
        for name in ('dump', 'dumps'):
            original = getattr(json, name)
            ctx.patch(json, name, lambda data, *a, _original=original, **k: _original(self.write(data), *a, **k))
        for name in ('load', 'loads'):
            original = getattr(json, name)
            ctx.patch(json, name, lambda *a, _original=original, **k: self.read(_original(*a, **k)))

    def write(self, v):
        from vf.sym import is_sym, Sym
        if isinstance(v, dict):
            return {self.write(x): self.write(y) for x, y in v.items()}
        if isinstance(v, (list, tuple)):
            return [self.write(x) for x in v]
        if not is_sym(v):
            return v
        for mark, known in self.marks:
            if known is v:
                return mark
        mark = 10 ** 9 + len(self.marks) + (0 if isinstance(v, Sym) and v.e.is_int() else 0.5)
        self.marks.append((mark, v))
        return mark

    def read(self, v):
        if isinstance(v, dict):
            return {x: self.read(y) for x, y in v.items()}
        if isinstance(v, list):
            return [self.read(x) for x in v]
        if isinstance(v, (int, float)) and not isinstance(v, bool):
            for mark, known in self.marks:
                if mark == v and type(mark) is type(v):
                    return known
        return v


class Desk:
    """An empty working directory"""

    def __enter__(self):
        self.before = os.getcwd()
        self.here = tempfile.mkdtemp(prefix='desk-', dir=self.before)
        os.chdir(self.here)
        return self

    def __exit__(self, *a):
        os.chdir(self.before)
        shutil.rmtree(self.here)

    def parameters_written(self):
        return sorted(pathlib.Path('output').rglob('args.json'))


def agree(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return land(len(a) == len(b), *[agree(x, y) for x, y in zip(a, b)])
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return is_true(a is b or (type(a) is type(b) and bool(a == b)))
    return eq(a, b)


def behaviour(sim):
    """What the configuration of a simulation determines"""
    rs = sim.reward_scheme
    out = {'scheme': type(rs).__name__, 'k': rs.k, 'a0': rs.a0, 'threshold': rs.global_saturation_threshold, 'order': type(sim.schedule).__name__,
           'metrics': list(sim.datacollector.model_vars), 'name': sim.execution_id.split('-', 1)[1]}
    for name in ('n', 'relative_utility_threshold', 'absolute_utility_threshold', 'max_iterations', 'extra_pool_cost_fraction',
                 'iterations_after_convergence', 'generate_graphs', 'total_phases', 'total_stake', 'perceived_active_stake'):
        out[name] = getattr(sim, name)
    for name, values in sim.multi_phase_params.items():
        out['phases of ' + name] = list(values)
    out['agents'] = [[a.unique_id, type(a).__name__, a.stake, a.cost] for a in sim.get_agents_list()]
    return out


CFG = [dict(src='pareto', order='random', a0=(0, 1), inactive=0.5, seed=0),
       dict(src='flat', order='semisimultaneous', s=3, w=(0, 1, 1), k=(2, 3)),
       dict(src='disparity', order='sequential', n=3, default=('cost_min', 'cost_max'), inactive=0.5, known=True, k=(2, 3), metrics=tuple(range(1, 31))),
       dict(src='file', order='simultaneous', s=4, default=('metrics', 'agent_profile_distr')),
       dict(src='pareto', order='sequential', s=1, inactive=0.25, known=True, default=('pareto_param', 'relative_utility_threshold', 'absolute_utility_threshold')),
       dict(src='flat', order='random', s=2, default=('max_iterations', 'iterations_after_convergence', 'extra_pool_cost_fraction'), seed=0)]


@register('C27', quick=CFG, thorough=[dict(x, n=n, **y) for x in CFG for n in (1, 2, 3) for y in ({}, dict(a0=(0, 1, 3)), dict(k=(1, 2, 4)))],
          cover=('compared',),
          bounds='2-3 (thorough 1-3) agents; any decimal parameters, any numbers of rounds; listed k, seeds, inactive stake and lists of a0; all '
                 'schemes, sources and orders')
def repeat_from_file(ctx):
    """A run lists its parameters in a file, and a run that takes its input from this file is the same run"""
    with Desk() as desk:
        repeated(ctx, desk)


def repeated(ctx, desk):
    c = ctx.cfg
    p = parameters(ctx, c)
    Paper(ctx)
    install(ctx)
    if c['src'] == 'file':
        with open('synthetic-stake-distribution-10000-agents.csv', 'w') as f:
            f.write('1\n2\n5\n')
    Simulation = ctx.mods.sim.Simulation
    given = {k: list(v) if isinstance(v, list) else v for k, v in p.items()}
    one = Simulation(**p)
    files = desk.parameters_written()
    ctx.check('the parameters of a run are written once', len(files) == 1)
    with open(files[0]) as f:
        recorded = json.load(f)
    defaults = {n: q.default for n, q in inspect.signature(Simulation.__init__).parameters.items() if q.default is not q.empty}
    defaults.update(metrics=[1, 2, 6, 9, 17, 18, 25], agent_profile_distr=[1, 0, 0])
    for name, value in dict(defaults, **given).items():
        if name in ('input_from_file', 'parent_dir'):
            continue
        ctx.check('every parameter is listed', name in recorded)
        if name in recorded:
            ctx.check('the parameters are listed with their values', agree(recorded[name], value))
    # the file is put where the documentation says; everything else that is given is to be discarded
    shutil.copy(files[0], 'args.json')
    other = dict(n=4, k=9, a0=2, reward_scheme=2, seed=3, stake_distr_source='flat', agent_activation_order='sequential', cost_min=5, cost_max=6,
                 extra_pool_cost_fraction=3, max_iterations=3, iterations_after_convergence=2, relative_utility_threshold=3,
                 absolute_utility_threshold=3, inactive_stake_fraction=0.25, inactive_stake_fraction_known=True, pareto_param=1, metrics=[2],
                 agent_profile_distr=[0, 1, 0], generate_graphs=True, execution_id='other')
    two = Simulation(input_from_file=True, **other)
    ctx.cover('compared')
    a, b = behaviour(one), behaviour(two)
    ctx.check('the same parameters are in force', set(a) == set(b))
    for name in a:
        if name in b:
            ctx.check('a run from the file has the same ' + name, agree(a[name], b[name]))
    new = [f for f in desk.parameters_written() if f not in files]
    ctx.check('the repeated run lists its parameters, too', len(new) == 1)
    with open(new[0]) as f:
        again = json.load(f)
    ctx.check('the repeated run lists the same parameters', set(again) == set(recorded))
    for name in recorded:
        ctx.check('the repeated run lists the same values', agree(again.get(name), recorded[name]))


@register('C27', quick=CFG, thorough=[dict(x, n=n, **y) for x in CFG for n in (1, 2, 3) for y in ({}, dict(a0=(0, 1, 3)), dict(k=(1, 2, 4)))], cover=('compared',),
          bounds='as above')
def in_force(ctx):
    """The parameters given are the ones in force"""
    c = ctx.cfg
    p = parameters(ctx, c)
    quiet_io(ctx)
    install(ctx)
    if c['src'] == 'file':
        with open('synthetic-stake-distribution-10000-agents.csv', 'w') as f:
            f.write('1\n2\n5\n')
    given = {k: list(v) if isinstance(v, list) else v for k, v in p.items()}
    sim = ctx.mods.sim.Simulation(**p)
    if c['src'] == 'file':
        import os
        os.remove('synthetic-stake-distribution-10000-agents.csv')
    ctx.cover('compared')
    first = lambda v: v[0] if isinstance(v, list) else v
    for name in ('n', 'relative_utility_threshold', 'absolute_utility_threshold', 'max_iterations', 'extra_pool_cost_fraction',
                 'iterations_after_convergence', 'generate_graphs'):
        if name in given:
            ctx.check('the value given is in force: ' + name, agree(getattr(sim, name), given[name]))
    rs = sim.reward_scheme
    ctx.check('the scheme asked for is in force', type(rs) is ctx.mods.reward_schemes.RSS_MAPPING[given['reward_scheme']])
    raised = first(given['k']) if not given['inactive_stake_fraction_known'] else int(first(given['k']) / (1 - given['inactive_stake_fraction']))
    ctx.check('the k and a0 given are in force', land(eq(rs.k, raised), eq(rs.a0, first(given['a0']))))
    ctx.check('there is a phase for every value', sim.total_phases == max(len(v) if isinstance(v, list) else 1 for v in (given['k'], given['a0'])))
    names = ctx.mods.model_reporters.REPORTER_IDS
    ctx.check('the metrics asked for are recorded', list(sim.datacollector.model_vars) == [names[i] for i in given.get('metrics', [1, 2, 6, 9, 17, 18, 25])])
    ctx.check('the output goes by the name given', sim.execution_id.split('-', 1)[1] == 'mine')
    ctx.check('there are as many agents as asked for', [a.unique_id for a in sim.get_agents_list()] == list(range(given['n'])))
    active = vsum(a.stake for a in sim.get_agents_list())
    ctx.check('the agents own the active stake', eq(active, 1 - given['inactive_stake_fraction']))
