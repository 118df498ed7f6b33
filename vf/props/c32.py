"""C32  graphs show what was recorded"""
import inspect
import pathlib
import pickle
import sys

from vf.props import register
from vf.props.util import *
from vf.props.c24 import combinations
from vf.props.c27 import Desk

ASSUMPTIONS = ['The drawing library draws the data a figure holds (what is compared is the content of the figures when they are saved, not their pixels).',
               'It treats all numbers alike: within it, each symbolic number is represented by a number that stands for nothing else.']


class Canvas:
    """The figures saved, with what they hold"""

    def __init__(self, ctx):
        self.ctx, self.marks, self.saved = ctx, [], []
        import matplotlib
        matplotlib.use('Agg')
        import matplotlib.figure
        import matplotlib.axes
        import pandas
        import pandas.plotting
        import seaborn
        ctx.patch(matplotlib.figure.Figure, 'savefig', lambda fig, target, *a, **k: self.saved.append(Figure(self, fig, target)))
        if ctx.native:
            return
        from vf.sym import Sym
        ctx.patch(Sym, '__float__', lambda v: self.mark(v))
        accessor = pandas.plotting.PlotAccessor
        plot = accessor.__call__

        def plotted(this, *a, **k):
            data = this._parent
            if getattr(data, 'dtype', None) == object:
                return plot(accessor(data.map(float)), *a, **k)
            return plot(this, *a, **k)
        ctx.patch(accessor, '__call__', plotted)
        for obj, name in ((matplotlib.axes.Axes, 'stackplot'), (matplotlib.axes.Axes, 'fill_between'), (matplotlib.axes.Axes, 'scatter'),
                          (matplotlib.axes.Axes, 'plot'), (matplotlib.axes.Axes, 'imshow'), (matplotlib.axes.Axes, 'pcolormesh'), (seaborn, 'heatmap')):
            self.marking(obj, name)

    def marking(self, obj, name):
        original = getattr(obj, name)
        self.ctx.patch(obj, name, lambda *a, **k: original(*[self.floats(x) for x in a], **{n: self.floats(x) for n, x in k.items()}))

    def floats(self, x):
        import numpy as np
        import pandas as pd
        from vf.sym import Sym
        if isinstance(x, (pd.DataFrame, pd.Series)):
            return x.map(lambda v: float(v) if isinstance(v, Sym) else v)
        if isinstance(x, np.ndarray) and x.dtype == object:
            return x.astype(float)
        if isinstance(x, (list, tuple)):
            return type(x)(self.floats(v) for v in x) if type(x) in (list, tuple) else x
        return float(x) if isinstance(x, Sym) else x

    def mark(self, v):
        if v.c is not None:
            return float(v.c)
        for m, known in self.marks:
            if known is v or known.e.eq(v.e):
                return m
        m = float(1000 + 7 * len(self.marks))
        self.marks.append((m, v))
        return m

    def number(self, x):
        """What a number in a figure stands for"""
        x = float(x)
        for m, known in self.marks:
            if m == x:
                return known
        return x

    def number_of_difference(self, a, b):
        return self.number(float(a) - float(b))


class Figure:
    """What a figure holds"""

    def __init__(self, canvas, fig, target):
        self.file = pathlib.Path(target)
        self.lines, self.points, self.areas, self.cells = [], [], [], None
        for ax in fig.axes:
            for line in ax.lines:
                xy = [(float(x), canvas.number(y)) for x, y in zip(line.get_xdata(orig=False), line.get_ydata(orig=False))]
                upright = len(xy) == 2 and xy[0][0] == xy[1][0] and line.get_transform() != ax.transData
                self.lines.append(('upright', xy[0][0]) if upright else ('points', xy))
            for c in ax.collections:
                kind = type(c).__name__
                if kind == 'PathCollection':
                    self.points += [(canvas.number(x), canvas.number(y)) for x, y in c.get_offsets()]
                elif kind in ('PolyCollection', 'FillBetweenPolyCollection'):
                    band = {}
                    for path in c.get_paths():
                        for x, y in path.vertices:
                            band.setdefault(float(x), []).append(float(y))
                    self.areas.append({x: canvas.number_of_difference(max(ys), min(ys)) for x, ys in band.items()})
                elif kind == 'QuadMesh' and self.cells is None and ax is fig.axes[0]:
                    values = c.get_array().reshape(-1, len(ax.get_xticklabels()))
                    self.cells = {}
                    for y, below in zip(ax.get_yticks(), ax.get_yticklabels()):
                        for x, beside in zip(ax.get_xticks(), ax.get_xticklabels()):
                            self.cells[beside.get_text(), below.get_text()] = canvas.number(values[int(y)][int(x)])


def drawn_series(fig):
    """The line that shows one value per round"""
    lines = sorted((xy for kind, xy in fig.lines if kind == 'points'), key=len)
    return lines[-1] if lines else []


SCALAR = ('Pool count', 'Total pledge', 'Mean margin', 'Nakamoto coefficient')
RUNS = [dict(metrics=(1, 2)), dict(metrics=(24,), k=(2, 3), rounds=4), dict(metrics=(26, 9), rounds=2), dict(metrics=(21, 1, 27), a0=(0, 1, 2), rounds=4, patience=1),
        dict(metrics=(2, 26), graphs=False)]


@register('C32', quick=RUNS, thorough=[dict(x, rounds=r, patience=p) for x in RUNS for r in (2, 3, 5) for p in (1, 2)],
          cover=('drawn', 'not drawn', 'equilibrium', 'change'),
          bounds='1-4 (thorough 5) rounds, up to three metrics with any values, any rounds idle, up to three phases')
def evolution(ctx):
    """The graphs of a run show what was recorded in each round"""
    with Desk():
        run(ctx)


def run(ctx):
    c = ctx.cfg
    canvas = Canvas(ctx)
    reporters = ctx.mods.model_reporters
    names = [reporters.REPORTER_IDS[i] for i in c['metrics']]
    rounds = c.get('rounds', 3)
    graphs = c.get('graphs', True)
    ctx.patch(pickle, 'dump', lambda *a, **k: None)
    ctx.patch(pickle, 'dumps', lambda *a, **k: b'')
    import pandas
    ctx.patch(pandas.DataFrame, 'to_csv', lambda *a, **k: None)

    def value(name):
        if name == 'Stake per agent':
            return [ctx.real('stake', 0, 1) for _ in range(2)]
        if name == 'Stake per agent id':
            return {0: ctx.real('stake', 0, 1)}
        if name == 'StakePairs':
            return {'x': [ctx.real('stake', 0, 1)]}
        return ctx.real('metric', -2, 100)
    in_force = {}

    def measured(model, name):
        in_force[model.schedule.steps] = model.reward_scheme.k, model.reward_scheme.a0
        return value(name)
    for name in names:
        reporters.ALL_MODEL_REPORTEERS[name] = lambda model, _name=name: measured(model, _name)
    Strategy = ctx.mods.strategy.Strategy

    class Agent(ctx.mods.stakeholder.Stakeholder):
        def update_strategy(self):
            busy = self.unique_id == 0 and ctx.pick('moves', 2)
            self.new_strategy = Strategy() if busy else None
    given = {n: list(c[n]) if isinstance(c.get(n), tuple) else c[n] for n in ('k', 'a0') if n in c}
    sim = ctx.mods.sim.Simulation(**dict(dict(n=2, k=2, a0=0, stake_distr_source='flat', agent_activation_order='sequential', seed=1, max_iterations=rounds,
                                              iterations_after_convergence=c.get('patience', 2), metrics=list(c['metrics']), generate_graphs=graphs,
                                              execution_id='mine'), **given))
    for old in list(sim.get_agents_list()):
        sim.schedule.remove(old)
        sim.schedule.add(Agent(unique_id=old.unique_id, model=sim, stake=old.stake, cost=old.cost))
    sim.run_model()
    recorded = {name: list(sim.datacollector.model_vars[name]) for name in names}
    figures = canvas.saved
    if not graphs:
        ctx.cover('not drawn')
        ctx.check('no graphs unless asked for', not figures)
        return
    ctx.cover('drawn')
    single = [name for name in names if name not in ('Stake per agent', 'Stake per agent id', 'StakePairs')]
    changes = [r for r in sorted(in_force)[1:] if in_force[r] != in_force[r - 1]]
    if changes:
        ctx.cover('change')
    if sim.equilibrium_steps:
        ctx.cover('equilibrium')
    ctx.check('one graph per metric', len(figures) == len(single) + ('Stake per agent' in names) and len({f.file for f in figures}) == len(figures))
    for f in figures:
        ctx.check('graphs are kept with the other output of the run', pathlib.Path(sim.directory).resolve() in f.file.resolve().parents)
    for name in single:
        mine = [f for f in figures if f.file.name.endswith('-%s.png' % name)]
        ctx.check('each metric has its graph', len(mine) == 1)
        series = drawn_series(mine[0])
        ctx.check('a graph shows every round recorded', [x for x, _ in series] == list(range(len(recorded[name]))))
        for (_, y), v in zip(series, recorded[name]):
            ctx.check('a graph shows the values recorded', same(y, v))
        upright = sorted(x for kind, x in mine[0].lines if kind == 'upright')
        ctx.check('equilibria are marked where they were reached', upright == sorted(sim.equilibrium_steps))
        others = sorted((xy for kind, xy in mine[0].lines if kind == 'points' and xy is not series), key=lambda xy: xy[0][0])
        marked = [p for xy in others for p in xy]
        ctx.check('changes of parameters are marked where they happened', [x for x, _ in marked] == changes)
        for x, y in marked:
            ctx.check('the marks are on the line', same(y, recorded[name][int(x)]))
    if 'Stake per agent' in names:
        mine = [f for f in figures if f.areas]
        ctx.check('the stake per agent has its graph', len(mine) == 1 or len(recorded['Stake per agent']) < 2)
        if mine:
            values = recorded['Stake per agent']
            ctx.check('a band for each agent', len(mine[0].areas) == len(values[0]))
            for i, band in enumerate(mine[0].areas):
                ctx.check('bands cover the rounds', sorted(band) == list(range(1, len(values))))
                for x, y in band.items():
                    ctx.check('bands are as wide as the stake', same(y, values[int(x)][i]))


BATCHES = [dict(argv=('--k', '2', '3', '5'), vary=('k',), metrics=('Pool count', 'Median margin')),
           dict(argv=('--k', '2', '--a0', '0.5', '0.25'), vary=('a0',), metrics=('Total pledge',)),
           dict(argv=('--k', '2', '3', '--a0', '0.5', '0.25'), vary=('k', 'a0'), metrics=('Nakamoto coefficient',)),
           dict(argv=('--n', '20', '10', '--k', '3', '--cost_max', '0.125', '0.0625'), vary=('n', 'cost_max'), metrics=('Mean margin',)),
           dict(argv=('--k', '3'), vary=(), metrics=('Mean margin',)),
           dict(argv=('--k', '2', '3', '--a0', '0.5', '0.25', '--n', '10', '20'), vary=('k', 'a0', 'n'), metrics=('Nakamoto coefficient',), sign=1)]


@register('C32', quick=BATCHES, thorough=BATCHES + [dict(x, sign=1, argv=x['argv'] + ('--pareto_param', '1', '2'), vary=x['vary'] + ('pareto_param',)) for x in BATCHES],
          cover=('drawn',), bounds='up to three parameters that vary, up to three values each; metrics with any values')
def comparison(ctx):
    """The graphs of a batch show the value of each execution"""
    with Desk():
        batch(ctx)


def batch(ctx):
    c = ctx.cfg
    canvas = Canvas(ctx)
    mods = ctx.mods
    signature = inspect.signature(mods.batch.custom_batch_run)
    results = []

    def runner(*a, **kw):
        bound = signature.bind(*a, **kw)
        bound.apply_defaults()
        for i, params in enumerate(reversed(combinations(bound.arguments['parameters']))):
            row = dict(dict(RunId=i, iteration=0, Step=3), **{n: v for n, v in params.items() if n not in ('parent_dir',)})
            for name in c['metrics']:
                row[name] = ctx.real('value', 0 if c.get('sign') else -2, 100)
            results.append(row)
        return [dict(r) for r in results], pathlib.Path.cwd() / 'made'
    ctx.patch(mods.batch, 'custom_batch_run', runner)
    ctx.patch(sys, 'argv', ['batch-run.py', '--seed', '1', '--execution_id', 'mine'] + list(c['argv']))
    mods.script('batch-run.py')
    ctx.cover('drawn')
    vary, figures = c['vary'], canvas.saved
    ctx.check('one graph per metric and parameter that varies, and one per metric for two parameters',
              len(figures) == len(vary) * len(c['metrics']) + (len(c['metrics']) if len(vary) == 2 else 0) and len({f.file for f in figures}) == len(figures))
    for f in figures:
        ctx.check('graphs are kept with the other output of the batch', (pathlib.Path.cwd() / 'made').resolve() in f.file.resolve().parents)
    for name in c['metrics']:
        for p in vary:
            mine = [f for f in figures if f.file.name.endswith('%s-per-%s.png' % (name, p))]
            ctx.check('each metric has its graph per parameter', len(mine) == 1)
            valid = [r for r in results if ctx.test(r[name] >= 0)]
            ctx.check('a point for each execution with a value', len(mine[0].points) == len(valid))
            for r in valid:
                ctx.check('points are at the values', lor(*[land(x == r[p], same(y, r[name])) for x, y in mine[0].points]))
        if len(vary) == 2:
            mine = [f for f in figures if f.cells is not None and name in f.file.name]
            ctx.check('each metric has its heat map', len(mine) == 1)
            cells = {(float(x), float(y)): v for (x, y), v in mine[0].cells.items()}
            ctx.check('a cell for each combination', len(cells) == len(results))
            for r in results:
                ways = [(round(float(r[a]), 4), round(float(r[b]), 4)) for a, b in (vary, vary[::-1])]
                at = next((cells[w] for w in ways if w in cells), None)
                ctx.check('cells hold the value of their execution', at is not None and same(at, r[name]))
