"""C17  the initial distribution of stake, cost and profiles"""
from vf.props import register
from vf.props.util import *
from vf.props.c25 import token

ASSUMPTIONS = ['The random generators may return any value of the range they are documented to draw from.']


class Draws:
    """Stands in for a numpy generator: draws are arbitrary within the range of the distribution"""

    def __init__(self, ctx, log=None):
        self.ctx = ctx
        self.log = log

    def pareto(self, a, size=None):
        out = [self.ctx.real('pareto', 0, 9) for _ in range(1 if size is None else size)]
        if self.log is not None:
            self.log.extend((a, v) for v in out)
        return out[0] if size is None else ctx_array(self.ctx, out)

    def uniform(self, low=0.0, high=1.0, size=None):
        if size is None:
            return self.one(low, high)
        return ctx_array(self.ctx, [self.one(low, high) for _ in range(size)])

    def one(self, low, high):
        v = self.ctx.real('uniform', -10, 10)
        self.ctx.assume(land(ge(v, low, tol=0), le(v, high, tol=0)))
        if self.log is not None:
            self.log.append(v)
        return v

    def choice(self, values, size, replace=True):
        rest = list(values)
        out = []
        for _ in range(size):
            i = self.ctx.pick('choice', len(rest))
            out.append(rest[i] if replace else rest.pop(i))
        return ctx_array(self.ctx, out)


def ctx_array(ctx, values):
    import numpy as np
    return np.array(values, dtype=object) if any(not isinstance(v, (int, float)) for v in values) else np.array(values)


def draws(ctx, log=None):
    ctx.patch(ctx.mods.helper, 'default_rng', lambda *a, **k: Draws(ctx, log))


def build(ctx, n, **kw):
    quiet_io(ctx)
    args = dict(n=n, k=2, a0=0, reward_scheme=0, agent_activation_order='sequential', seed=1, generate_graphs=False)
    args.update(kw)
    return ctx.mods.sim.Simulation(**args)


STAKES = [dict(src=s, n=n, inactive=i) for s, n, i in (('pareto', 1, 0), ('pareto', 3, 0), ('pareto', 3, 0.25), ('pareto', 2, 0.5),
          ('flat', 3, 0), ('flat', 3, 0.4), ('flat', 7, 0.1), ('disparity', 5, 0.3), ('disparity', 4, 0), ('disparity', 1, 0), ('disparity', 2, 0.25), ('disparity', 3, 0), ('Pareto', 2, 'any'), ('flat', 2, 'any'))] + [
          dict(src='pareto', n=2, inactive=0, shape=1.16), dict(src='pareto', n=2, inactive=0.5, shape=3)]


@register('C17', quick=STAKES, thorough=STAKES + [dict(src=s, n=n, inactive=i) for s in ('pareto', 'flat', 'disparity')
          for n in (4, 5, 6) for i in (0, 0.1, 0.3, 0.9, 'any')],
          bounds='1-7 agents; any draws; inactive fraction 0, 0.1, 0.25, 0.3, 0.4, 0.5 and any in [0, 0.95]; Pareto, flat and disparity '
                 'sources')
def stakes(ctx):
    """The stakes of the agents add up to the active part of a total of 1, in the proportions drawn"""
    c = ctx.cfg
    n = c['n']
    log = []
    draws(ctx, log)
    shape = c.get('shape', 2.0)
    inactive = ctx.real('inactive', 0, 0.95) if c['inactive'] == 'any' else c['inactive']
    sim = build(ctx, n, stake_distr_source=c['src'], inactive_stake_fraction=inactive,
                pareto_param=shape)
    agents = sim.get_agents_list()
    got = [a.stake for a in agents]
    ctx.check('as many agents as asked for', len(got) == n and sorted(sim.get_agents_dict()) == list(range(n)))
    for s in got:
        ctx.check('every agent has some stake', gt(s, 0))
    ctx.check('active and inactive stake add up to 1', eq(vsum(got) + inactive, 1, tol=1e-9))
    ctx.check('the simulation works with a total of 1', eq(sim.total_stake, 1, tol=1e-9))
    if c['src'].lower() == 'pareto':
        drawn = [v[1] + 1 for v in log if isinstance(v, tuple)]      # numpy draws the excess over the minimum of 1
        ctx.check('everybody gets a draw', len(drawn) == n)
        ctx.check('the requested shape of the distribution is used', all(v[0] == shape for v in log if isinstance(v, tuple)))
        for i in range(n):
            ctx.check('stakes are proportional to the draws', eq(got[i] * vsum(drawn), (1 - inactive) * drawn[i], tol=1e-7))
    elif c['src'] == 'flat':
        for s in got:
            ctx.check('a flat distribution gives everybody the same', eq(s, (1 - inactive) / n, tol=1e-9))
    else:
        for i, s in enumerate(got):
            ctx.check('the richest three share 30% of the active stake, the others 70%',
                      eq(s, (1 - inactive) * (1 / n if n <= 3 else 0.1 if i < 3 else 0.7 / (n - 3)), tol=1e-9))


@register('C17', quick=[dict(n=1), dict(n=3)], thorough=[dict(n=n) for n in (1, 2, 3, 5)], cover=('valid', 'invalid'),
          bounds='1-3 (thorough 5) agents; any cost range, whether valid or not')
def costs(ctx):
    """Costs lie in the requested range, which must be a range"""
    c = ctx.cfg
    draws(ctx)
    low, high = ctx.real('cost_min', 0, 1), ctx.real('cost_max', 0, 1)
    if ctx.test(high < low):
        ctx.cover('invalid')
        ctx.check('an empty range is refused',
                  ctx.raises(ValueError, lambda: build(ctx, c['n'], stake_distr_source='flat', cost_min=low, cost_max=high))[0])
        return
    ctx.cover('valid')
    sim = build(ctx, c['n'], stake_distr_source='flat', cost_min=low, cost_max=high)
    for a in sim.get_agents_list():
        ctx.check('costs lie in the requested range', land(ge(a.cost, low), le(a.cost, high)))


@register('C17', quick=[dict(n=3, w=w) for w in ((1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (0.5, 0, 0.5), None)],
          thorough=[dict(n=n, w=w) for n in (1, 4) for w in ((1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (0.5, 0, 0.5), (0, 2, 1), (1, 1, 1), None)],
          bounds='3 (thorough 4) agents; weights with one or two (three) non-zero entries; any draw')
def profiles(ctx):
    """Agents get profiles that the given weights allow, and only those"""
    c = ctx.cfg
    prof = ctx.mods.stakeholder_profiles
    w = c['w'] or (1, 0, 0)
    ctx.patch(ctx.mods.sim.random, 'Random', lambda *a, **k: SymRandom(ctx))
    sim = build(ctx, c['n'], stake_distr_source='flat', agent_profile_distr=None if c['w'] is None else list(w))
    kinds = [prof.NonMyopicStakeholder, prof.MyopicStakeholder, prof.Abstainer]
    allowed = [t for t, x in zip(kinds, w) if x > 0]
    for a in sim.get_agents_list():
        ctx.check('only profiles with a weight occur', type(a) in allowed)
        ctx.check('abstainers have no strategy, the others have one', (a.strategy is None) == (type(a) is kinds[2]))
        if type(a) is kinds[0]:
            ctx.check('non-myopic agents look at potential', a.rankings is sim.pool_rankings)
        if type(a) is kinds[1]:
            ctx.check('myopic agents look at the present', a.rankings is sim.pool_rankings_myopic)


FILES = [dict(n=2, rows=2), dict(n=2, rows=3), dict(n=3, rows=2), dict(n=3, rows=3, layout='line'), dict(n=2, rows=3, layout='mixed', seed=8),
         dict(n=1, rows=3, layout='line'), dict(n=3, rows=1)]


@register('C17', quick=FILES, thorough=[dict(n=n, rows=r, layout=l) for n in (1, 2, 3, 4) for r in (1, 2, 3, 4) for l in ('column', 'line', 'mixed')],
          bounds='1-3 agents and 1-3 values (thorough 1-4 each), each on a line of its own, all on one line, or both; any positive values')
def stakes_from_file(ctx):
    """Stakes read from a file: those of the file, each used at most once if there are enough"""
    c = ctx.cfg
    draws(ctx)
    rows = [ctx.real('row', 0.01, 100) for _ in range(c['rows'])]
    marks = [repr(r) for r in rows] if ctx.native else ['0.25%06d' % (i + 1) for i in range(c['rows'])]
    if not ctx.native:
        # the reader of the standard library hands over the values in place of the marks that stand for them in the file
        import csv
        original = csv.reader
        known = {m: token(ctx, r, False) for m, r in zip(marks, rows)}
        ctx.patch(csv, 'reader', lambda *a, **k: ([known.get(x.strip(), x) for x in row] for row in original(*a, **k)))
    separators = {'column': ['\n'], 'line': [','], 'mixed': [',', '\n']}[c.get('layout', 'column')]
    name = 'synthetic-stake-distribution-%d-agents.csv' % (c['rows'] if c['rows'] == c['n'] else 10000)
    with open(name, 'w') as f:
        f.write(''.join(m + (separators[i % len(separators)] if i < len(marks) - 1 else '\n') for i, m in enumerate(marks)))
    import os
    try:
        sim = build(ctx, c['n'], stake_distr_source='file')
    finally:
        os.remove(name)
    got = [a.stake for a in sim.get_agents_list()]
    ctx.check('stakes add up to 1', eq(vsum(got), 1, tol=1e-9))
    best = None
    total = 0
    import itertools
    options = itertools.permutations(range(c['rows']), c['n']) if c['n'] <= c['rows'] else \
        itertools.product(range(c['rows']), repeat=c['n'])
    found = lor(*[land(*[eq(got[i] * sum(rows[j] for j in o), rows[o[i]], tol=1e-7) for i in range(c['n'])]) for o in options])
    ctx.check('the stakes are those of the file' + (', each at most once' if c['n'] <= c['rows'] else ''), found)
    if c['n'] == c['rows']:
        for i in range(c['n']):
            ctx.check('a file of the right length is used as it is', eq(got[i] * sum(rows), rows[i], tol=1e-7))
