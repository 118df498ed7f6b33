"""C28  what the batch script runs"""
import inspect
import random
import sys

from vf.props import register
from vf.props.util import *
from vf.props.c24 import combinations
from vf.props.c25 import Rejected, token, typed_numbers

ASSUMPTIONS = ['Which runs are made of the parameters handed to the batch runner, and what becomes of their results, is C24. Numbers on the command '
               'line are given in a form Python can read.']
WHOLE = ('n', 'k', 'max_iterations', 'iterations_after_convergence', 'seed', 'reward_scheme')
LISTS = ('n', 'k', 'a0', 'inactive_stake_fraction', 'pareto_param', 'cost_min', 'cost_max', 'extra_pool_cost_fraction',
         'relative_utility_threshold', 'absolute_utility_threshold')


def run_script(ctx, argv):
    """Starts batch-run.py and returns what it hands over to the batch runner"""
    import argparse
    calls = []
    mods = ctx.mods
    signature = inspect.signature(mods.batch.custom_batch_run)

    def runner(*a, **kw):
        bound = signature.bind(*a, **kw)
        bound.apply_defaults()
        bound.arguments['parameters'] = dict(bound.arguments['parameters'])
        calls.append(bound.arguments)
        import pathlib
        return [{'RunId': 0, 'Step': 0, 'Pool count': 3}, {'RunId': 1, 'Step': 0, 'Pool count': 4}], pathlib.Path.cwd()

    def error(self, message):
        raise Rejected(message)
    ctx.patch(mods.batch, 'custom_batch_run', runner)
    ctx.patch(argparse.ArgumentParser, 'error', error)
    for name in ('plot_aggregate_data', 'plot_aggregate_data_heatmap'):
        ctx.patch(mods.helper, name, lambda *a, **k: None)
    ctx.patch(sys, 'argv', ['batch-run.py'] + argv)
    typed_numbers(ctx)
    mods.script('batch-run.py')
    return calls


def values_of(parameters, name):
    v = parameters[name]
    return list(v) if isinstance(v, (list, tuple)) else [v]


GIVEN = [(), ('n', 1), ('k', 3), ('a0', 1), ('a0', 3), ('reward_scheme', 1), ('inactive_stake_fraction', 2), ('pareto_param', 1), ('cost_min', 2),
         ('cost_max', 1), ('extra_pool_cost_fraction', 2), ('relative_utility_threshold', 2), ('absolute_utility_threshold', 1), ('max_iterations', 1),
         ('iterations_after_convergence', 1), ('seed', 1)]


@register('C28', quick=[dict(given=(g,) if g else ()) for g in GIVEN] +
                       [dict(given=g) for g in ((('k', 2), ('a0', 2)), (('n', 1), ('k', 1), ('a0', 3)), (('cost_min', 1), ('cost_max', 2)), (('seed', 1), ('max_iterations', 1)))] +
                       [dict(given=(), words=w) for w in (('--execution_id', 'Mine'), ('--inactive_stake_fraction_known',), ('--stake_distr_source', 'flat'))],
          thorough=[dict(given=((a, i), (b, j))) for x, a in enumerate(LISTS) for b in LISTS[x + 1:] for i in (1, 2) for j in (1, 3)] +
                   [dict(given=(g,) if g else (), words=w) for g in GIVEN for w in ((), ('--execution_id', 'Mine'), ('--inactive_stake_fraction_known',))],
          cover=('handed over',),
          bounds='every numeric option of the batch script by itself and some (thorough: all) pairs, with 1-3 values each, any decimals from 0 to 1000, any '
                 'natural numbers up to 1e6')
def handed_over(ctx):
    """All values given reach the batch runner unchanged, and each run accepts them"""
    c = ctx.cfg
    argv, expected = [], {}
    known = inspect.signature(ctx.mods.sim.Simulation.__init__).parameters
    for o, many in c['given']:
        out = []
        for i in range(many):
            if o == 'reward_scheme':
                v = ctx.choice(o, range(5))
            elif o in WHOLE:
                v = ctx.int(o, 0 if o == 'seed' else 1, 10 ** 6)
            else:
                v = ctx.real(o, 0, 1000)
            out.append(v)
        argv += ['--' + o] + [token(ctx, v, o in WHOLE) for v in out]
        expected[o] = out
    words = c.get('words', ())
    argv += words
    drawn = []
    first = ctx.int('automatic_seed', 0, 9999999)
    for name in ('randint', 'randrange'):
        ctx.patch(random, name, lambda *a: drawn.append(a) or first)
    calls = run_script(ctx, argv)
    ctx.cover('handed over')
    ctx.check('one batch is run', len(calls) == 1)
    got = calls[0]
    p = got['parameters']
    ctx.check('the simulation knows every parameter handed over', all(name in known for name in p))
    seed = expected.pop('seed', None)
    if seed:
        ctx.check('the seed given is used', same(got['initial_seed'], seed[0]))
    else:
        ctx.check('otherwise a seed is drawn', len(drawn) == 1 and got['initial_seed'] is not None)
        if drawn:
            ctx.check('the seed drawn is used', same(got['initial_seed'], first))
    for o, vs in expected.items():
        have = values_of(p, o) if o in p else []
        ctx.check('every value given is handed over', len(have) == len(vs))
        for x, y in zip(have, vs):
            ctx.check('the values given are handed over unchanged', same(x, y))
    ctx.check('runs may take as long as was asked for', same(got['max_steps'], values_of(p, 'max_iterations')[0]))
    ctx.check('each combination is run once, results are those of the end', got['iterations'] == 1 and got['data_collection_period'] == -1)
    ctx.check('the batch goes by the name given', got['batch_run_id'] == ('Mine' if '--execution_id' in words else 'batch-run'))
    ctx.check('the flags given are handed over', values_of(p, 'inactive_stake_fraction_known') == ['--inactive_stake_fraction_known' in words] and
              str(values_of(p, 'stake_distr_source')[0]).lower() == ('flat' if '--stake_distr_source' in words else 'pareto'))
    ctx.check('no other parameter varies', all(len(values_of(p, o)) == 1 for o in p if o not in expected and o not in ('k', 'agent_profile_distr')))


@register('C28', quick=[{}], cover=('accepted', 'refused'), bounds='any scheme number from -1e6 to 1e6')
def schemes(ctx):
    """All documented reward schemes can be chosen, and nothing else"""
    v = ctx.int('scheme', -10 ** 6, 10 ** 6)
    fine = land(ge(v, 0, 0), le(v, 4, 0))
    refused, calls = ctx.raises(Rejected, run_script, ctx, ['--reward_scheme', token(ctx, v, True)])
    ctx.cover('refused' if refused else 'accepted')
    if refused:
        ctx.check('documented schemes are accepted', lnot(fine))
    else:
        ctx.check('only documented schemes are accepted', fine)
        ctx.check('the scheme chosen is used', same(values_of(calls[0]['parameters'], 'reward_scheme')[0], v))


@register('C28', quick=[{}], cover=('run',), bounds='two values of k, any decimal a0 and cost, three weights, any decimals from 0 to 1')
def started_with(ctx):
    """Each run is started with one combination of the values given, and with the weights of the profiles given"""
    ws = [ctx.real('weight', 0, 1) for _ in range(3)]
    a0, cost = ctx.real('a0', 0, 9), ctx.real('cost', 0, 9)
    started = []
    ctx.patch(ctx.mods.sim, 'Simulation', lambda **kw: started.append(kw))
    calls = run_script(ctx, ['--agent_profile_distr'] + [token(ctx, w, False) for w in ws] +
                       ['--k', '2', '3', '--a0', token(ctx, a0, False), '--cost_max', token(ctx, cost, False), '--reward_scheme', '3'])
    kwargs = combinations(calls[0]['parameters'])
    for kw in kwargs:
        calls[0]['model_cls'](**kw)
    ctx.cover('run')
    ctx.check('a run for each value of k', sorted(x['k'] for x in started) == [2, 3])
    for x in started:
        w = x.get('agent_profile_distr')
        ctx.check('every run has the weights given', isinstance(w, (list, tuple)) and len(w) == 3)
        for a, b in zip(w or (), ws):
            ctx.check('every run has the weights given', same(a, b))
        ctx.check('every run has the single values given', land(same(x['a0'], a0), same(x['cost_max'], cost), x['reward_scheme'] == 3))
