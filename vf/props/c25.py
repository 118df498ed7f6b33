"""C25  what the command line accepts, and where it ends up"""
import argparse
import sys

from vf.props import register
from vf.props.util import *

ASSUMPTIONS = ['Numbers on the command line are given in a form Python can read; decimals are IEEE doubles, nan and the infinities '
               'included.']

# as documented in docs/configuration.md:  option -> (accepted values, how many of them)
NATURAL, COUNT, DECIMAL, POSITIVE, FRACTION = 'natural', 'count', 'decimal', 'positive', 'fraction'
OPTIONS = dict(n=(NATURAL, 1), k=(NATURAL, '+'), a0=(DECIMAL, '+'), reward_scheme=(range(5), 1), agent_profile_distr=(DECIMAL, 3),
               cost_min=(DECIMAL, 1), cost_max=(DECIMAL, 1), extra_pool_cost_fraction=(DECIMAL, 1),
               absolute_utility_threshold=(DECIMAL, 1), relative_utility_threshold=(DECIMAL, 1), pareto_param=(POSITIVE, 1),
               inactive_stake_fraction=(FRACTION, 1), iterations_after_convergence=(NATURAL, 1), max_iterations=(NATURAL, 1),
               seed=(COUNT, 1), metrics=(range(1, 31), '+'))
DEFAULTS = dict(n=1000, k=100, a0=0.3, reward_scheme=0, agent_profile_distr=[1, 0, 0], cost_min=1e-5, cost_max=1e-4,
                extra_pool_cost_fraction=0.4, agent_activation_order='random', absolute_utility_threshold=1e-9,
                relative_utility_threshold=0, stake_distr_source='pareto', pareto_param=2, inactive_stake_fraction=0,
                inactive_stake_fraction_known=False, iterations_after_convergence=10, max_iterations=2000, seed=None,
                generate_graphs=True, execution_id='', input_from_file=False)
INF = float('inf')


class Rejected(Exception):
    pass


def token(ctx, value, integral):
    """What the user types for this number"""
    if ctx.native:
        return repr(value)
    from vf import rt
    return rt.TypedNumber(value, integral)


def real_parser(ctx):
    parser = argparse.ArgumentParser()
    ctx.mods.helper.add_script_arguments(parser)

    def error(message):
        raise Rejected(message)
    parser.error = error
    return parser


def typed_numbers(ctx):
    """Lets the argument parser of the standard library apply int() and float() to typed numbers"""
    if ctx.native:
        return
    from vf import rt
    for name in ('parse_args', 'parse_known_args'):
        original = getattr(argparse.ArgumentParser, name)

        def parse(self, *a, _original=original, **k):
            for f in (int, float):
                self.register('type', f, lambda s, f=f: rt.call(f, s))
            return _original(self, *a, **k)
        ctx.patch(argparse.ArgumentParser, name, parse)


def fine(kind, v):
    """Is this a documented value?"""
    if kind is NATURAL:
        return ge(v, 1, 0)
    if kind is COUNT:
        return ge(v, 0, 0)
    if kind is DECIMAL:
        return land(is_true(v >= 0), is_true(v < INF))
    if kind is POSITIVE:
        return land(is_true(v > 0), is_true(v < INF))
    if kind is FRACTION:
        return land(is_true(v >= 0), is_true(v <= 1))
    return lor(*[same(v, i) for i in kind])


def integral(kind):
    return kind in (NATURAL, COUNT) or isinstance(kind, range)


@register('C25', quick=[dict(option=o, at=a) for o, (kind, m) in OPTIONS.items() for a in ((0, 1) if m != 1 and o != 'metrics' else (0,))],
          cover=('accepted', 'rejected'), bounds='every option of the command line that takes numbers; any integer up to 1e12 in '
                                                 'size or any double (nan and infinities included)')
def values(ctx):
    """A number is accepted exactly if it is a documented value of the option, and arrives unchanged"""
    c = ctx.cfg
    kind, many = OPTIONS[c['option']]
    v = ctx.int('v', -10 ** 12, 10 ** 12) if integral(kind) else ctx.double('v')
    given = ['1', '1', '1'][:many] if isinstance(many, int) else ['1'] * (c['at'] + 1)
    given[c['at']] = token(ctx, v, integral(kind))
    parser = real_parser(ctx)
    typed_numbers(ctx)
    refused, args = ctx.raises(Rejected, parser.parse_args, ['--' + c['option']] + given)
    ctx.cover('rejected' if refused else 'accepted')
    if refused:
        ctx.check('documented values are accepted', lnot(fine(kind, v)))
        return
    ctx.check('only documented values are accepted', fine(kind, v))
    got = getattr(args, c['option'])
    if many != 1:
        ctx.check('as many values as given', isinstance(got, list) and len(got) == len(given))
        got = got[c['at']]
    ctx.check('the value arrives unchanged', same(got, v))


@register('C25', quick=[dict(option=o) for o in OPTIONS if integral(OPTIONS[o][0])], cover=('rejected',),
          bounds='every option that takes whole numbers; a decimal number')
def not_whole(ctx):
    """Decimals are no whole numbers"""
    parser = real_parser(ctx)
    typed_numbers(ctx)
    v = ctx.real('v', 0, 100)
    ctx.assume(lor(lt(v, 1), land(gt(v, 1), lt(v, 2))))
    refused, _ = ctx.raises(Rejected, parser.parse_args, ['--' + ctx.cfg['option'], token(ctx, v, False)])
    ctx.cover('rejected' if refused else 'accepted')
    ctx.check('whole numbers are required', refused)


@register('C25', quick=[dict(given=())] + [dict(given=(o,)) for o in OPTIONS] +
                       [dict(given=g) for g in (('k', 'a0'), ('cost_min', 'cost_max'), ('n', 'seed', 'max_iterations'),
                                                ('absolute_utility_threshold', 'relative_utility_threshold'))] +
                       [dict(given=(), words=w) for w in (('--agent_activation_order', 'SemiSimultaneous'), ('--stake_distr_source', 'FLAT'),
                                                         ('--inactive_stake_fraction_known',), ('--no-generate_graphs',),
                                                         ('--execution_id', 'Mine'), ('--input_from_file',))],
          cover=('started',), bounds='each documented option by itself and some pairs, with any documented value of each')
def started_with(ctx):
    """The simulation is started with the values given, and the documented defaults for everything else"""
    c = ctx.cfg
    argv, expected = ['main.py'], dict(DEFAULTS)
    for o in c['given']:
        kind, many = OPTIONS[o]
        out = []
        for i in range({1: 1, 3: 3, '+': 2}[many]):
            if isinstance(kind, range):
                v = ctx.choice(o, (kind[0], kind[-1]))
            elif integral(kind):
                v = ctx.int(o, 0, 10 ** 6)
            else:
                v = ctx.real(o, 0, 1000)
            ctx.assume(fine(kind, v))
            out.append(v)
        argv += ['--' + o] + [token(ctx, v, integral(kind)) for v in out]
        expected[o] = out[0] if many == 1 else out
    words = c.get('words', ())
    argv += words
    if words:
        name = words[0].lstrip('-')
        expected.update({'no-generate_graphs': dict(generate_graphs=False)}.get(
            name, {name: True if len(words) == 1 else words[1] if name == 'execution_id' else words[1].lower()}))
    started = []

    class Started:
        equilibrium_steps = []

        def __init__(self, **kw):
            started.append(kw)

        def run_model(self):
            started.append('run')

        def has_converged(self):
            return True
    ctx.patch(ctx.mods.sim, 'Simulation', Started)
    ctx.patch(sys, 'argv', argv)
    typed_numbers(ctx)
    ctx.mods.main.main()
    ctx.cover('started')
    ctx.check('one simulation is started and run', len(started) == 2 and started[1] == 'run')
    kw = started[0]
    for o, v in expected.items():
        ctx.check('every option reaches the simulation', o in kw)
        if o not in kw:
            continue
        if isinstance(v, list):
            ctx.check('the simulation gets the values given', isinstance(kw[o], list) and len(kw[o]) == len(v))
            for x, y in zip(kw[o], v):
                ctx.check('the simulation gets the values given', same(x, y))
        elif v is None or isinstance(v, (str, bool)):
            ctx.check('the simulation gets the values given', kw[o] == v)
        else:
            ctx.check('the simulation gets the values given', same(kw[o], v))
