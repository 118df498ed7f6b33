"""C16  changing the parameters between phases"""
from vf.props import register
from vf.props.util import *

ASSUMPTIONS = ['The agents stay put until the change of phase (any state may be reached before it, so the state is arbitrary).',
               'One idle round suffices for convergence.']


def value_in(values, phase):
    """A parameter keeps its last value when the list given for it is shorter than the number of phases"""
    return values[min(phase, len(values) - 1)] if isinstance(values, (list, tuple)) else values


def independent_profit(ctx, s, k, a0, pledge, cost):
    """Profit at saturation under the given parameters, from a scheme object of its own"""
    rs = make_scheme(ctx, s, k, a0)
    return rs.calculate_pool_reward(pool_pledge=pledge, pool_stake=rs.get_pool_saturation_threshold(pledge)) - cost


CFG = [dict(k=(2, 3), a0=0, pools=2), dict(k=(3, 2), a0=0, pools=2), dict(k=2, a0=(0, 1), pools=1), dict(k=(2, 4, 3), a0=(0, 0.5), pools=1),
       dict(k=(2, 5), a0=(0.5, 0, 1), pools=1, s=2), dict(k=(1, 2), a0=4, pools=1, s=4), dict(k=(2, 4), a0=0, pools=2, order='simultaneous'),
       dict(k=(2, 8), a0=0, pools=0), dict(k=(2, 3), a0=(0, 1), pools=1, n=1),
       dict(k=(5, 4), a0=(0, 1), pools=1, private=0.2), dict(k=(5, 8), a0=(0.5, 1), pools=1, private=0.2, s=2)]


@register('C16', quick=CFG,
          thorough=CFG + [dict(k=k, a0=a, pools=p, s=s, all=p < 3) for k in ((2, 3), (3, 1, 4), 3) for a in (0, (0, 1), (1, 0, 0.5)) for p in (1, 2, 3)
                          for s in (0, 1, 2, 3) if isinstance(k, tuple) or isinstance(a, tuple)],
          cover=('changed',),
          bounds='k rising and falling between 1 and 8, a0 in {0, 0.5, 1, 4}; up to 3 phases; any consistent state with up to 2 '
                 '(thorough 3) public pools and possibly a private one; Cardano, flat pledge benefit, CIP-50 (thorough also simplified and CIP-7)')
def phase_change(ctx):
    """All derived quantities follow the parameters when a phase begins"""
    c = ctx.cfg
    s = c.get('s', 0)
    as_arg = lambda v: list(v) if isinstance(v, tuple) else v
    n = c.get('n', 3)
    phases = max(len(v) if isinstance(v, tuple) else 1 for v in (c['k'], c['a0']))
    quiet_io(ctx)
    sim = make_sim(ctx, n=n, k=as_arg(c['k']), a0=as_arg(c['a0']), scheme=s, order=c.get('order', 'sequential'),
                   cls=decided(ctx, 'stay'), stakes=([0.3, 0.3, 0.4] if n == 3 else [1]), costs=[1e-2, 1.5e-2, 2e-2][:n],
                   iterations_after_convergence=1)
    for j in range(c['pools']):
        owner = j % n
        dels = []
        if n > 1 and (j == 0 or c.get('all')) and ctx.bool('delegates'):
            dels = [((owner + 1) % n, ctx.real('delegated', 1e-3, 0.2))]
        add_pool(ctx, sim, owner, ctx.real('pledge', 0.01, 0.1), 1e-2 * (j + 1), margin=ctx.choice('margin', (0, 0.5)) if j == 0 or c.get('all') else 0.25,
                 private=False, delegations=dels)
    if c.get('private'):
        add_pool(ctx, sim, 0, c['private'], 1e-3, margin=0, private=True)
    before = {i: (p.stake, p.pledge, p.cost, p.margin, p.owner, dict(p.delegators)) for i, p in sim.pools.items()}
    ctx.check('the phases are counted', sim.total_phases == phases)
    for phase in range(1, phases):
        sim.step()
        ctx.cover('changed')
        k, a0 = value_in(c['k'], phase), value_in(c['a0'], phase)
        rs = sim.reward_scheme
        ctx.check('the next phase has begun', sim.current_phase == phase and sim.running)
        ctx.check('k and a0 are those of the phase', rs.k == k and rs.a0 == a0)
        ctx.check('the saturation threshold follows k', abs(rs.global_saturation_threshold * k - 1) < 1e-12)
        ctx.check('pools survive the change', set(sim.pools) == set(before))
        for i, p in sim.pools.items():
            b = before[i]
            ctx.check('stake, pledge, cost, margin and delegations survive the change',
                      land(eq(p.stake, b[0]), eq(p.pledge, b[1]), eq(p.cost, b[2]), eq(p.margin, b[3]), p.owner == b[4],
                           set(p.delegators) == set(b[5]), *[eq(p.delegators[d], b[5][d]) for d in b[5] if d in p.delegators]))
            pp = independent_profit(ctx, s, k, a0, p.pledge, p.cost)
            ctx.check('potential profits follow the parameters', eq(p.potential_profit, pp))
            ctx.check('desirabilities follow the parameters', eq(p.desirability, vmax((1 - p.margin) * pp, 0)))
        check_rankings(ctx, sim)


@register('C16', quick=[dict(k=(2, 4), move=m, order=o) for m, o in (('operate', 'sequential'), ('delegate', 'simultaneous'))] +
                       [dict(k=(4, 2), move='operate', order='sequential'), dict(k=(1, 6), move='operate', order='semisimultaneous')] +
                       [dict(k=k, move=m, order='sequential', own=3) for k in ((3, 5), (3, 6)) for m in ('operate', 'delegate')],
          thorough=[dict(k=k, move=m, order='sequential', own=o) for k in ((3, 5), (3, 6), (3, 4), (4, 3)) for m in ('operate', 'delegate') for o in (2, 3)] + [dict(k=k, move=m, order=o) for k in ((2, 4), (4, 2), (1, 6), (6, 1), (2, 3)) for m in ('operate', 'delegate')
                    for o in ('sequential', 'simultaneous', 'semisimultaneous', 'random')],
          cover=('acted',),
          bounds='the same changes of k, an operator with 1 or 3 pools, followed by one more round in which the agents act on real profiles\' plans')
def acting_after_the_change(ctx):
    """The agents can go on under the new parameters"""
    c = ctx.cfg
    prof = ctx.mods.stakeholder_profiles
    sim = make_sim(ctx, n=3, k=list(c['k']), order=c['order'], cls=decided(ctx, 'stay'), stakes=[0.3, 0.3, 0.4],
                   costs=[1e-2, 1.5e-2, 2e-2], iterations_after_convergence=1)
    add_pool(ctx, sim, 0, 0.1, 1e-2, margin=ctx.choice('margin', (0, 0.5)), private=False,
             delegations=[(1, ctx.real('delegated', 1e-3, 0.3) if c['move'] == 'delegate' else ctx.choice('delegated', (0.1, 0.3)))])
    for j in range(1, c.get('own', 1)):
        add_pool(ctx, sim, 0, 0.1, 1e-2, margin=0.25, private=False)
    sim.step()
    ctx.check('the next phase has begun', sim.current_phase == 1)
    new = prof.NonMyopicStakeholder if c['move'] == 'delegate' else prof.MyopicStakeholder
    for a in list(sim.get_agents_list()):
        b = new(unique_id=a.unique_id, model=sim, stake=a.stake, cost=a.cost)
        b.strategy = a.strategy
        sim.schedule.remove(a)
        sim.schedule.add(b)
    sim.random = type('First', (), {'sample': lambda self, x, k: list(x)[:k], 'shuffle': lambda self, x: None})()
    sim.step()
    ctx.cover('acted')
    check_consistent(ctx, sim)
    check_rankings(ctx, sim)


@register('C16', quick=[dict(k=k, inactive=i) for k, i in (((4, 6), 0.5), (3, 0.25), ((10, 3, 7), 0.2), ((2, 4), 0), (41, 0.18), ((100, 41), 0.18))] +
                       [dict(k=k, inactive=None) for k in (1, 3, (1, 2), (3, 1))],
          thorough=[dict(k=k, inactive=i) for k in ((4, 6), 3, (10, 3, 7), (100, 200), 500, 41) for i in (0, 0.1, 0.18, 0.2, 0.25, 0.3, 0.5, 0.9)] +
                   [dict(k=k, inactive=None) for k in (1, 2, 3, 5, (1, 2), (3, 1), (2, 1, 3))],
          bounds='listed values of k and of the inactive fraction; for k up to 3 (thorough 5) any fraction from 1e-5 to 0.6')
def known_inactive_stake(ctx):
    """A known inactive fraction raises k (and lowers the saturation threshold) in every phase"""
    from fractions import Fraction
    c = ctx.cfg
    ks = c['k']
    any_fraction = c['inactive'] is None
    i = ctx.real('inactive', 1e-5, 0.6) if any_fraction else c['inactive']
    exact = i if any_fraction else Fraction(str(i))
    if any_fraction:
        for k in ks if isinstance(ks, tuple) else (ks,):
            for whole in range(k + 1, 3 * k):
                # k / (1 - i) is not so close to a whole number that rounding errors decide (the listed fractions cover that)
                ctx.assume(gt(vabs(k - whole * (1 - i)), 1e-6))
    sim = make_sim(ctx, n=2, k=list(ks) if isinstance(ks, tuple) else ks, inactive_stake_fraction=i,
                   inactive_stake_fraction_known=True, cls=decided(ctx, 'stay'), costs=[0.1, ctx.real('cost', 0.1, 1)],
                   iterations_after_convergence=1)
    for phase in range(len(ks) if isinstance(ks, tuple) else 1):
        if phase:
            sim.step()
        k = value_in(ks, phase)
        got = sim.reward_scheme.k
        ctx.check('k is raised to k / (1 - inactive), rounded down', land(is_true(got * (1 - exact) <= k), is_true(k < (got + 1) * (1 - exact))))
        ctx.check('the saturation threshold is (1 - inactive) / k', le(vabs(sim.reward_scheme.global_saturation_threshold - (1 - i) / k), 1e-12))
        check_rankings(ctx, sim)
