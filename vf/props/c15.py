"""C15  when a run ends, and what counts as convergence"""
from vf.props import register
from vf.props.util import *

ASSUMPTIONS = ['Whether an agent moves in a round is an arbitrary input; the result files are kept '
               'in memory.']


def moody(ctx, log):
    """An agent that decides to move or not at the solver's will (a move puts an equal strategy in force)"""
    Base = ctx.mods.stakeholder.Stakeholder

    class Moody(Base):
        def __init__(self, unique_id, model, stake, cost, strategy=None):
            super().__init__(unique_id=unique_id, model=model, stake=stake, cost=cost, strategy=strategy)
            self.rankings = model.pool_rankings

        def update_strategy(self):
            moves = ctx.bool('moves')
            log.append((self.model.schedule.steps, moves))
            self.new_strategy = ctx.mods.strategy.Strategy() if moves else None
    return Moody


def expected_run(log, idle_needed, phases, limit):
    """How long the run should take, given who moved when"""
    moved = {}
    for r, m in log:
        moved[r] = moved.get(r, False) or m
    phase, idle, equilibria, pivots = 0, 0, [], []
    for r in range(limit):
        idle = 0 if moved.get(r, False) else idle + 1
        if idle >= idle_needed:
            equilibria.append(r - idle_needed)
            if phase == phases - 1:
                return r + 1, phase, equilibria, pivots, True
            phase += 1
            idle = 0
            pivots.append(r + 1)
    return limit, phase, equilibria, pivots, False


def grid(tier):
    out = [dict(n=1, limit=m, idle=i, phases=p, order=o) for m, i, p, o in
           ((1, 1, 1, 'random'), (6, 1, 3, 'sequential'), (7, 2, 2, 'simultaneous'), (8, 2, 3, 'random'), (8, 3, 2, 'semisimultaneous'),
            (4, 5, 1, 'random'))]
    out += [dict(n=2, limit=4, idle=1, phases=2, order='random'), dict(n=2, limit=4, idle=2, phases=1, order='simultaneous')]
    out += [dict(n=1, limit=5, idle=1, phases=p, other=o, order='random') for p, o in ((1, 3), (3, 2), (2, 3))]
    if tier == 'thorough':
        out += [dict(n=1, limit=6, idle=1, phases=3, other=o, order='random') for o in (1, 2, 4)]
        out += [dict(n=1, limit=m, idle=i, phases=p, order=o) for m in (9, 11) for i in (1, 2, 3, 4) for p in (1, 2, 3, 4)
                for o in ('random', 'simultaneous')]
        out += [dict(n=2, limit=5, idle=i, phases=p, order=o) for i in (1, 2) for p in (1, 2)
                for o in ('random', 'sequential', 'simultaneous', 'semisimultaneous')]
    return out


@register('C15', quick=grid('quick'), thorough=grid('thorough'), cover=('converged', 'ran out of rounds', 'next phase'),
          bounds='1-2 agents; any choice of moves in runs of up to 8 (thorough 11) rounds, 1-3 (4) required idle rounds, 1-3 (4) '
                 'phases, given by one or two parameters with up to 3 (4) values; all activation orders')
def whole_run(ctx):
    """A whole run, for every way the agents can move"""
    c = ctx.cfg
    log = []
    sim = make_sim(ctx, n=c['n'], k=2, order=c['order'], cls=moody(ctx, log), max_iterations=c['limit'],
                   iterations_after_convergence=c['idle'],
                   absolute_utility_threshold=[10.0 ** -i for i in range(c['phases'])] if c['phases'] > 1 else 0,
                   relative_utility_threshold=[0.5 ** i for i in range(c['other'])] if 'other' in c else 0)
    if c['n'] > 1:
        sim.random = SymRandom(ctx) if c['order'] == 'semisimultaneous' else FixedOrder()
    files = shelf(ctx)
    sim.run_model()
    rounds, phase, equilibria, pivots, converged = expected_run(log, c['idle'], max(c['phases'], c.get('other', 1)), c['limit'])
    ctx.cover('converged' if converged else 'ran out of rounds')
    if phase:
        ctx.cover('next phase')
    ctx.check('every agent gets its turn in every round', len(log) == rounds * c['n'] or not converged)
    ctx.check('the run has exactly as many rounds as it should', sim.schedule.steps == rounds)
    ctx.check('the run has ended', not sim.running)
    ctx.check('it ended in the right phase', sim.current_phase == phase)
    ctx.check('convergence is reported iff reached', bool(sim.has_converged()) == converged)
    ctx.check('the equilibria are dated right', list(sim.equilibrium_steps) == equilibria)
    ctx.check('the changes of phase are dated right', list(sim.pivot_steps) == pivots)
    final = [(f, data) for f, data in files.documents() if 'Equilibrium reached' in data]
    tables = files.named('final-state-pools') + files.named('final-state-stakeholders') + files.named('metrics.csv')
    ctx.check('the results are written exactly once', len(final) == 1 and final[0][0].opened == 1 and len(tables) == 3 and all(f.opened == 1 for f in tables) and
              [len(f.rows()) for f in files.named('experiment-tracker')] == [2])
    ctx.check('the written result tells whether an equilibrium was reached',
              final[0][1]['Equilibrium reached'] == ('Yes' if converged else 'No'))
    ctx.check('the parameters are those of the last phase', sim.absolute_utility_threshold == (10.0 ** -min(phase, c['phases'] - 1) if c['phases'] > 1 else 0))
    if 'other' in c:
        ctx.check('so is the other one with several values', sim.relative_utility_threshold == 0.5 ** min(phase, c['other'] - 1))
    rows = len(sim.datacollector.get_model_vars_dataframe())
    ctx.check('every round was recorded', rows == rounds + (0 if converged else 1))


class FixedOrder:
    def shuffle(self, x):
        pass
