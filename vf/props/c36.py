"""C36  an equilibrium that is reported is one"""
from vf.props import register
from vf.props.util import *

ASSUMPTIONS = ['Writing the result files is not the subject here (see C23 and C34): they are kept in memory.',
               'Runs are followed for the stated number of rounds; runs that have not converged by then report no equilibrium, which is checked too.']


def fixed_judgement(ctx):
    """A stakeholder whose judgement is an arbitrary function of the present state: asked twice in the same state about the same
    plan it answers the same, and apart from that anything."""
    Base = ctx.mods.stakeholder.Stakeholder
    memory = {}

    def pool_key(model, p, new):
        return (p.id if p.id in model.pools else 'new%d' % new, p.owner, p.pledge, p.cost, p.margin, p.is_private)

    def state_key(model):
        return (tuple(sorted((p.id, p.owner, p.pledge, p.cost, p.margin, p.is_private, tuple(sorted(p.delegators.items()))) for p in model.pools.values())),
                model.reward_scheme.k, model.absolute_utility_threshold)

    class Judge(Base):
        def __init__(self, unique_id, model, stake, cost, strategy=None):
            super().__init__(unique_id=unique_id, model=model, stake=stake, cost=cost, strategy=strategy)
            self.rankings = model.pool_rankings

        def ask(self, *about):
            key = (self.unique_id, state_key(self.model)) + about
            if key not in memory:
                memory[key] = ctx.choice('margin', (0, 0.25)) if about[0] == 'margin' else ctx.real('judgement', -1, 1)
            return memory[key]

        def calculate_current_utility(self):
            super().calculate_current_utility()
            return self.ask('now')

        def calculate_operator_utility_from_strategy(self, strategy):
            return self.ask('operate', tuple(pool_key(self.model, p, i) for i, p in enumerate(strategy.owned_pools.values())), tuple(sorted(strategy.stake_allocations.items())))

        def calculate_delegator_utility_from_pool(self, pool, stake_allocation):
            return self.ask('delegate', pool.id, stake_allocation)

        def calculate_margins_and_utility(self, num_pools):
            return [self.ask('margin', num_pools, i) for i in range(num_pools)], self.ask('pools', num_pools)
    return Judge


def check_equilibrium(ctx, sim):
    reported = len(sim.equilibrium_steps) > sim.current_phase
    ctx.check('the run has ended', not sim.running)
    ctx.check('an equilibrium of the last phase is reported iff the run says it converged', reported == bool(sim.has_converged()) and
              (not reported or sim.current_phase == sim.total_phases - 1))
    if not reported:
        ctx.cover('none reported')
        return
    ctx.cover('reported')
    if sim.pools:
        ctx.cover('reported, with pools')
    if any(p.delegators for p in sim.pools.values()):
        ctx.cover('reported, with delegations')
    for agent in sim.get_agents_list():
        agent.update_strategy()
        ctx.check('in a reported equilibrium nobody wants to move', agent.new_strategy is None)


JUDGE = [dict(n=2, k=1, limit=2, idle=1, order=o) for o in ('random', 'sequential', 'simultaneous', 'semisimultaneous')]
JUDGE += [dict(n=2, k=1, limit=2, idle=1, order=o, start=1) for o in ('random', 'sequential', 'simultaneous', 'semisimultaneous')]
JUDGE += [dict(n=2, k=1, limit=2, idle=1, order='semisimultaneous', start=1, at_once=1), dict(n=2, k=1, limit=2, idle=2, order='random'), dict(n=3, k=1, limit=1, idle=1, order='sequential', start=1), dict(n=2, k=1, later_k=2, limit=2, idle=1, order='sequential')]


JUDGE_DEEP = [dict(n=2, k=1, limit=3, idle=i, order=o) for o in ('random', 'sequential', 'simultaneous', 'semisimultaneous') for i in (1, 2)]
JUDGE_DEEP += [dict(n=2, k=1, later_k=2, limit=3, idle=1, order='sequential'), dict(n=2, k=2, limit=2, idle=1, order='sequential', start=1)]


@register('C36', quick=JUDGE, thorough=JUDGE + JUDGE_DEEP, cover=('reported', 'none reported', 'reported, with pools', 'reported, with delegations'),
          bounds='2-3 agents with fixed stakes and any judgements, starting without pools or with one pool that has a delegator; runs of up to 2 (thorough 3) '
                 'rounds with 1-2 required idle rounds, 1-2 phases; all activation orders')
def any_judgement(ctx):
    """Whole runs of agents that judge the state in any way they like, as long as they judge the same state the same"""
    c = ctx.cfg
    n = c['n']
    sim = make_sim(ctx, n=n, k=[c['k'], c['later_k']] if 'later_k' in c else c['k'], order=c['order'], cls=fixed_judgement(ctx), stakes=[0.375, 0.625] if n == 2 else [0.25, 0.25, 0.5], costs=[0.0625, 0.125, 0.25][:n],
                   max_iterations=c['limit'], iterations_after_convergence=c['idle'])
    sim.random = SymRandom(ctx)
    if 'at_once' in c:
        sim.schedule.simultaneous_moves = c['at_once']      # otherwise five agents decide at a time
    if c.get('start'):
        add_pool(ctx, sim, 0, 0.375 if n == 2 else 0.25, 0.0625, margin=0.125, delegations=[(n - 1, 0.5)])
    if c.get('start'):
        while sim.running and sim.schedule.steps <= sim.max_iterations:     # run_model would number the pools from 1 again
            sim.step()
    else:
        sim.run_model()
    check_equilibrium(ctx, sim)


REAL = [dict(prof=p, limit=4, order=o, k=k) for p in ('non', 'my', 'mixed') for o in ('sequential', 'simultaneous') for k in (1, 2)]
REAL += [dict(prof=p, limit=3, order='sequential', n=3, k=k, most=0.5) for p, k in (('non', 1), ('non', 2), ('my', 1), ('mixed', 1))]
REAL += [dict(prof=p, limit=4, order='sequential', k=2, s=s, a0=0.25) for p, s in (('non', 0), ('my', 1), ('non', 2), ('my', 3), ('non', 4))]
REAL += [dict(prof='non', limit=3, order=o, k=1) for o in ('random', 'semisimultaneous')] + [dict(prof='mixed', limit=5, idle=2, order='sequential', k=2)]
DEEP = [dict(prof=p, limit=6, order=o, k=k, idle=i) for p in ('non', 'my', 'mixed') for o in ('sequential', 'simultaneous') for k in (1, 2, 3) for i in (1, 2)]
DEEP += [dict(prof=p, limit=4, order=o, n=3, k=k, most=0.5) for p in ('non', 'my', 'mixed') for k in (1, 2) for o in ('sequential', 'simultaneous') if (p, k) != ('my', 2)]
DEEP += [dict(prof=p, limit=4, order='sequential', k=2, s=s, a0=0.25) for p in ('non', 'my') for s in SCHEMES]
DEEP += [dict(prof=p, limit=4, order=o, k=k) for p in ('non', 'my') for o in ('random', 'semisimultaneous') for k in (1, 2)]


@register('C36', quick=REAL, thorough=REAL + DEEP, cover=('reported', 'reported, with pools', 'reported, with delegations'),
          bounds='2-3 agents with fixed stakes, of whom one has any cost between 0.001 and 2; k = 1..2 (thorough 3), every reward scheme; runs of up to 5 '
                 '(thorough 6) rounds with 1-2 required idle rounds; all activation orders')
def real_profiles(ctx):
    """Whole runs of myopic and non-myopic agents, with an arbitrary cost"""
    sim = real_sim(ctx, ctx.cfg)
    sim.run_model()
    check_equilibrium(ctx, sim)
