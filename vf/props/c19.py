"""C19  every agent gets exactly one turn per round, under every activation order"""
from vf.props import register
from vf.props.util import *

ASSUMPTIONS = ['Shuffles and samples may come out in any way.']


class Turned:
    """Shuffles and samples that start anywhere in the list, and run to either side"""

    def __init__(self, ctx):
        self.ctx = ctx

    def sample(self, population, k, **kw):
        xs = list(population)
        i = self.ctx.choice('start', range(len(xs))) if len(xs) > 1 else 0
        xs = xs[i:] + xs[:i]
        return (xs[::-1] if self.ctx.bool('backwards') else xs)[:k]

    def shuffle(self, xs):
        xs[:] = self.sample(xs, len(xs))


def with_recorders(ctx, n, order, moves=True, one_mover=False):
    log = []
    sim = make_sim(ctx, n=n, k=2, order=order)
    Base = ctx.mods.stakeholder.Stakeholder

    class Recorder(Base):
        """Decides to move or not; notes when it decides and when it carries out what it decided"""

        def update_strategy(self):
            log.append(('decide', self.unique_id))
            self.new_strategy = ctx.mods.strategy.Strategy() if moves[self.unique_id] else None

        def execute_strategy(self):
            log.append(('carry out', self.unique_id))
            self.strategy, self.new_strategy = self.new_strategy, None
    if one_mover:
        mover = ctx.choice('mover', range(n))
        moves = {i: i == mover for i in range(n)}
    else:
        moves = {i: moves and ctx.bool('moves%d' % i) for i in range(n)}
    for a in list(sim.get_agents_list()):
        sim.schedule.remove(a)
        sim.schedule.add(Recorder(unique_id=a.unique_id, model=sim, stake=a.stake, cost=a.cost))
    sim.random = SymRandom(ctx)
    sim.iterations_after_convergence = 99
    return sim, log, moves


@register('C19', quick=[dict(order=o, n=n) for o in ('random', 'sequential', 'simultaneous', 'semisimultaneous') for n in (1, 2, 3, 4)] +
                       [dict(order='semisimultaneous', n=n, group=g) for n, g in ((1, 2), (3, 1), (4, 2), (4, 3), (3, 4))] +
                       [dict(order=o, n=n, turned=True) for o, n in (('random', 11), ('semisimultaneous', 5), ('semisimultaneous', 7))],
          thorough=[dict(order=o, n=n) for o in ('random', 'sequential', 'simultaneous', 'semisimultaneous') for n in (1, 2, 3, 4, 5)] +
                   [dict(order='semisimultaneous', n=n, group=g) for n in (1, 2, 3, 4) for g in (1, 2, 3, 4, 5)] +
                   [dict(order='semisimultaneous', n=6, group=4)],
          cover=('a move', 'no move'),
          bounds='1-4 (thorough 6) agents, each of which moves or not; groups of 1-5; any outcome of shuffling and sampling; one round; '
                 'with 5, 7 and 11 agents one mover, and draws that are rotations')
def one_round(ctx):
    """Who decides and who acts in a round, and in which sequence"""
    c = ctx.cfg
    n, order = c['n'], c['order']
    sim, log, moves = with_recorders(ctx, n, order, one_mover=c.get('turned'))
    if c.get('turned'):
        sim.random = Turned(ctx)
    group = 1
    if order == 'simultaneous':
        group = n
    if order == 'semisimultaneous':
        group = 5
        if 'group' in c:
            group = sim.schedule.simultaneous_moves = c['group']
    steps = sim.schedule.steps
    sim.step()
    decided = [i for what, i in log if what == 'decide']
    acted = [i for what, i in log if what == 'carry out']
    ctx.cover('a move' if acted else 'no move')
    ctx.check('every agent decides exactly once', sorted(decided) == list(range(n)))
    ctx.check('exactly those who decided to move do, once', sorted(acted) == [i for i in range(n) if moves[i]])
    ctx.check('a round counts as one step', sim.schedule.steps == steps + 1)
    if order in ('sequential', 'simultaneous'):
        ctx.check('a fixed order is kept', decided == list(range(n)))
    # nobody acts before the own group has decided; a group has acted before the next one decides
    want = []
    for g in range(0, n, group):
        members = decided[g:g + group]
        want += [('decide', i) for i in members] + [('carry out', i) for i in members if moves[i]]
    norm = lambda seq: seq if group == 1 else blocks(seq)
    ctx.check('agents of a group decide before any of them acts, and act before the next group decides', norm(log) == norm(want))
    ctx.check('an idle round is one in which nobody moved', sim.consecutive_idle_steps == (0 if acted else 1))


def blocks(seq):
    """The sequence, up to the order within each block of decisions and of actions"""
    out = []
    for what, i in seq:
        if out and out[-1][0] == what:
            out[-1][1].append(i)
        else:
            out.append((what, [i]))
    return [(w, sorted(m)) for w, m in out]


@register('C19', quick=[dict(order='random', n=3), dict(order='semisimultaneous', n=3, group=2)],
          thorough=[dict(order='random', n=n) for n in (2, 3, 4)] + [dict(order='semisimultaneous', n=n, group=g) for n in (2, 3, 4) for g in (1, 2, 3)],
          cover=('different draws', 'same draws'),
          bounds='3 (thorough 2-4) agents; any two draws')
def the_draw_decides(ctx):
    """Under random order the sequence of turns is decided by the draw, and by nothing else"""
    c = ctx.cfg
    turns, drawn = [], []
    for _ in range(2):
        sim, log, moves = with_recorders(ctx, c['n'], c['order'], moves=False)
        if 'group' in c:
            sim.schedule.simultaneous_moves = c['group']
        sim.step()
        turns.append(log)
        drawn.append([x for d in sim.random.log for x in d])
    ctx.cover('same draws' if drawn[0] == drawn[1] else 'different draws')
    ctx.check('the sequence of turns is decided by the draw', (turns[0] == turns[1]) == (drawn[0] == drawn[1]))
