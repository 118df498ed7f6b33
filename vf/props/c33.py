"""C33  every run has a folder and a number of its own, also side by side and after a crash"""
import builtins
import csv
import io
import os
import pathlib
import threading

from vf.props import register
from vf.props.util import *
from vf.props.c27 import Desk

ASSUMPTIONS = ['What a process has written to a file reaches the disk when the file is closed or flushed, as a whole; files and folders are otherwise real. '
               'Processes that run side by side take turns at the operations on the files they share.',
               'Batches start their worker processes with multiprocessing.Pool (imap_unordered, as the code does, or a relative of it).']


class Crash(BaseException):
    """The process is gone"""


class Disk:
    """Real files below the working directory; `before(what, path)` is called ahead of every operation that others can notice"""

    def __init__(self, ctx, before):
        self.before, self.files, self.gone = before, [], False
        self.home = os.getcwd()
        opened = builtins.open

        def open_(file, *a, **k):
            if not isinstance(file, (str, os.PathLike)) or not self.here(file):
                return opened(file, *a, **k)
            self.op('open', file)
            f = File(self, opened(file, *a, **k), file)
            self.files.append(f)
            return f
        ctx.patch(builtins, 'open', open_)
        ctx.patch(io, 'open', open_)
        for name in ('link', 'rename', 'replace', 'remove', 'unlink', 'mkdir', 'symlink', 'rmdir', 'truncate'):
            self.watch(ctx, os, name)
        import fcntl
        for name in ('flock', 'lockf'):
            self.lock(ctx, fcntl, name)

    def here(self, path):
        return os.path.abspath(os.fspath(path)).startswith(self.home)

    def op(self, what, path):
        if self.gone:
            raise Crash()
        self.before(what, os.path.relpath(os.fspath(path), self.home))

    def watch(self, ctx, module, name):
        original = getattr(module, name)

        def call(path, *a, **k):
            if isinstance(path, (str, os.PathLike)) and self.here(path):
                # the last path is the one that appears
                self.op(name, ([p for p in a if isinstance(p, (str, os.PathLike))] or [path])[-1])
            return original(path, *a, **k)
        ctx.patch(module, name, call)

    def lock(self, ctx, module, name):
        original = getattr(module, name)
        import fcntl

        def call(f, operation, *a):
            path = getattr(f, 'path', None)
            if path is not None:
                self.op(name, path)
            while True:
                try:
                    return original(f, operation | fcntl.LOCK_NB, *a)
                except BlockingIOError:
                    if operation & fcntl.LOCK_NB:
                        raise
                    if path is None:
                        raise RuntimeError('two processes wait for a file that is not known')
                    self.before('wait', os.path.relpath(os.fspath(path), self.home))
        ctx.patch(module, name, call)

    def crash(self):
        """The process dies: what it has not flushed is lost"""
        self.gone = True
        null = os.open(os.devnull, os.O_RDWR)
        for f in self.files:
            if not f.file.closed:
                os.dup2(null, f.file.fileno())
        os.close(null)
        raise Crash()


class File:
    def __init__(self, disk, file, path):
        self.disk, self.file, self.path = disk, file, path

    def __getattr__(self, name):
        if name in ('tell', 'seek', 'flush', 'read', 'readline', 'readlines', 'truncate'):
            self.disk.op(name, self.path)
        return getattr(self.file, name)

    def close(self):
        if not self.file.closed and not self.disk.gone:
            self.disk.op('close', self.path)
        self.file.close()

    def __iter__(self):
        return iter(self.file)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class Turns:
    """Processes that take turns: at every step the solver says who goes on"""

    def __init__(self, ctx, shared):
        self.ctx, self.shared = ctx, shared
        self.main = threading.current_thread()
        self.sides, self.baton, self.over = [], threading.Semaphore(0), False

    def before(self, what, path):
        me = threading.current_thread()
        if me is self.main or not self.shared(path):
            return
        self.pause(me, 'waiting' if what == 'wait' else 'ready')

    def pause(self, me, state):
        me.state = state
        self.baton.release()
        me.go.acquire()
        if self.over:
            raise Crash()
        me.state = 'running'

    def start(self, fn, *a):
        def body():
            me = threading.current_thread()
            me.go.acquire()
            try:
                if not self.over:
                    me.result = fn(*a)
            except Crash:
                pass
            except BaseException as e:  # noqa
                me.error = e
            me.state = 'done'
            self.baton.release()
        t = threading.Thread(target=body, daemon=True)
        t.go, t.state, t.result, t.error = threading.Semaphore(0), 'ready', None, None
        self.sides.append(t)
        t.start()

    def step(self):
        """One of the processes goes on; returns it, or None if none can"""
        can = [t for t in self.sides if t.state == 'ready']
        if not can:
            if any(t.state == 'waiting' for t in self.sides):
                raise RuntimeError('the processes wait for each other')
            return None
        t = can[self.ctx.choice('next', range(len(can)))]
        t.go.release()
        self.baton.acquire()
        for other in self.sides:
            if other is not t and other.state == 'waiting':
                other.state = 'ready'        # what it waits for may be free now
        return t

    def end(self):
        self.over = True
        for t in self.sides:
            while t.is_alive():
                t.go.release()
                t.join(0.2)


def pool_of(ctx, turns):
    """Stands in for multiprocessing.Pool: its workers are processes that take turns"""
    class Pool:
        def __init__(self, *a, **k):
            pass

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

        close = join = terminate = lambda self: None

        def imap_unordered(self, fn, items, chunksize=1):
            for x in items:
                turns.start(fn, x)
            reported = []
            while len(reported) < len(turns.sides):
                for t in turns.sides:
                    if t.state == 'done' and t not in reported:
                        reported.append(t)
                        if t.error is not None:
                            raise t.error
                        yield t.result
                turns.step()

        def map(self, fn, items, chunksize=1):
            list(self.imap_unordered(fn, list(items)))
            return [t.result for t in turns.sides]

        imap = lambda self, fn, items, chunksize=1: iter(self.map(fn, items))

        def starmap(self, fn, items, chunksize=1):
            return self.map(lambda x: fn(*x), items)
    return Pool


BASE = dict(n=2, k=2, a0=0, stake_distr_source='flat', agent_activation_order='sequential', generate_graphs=False, cost_min=1e-4, cost_max=1e-3,
            iterations_after_convergence=2, max_iterations=6, metrics=[1, 2])


def everything(skip=()):
    """All files below the working directory, with their content"""
    return {str(p): p.read_bytes() for p in sorted(pathlib.Path('.').rglob('*')) if p.is_file() and p.name not in skip}


TRACKER = 'experiment-tracker.csv'
NUMBER = 'sequence.dat'


def of_a_run(path):
    """Whether it is in the folder of a run or a batch (whatever else is kept beside these folders is shared by the runs)"""
    return path.count('/') >= 2


def rows(path):
    with open(path, newline='') as f:
        return list(csv.reader(f))


def a_run(ctx, name, **kw):
    """A run from start to end, as main.py does it"""
    sim = ctx.mods.sim.Simulation(execution_id=name, seed=1, **dict(BASE, **kw))
    sim.run_model()
    return sim


def a_batch(ctx, name, parameters=None, **kw):
    p = {k: v for k, v in BASE.items() if k != 'metrics'}
    p.update(metrics=((1, 2),), k=(1, 2))
    p.update(parameters or {})
    return ctx.mods.batch.custom_batch_run(ctx.mods.sim.Simulation, p, name, display_progress=False, max_steps=BASE['max_iterations'], **kw)


LONG = {'a0': (0.12345678901234567, 0.3), 'pareto_param': (2.1234567890123457,), 'cost_min': (1.2345678901234567e-05,), 'cost_max': (1.2345678901234567e-04,),
        'extra_pool_cost_fraction': (0.41234567890123456,), 'relative_utility_threshold': (1.2345678901234567e-08,),
        'absolute_utility_threshold': (1.2345678901234567e-09,), 'inactive_stake_fraction': (0.12345678901234566,), 'reward_scheme': (0,), 'k': (2,)}


@register('C33', quick=[dict(runs=2), dict(runs=1, start='41'), dict(runs=1, start='999', long=True), dict(runs=2, start='9')],
          thorough=[dict(runs=r, start=s) for r in (1, 2, 3) for s in (None, '0', '9', '41', '123456')] + [dict(runs=2, start='99', long=True)],
          cover=('a run', 'a batch'),
          bounds='1-2 (thorough 3) runs or batches after one another, by the same or different names, first ever or after others; a batch of runs with ten parameters '
                 'given to seventeen digits')
def one_after_another(ctx):
    """Numbers go up by one; every run has a new folder by its number and name; nothing else is touched"""
    with Desk():
        c = ctx.cfg
        last = 0
        if c.get('start') is not None:
            last = int(c['start'])
            with open(NUMBER, 'w') as f:
                f.write(c['start'])
            os.makedirs('output/%d-mine' % last)
            with open('output/%d-mine/notes.txt' % last, 'w') as f:
                f.write('kept')
        tracked = 0
        for i in range(c['runs']):
            ctx.as_new_process()
            before = everything()
            folders = set(os.listdir('output')) if os.path.exists('output') else set()
            name = ctx.choice('name', ('mine', 'yours') if i else ('mine',))
            batch = ctx.bool('batch') or c.get('long')
            ctx.cover('a batch' if batch else 'a run')
            runs = 1
            if batch:
                results, path = a_batch(ctx, name, LONG if c.get('long') else None)
                runs = len(results)
            else:
                a_run(ctx, name)
            last += 1
            with open(NUMBER) as f:
                ctx.check('the serial number goes up by one', f.read() == str(last))
            new = set(os.listdir('output')) - folders - {TRACKER}
            ctx.check('there is one new folder, by number and name', new == {'%d-%s' % (last, name)})
            home = 'output/%d-%s' % (last, name)
            if batch:
                inner = sorted(p for p in os.listdir(home) if os.path.isdir(home + '/' + p))
                ctx.check('a batch has a folder for every run', len(inner) == runs)
                ctx.check('they go by number', sorted(p.split('-')[0] for p in inner) == sorted(str(j + 1) for j in range(runs)))
                table = rows(home + '/aggregate-results-%d-%s.csv' % (last, name))
                ctx.check('a batch has a file of results with a line for every run', len(table) == runs + 1)
                inner = [home + '/' + p for p in inner]
            else:
                inner = [home]
            for d in inner:
                files = os.listdir(d)
                for what in ('args.json', 'initial-state-descriptors.json', 'metrics.csv', 'final-state-descriptors.json', 'simulation-object.pkl'):
                    ctx.check('every run has its files', what in files)
                for what in ('final-state-pools', 'final-state-stakeholders'):
                    ctx.check('every run has its files', len([f for f in files if f.startswith(what) and f.endswith('.csv')]) == 1)
            after = everything()
            for p, content in before.items():
                if os.path.basename(p) == TRACKER:
                    ctx.check('the list of experiments is only added to', after[p].startswith(content))
                elif of_a_run(p):
                    ctx.check('what was there stays as it was', after.get(p) == content)
            for p in after:
                ctx.check('nothing is written to folders of others', p in before or p.startswith(home + '/') or not of_a_run(p))
            tracked += runs
            table = rows('output/' + TRACKER)
            ctx.check('one line in the list of experiments for every run', len(table) == tracked + 1 and [r[0] for r in table].count('id') == 1)


@register('C33', quick=[dict(what='run'), dict(what='batch'), dict(what='member')], cover=('taken', 'free'),
          bounds='a run, a batch or a run by the recorded parameters of an earlier one, when the folder it would write to may be there already (the file with the last '
                 'serial number may have been lost)')
def no_overwriting(ctx):
    """Results that are there are never overwritten, even if the serial number starts anew"""
    with Desk():
        what = ctx.cfg['what']
        if what == 'member':
            a_batch(ctx, 'mine')
            kw = dict(parent_dir=pathlib.Path('output/1-mine').absolute(), seq_id=1)
            name = sorted(p for p in os.listdir('output/1-mine') if os.path.isdir('output/1-mine/' + p))[0][2:]
        else:
            (a_batch if what == 'batch' else a_run)(ctx, 'mine')
            kw, name = {}, 'mine'
        if ctx.bool('the number is lost'):
            os.remove(NUMBER)
        if ctx.bool('under another name'):
            name = 'yours'
        ctx.as_new_process()
        before = everything()
        try:
            (a_batch if what == 'batch' else a_run)(ctx, name, **kw)
            ctx.cover('free')
        except OSError:
            ctx.cover('taken')
        after = everything()
        for p, content in before.items():
            if os.path.basename(p) == TRACKER:
                ctx.check('the list of experiments is only added to', after[p].startswith(content))
            elif of_a_run(p):
                ctx.check('what was there stays as it was', after.get(p) == content)
        ctx.check('files are only added to new folders', not {os.path.dirname(p) for p in after if p not in before and of_a_run(p)} & {os.path.dirname(p) for p in before})


def crashing(ctx, label, earlier):
    """Something is interrupted at any operation on a file, then a run follows"""
    if earlier:
        a_run(ctx, 'mine')
        ctx.as_new_process()
    before = everything()
    crashed = []

    def perhaps(what, path):
        if what != 'wait' and not crashed and ctx.bool('crash'):
            crashed.append((what, path))
            disk.crash()
    disk = Disk(ctx, perhaps)
    done = False
    try:
        a_batch(ctx, 'mine') if label == 'batch' else a_run(ctx, 'mine')
        done = True
    except Crash:
        pass
    ctx.undo()
    ctx.cover('crashed' if crashed else 'went through')
    ctx.check('it goes through if it is not interrupted', done != bool(crashed))
    between = everything()
    for p, content in before.items():
        if os.path.basename(p) == TRACKER:
            ctx.check('a run that is interrupted leaves the list of experiments intact', between.get(p, b'').startswith(content))
        elif p != NUMBER:
            ctx.check('a run that is interrupted leaves earlier results intact', between.get(p) == content)
    folders = set(os.listdir('output')) if os.path.exists('output') else set()
    ctx.as_new_process()
    sim = a_run(ctx, 'mine')
    least = 2 if earlier else 1
    ctx.check('the next run has a serial number of its own', least <= sim.seq_id <= least + 1 and '%d-mine' % sim.seq_id not in folders)
    after = everything()
    ctx.check('the next run is recorded', 'output/%d-mine/metrics.csv' % sim.seq_id in after)
    for p, content in between.items():
        if of_a_run(p):
            ctx.check('the next run leaves everything else as it was', after.get(p) == content)
    table = rows('output/' + TRACKER)
    ctx.check('the list of experiments has one header and whole lines', [r[0] for r in table].count('id') == 1 and table[0][0] == 'id' and
              all(len(r) == len(table[0]) for r in table))
    ctx.check('the next run is on the list', len([r for r in table if r[0] == str(sim.seq_id)]) == 1)


@register('C33', quick=[dict(what='run', earlier=0), dict(what='run', earlier=1), dict(what='batch', earlier=1)],
          thorough=[dict(what=w, earlier=e) for w in ('run', 'batch') for e in (0, 1)],
          cover=('crashed', 'went through'),
          bounds='a run of 2 agents or a batch of two such runs, interrupted before any one of its operations on files, as the first or after another; then another run')
def interrupted(ctx):
    """After a crash at any point, earlier results are intact and the next run works, with a number of its own"""
    with Desk():
        crashing(ctx, ctx.cfg['what'], ctx.cfg['earlier'])


@register('C33', quick=[dict(shared='aggregate', runs=2), dict(shared='tracker', runs=2), dict(shared='tracker', runs=2, listed=True)],
          thorough=[dict(shared=s, runs=2, listed=l) for s in ('aggregate', 'tracker', 'any') for l in (False, True)] + [dict(shared='aggregate', runs=3)],
          cover=('in parallel',),
          bounds='2 (thorough 3) runs of a batch in parallel; any interleaving of their operations on the results file, or on the list of experiments (thorough: on all '
                 'shared files)')
def side_by_side(ctx):
    """However the runs of a batch interleave, the files they share have one header and one whole line for each"""
    c = ctx.cfg
    with Desk():
        listed = 0
        if c.get('listed'):
            a_run(ctx, 'mine')
            listed = 1
            ctx.as_new_process()
        word = {'aggregate': 'aggregate-results', 'tracker': TRACKER, 'any': ''}[c['shared']]
        # what is in a run's own folder is shared with nobody
        turns = Turns(ctx, lambda path: word in os.path.basename(path) and len(pathlib.PurePath(path).parts) <= 3 and not os.path.isdir(path))
        Disk(ctx, turns.before)
        ctx.patch(ctx.mods.batch, 'Pool', pool_of(ctx, turns))
        try:
            results, path = a_batch(ctx, 'mine', dict(k=tuple(range(1, c['runs'] + 1))), number_processes=c['runs'])
        finally:
            turns.end()
        ctx.undo()
        ctx.cover('in parallel')
        ctx.check('one result for every run', sorted(r['seq_id'] for r in results) == list(range(1, c['runs'] + 1)))
        for table, more in ((rows(next(pathlib.Path(path).glob('aggregate-results*.csv'))), 0), (rows('output/' + TRACKER), listed)):
            ctx.check('there is a header, at the top and nowhere else', [r for r in table if r and r[0] in ('Step', 'id')] == table[:1])
            ctx.check('there is one whole line for every run', len(table) == 1 + more + c['runs'] and all(len(r) == len(table[0]) for r in table))
