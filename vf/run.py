"""Decides one property:   python /verif/vf/run.py C01 [--tier quick|thorough] [--harness NAME] [--jobs N] [--budget S]"""
import argparse
import collections
import json
import multiprocessing as mp
import os
import shutil
import subprocess
import sys
import tempfile
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import vf  # noqa: F401
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.environ.setdefault('MPLBACKEND', 'Agg')
EVID = os.environ.get('VF_EVIDENCE', os.path.join(VERIF, 'evidence'))


class Native:
    """One server process running the unmodified code."""
    def __init__(self):
        self.p = None

    def start(self):
        if self.p is None:
            self.p = subprocess.Popen([sys.executable, os.path.join(VERIF, 'vf', 'native.py'), '--serve'],
                                      stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                      text=True, cwd='/')

    def ask(self, prop, harness, cfg, values, timeout=30):
        self.start()
        try:
            self.p.stdin.write(json.dumps({'property': prop, 'harness': harness, 'cfg': cfg, 'values': values,
                                           'timeout': timeout}) + '\n')
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        except (BrokenPipeError, OSError):
            line = ''
        if not line:
            return {'status': 'server-error', 'failed': [], 'detail': 'native server ended', 'observed': []}
        return json.loads(line)

    def stop(self):
        if self.p is not None:
            try:
                self.p.stdin.close()
                self.p.wait(5)
            except Exception:  # noqa
                self.p.kill()


def new_stats():
    return {'queries': 0, 'solver_s': 0.0, 'branches': 0, 'unknown_branches': 0, 'fallback_queries': 0,
            'concretisations': 0, 'assert_queries': 0}


def worker(conn, prop, tier, deadline, seed):
    import io
    import random
    d = tempfile.mkdtemp(prefix='vf-worker-')
    os.chdir(d)
    devnull = open(os.devnull, 'w')
    sys.stdout = devnull
    from vf import explore, props, rt, loader, sym
    hs = props.load(prop)
    mods = loader.Mods()
    iso = loader.Isolation()
    iso.take()
    nsample = collections.Counter()
    try:
        while True:
            job = conn.recv()
            if job is None:
                break
            hname, ci, prefixes, slice_s, quota = job
            h = hs[hname]
            cfg = h.configs[tier][ci]
            stats = new_stats()
            out = {'h': hname, 'ci': ci, 'paths': collections.Counter(), 'checks': collections.Counter(), 'cands': [],
                   'unknown': collections.Counter(), 'incomplete': collections.Counter(), 'covered': set(),
                   'samples': [], 'errors': [], 'stats': stats, 'maxdec': 0, 'left': [], 'entered': {}}
            opts = dict(h.opts)
            opts.update(cfg.get('_opts', {}))
            opts.update(deadline=deadline, stats=stats)
            rt.ENTERED.clear()
            t0 = time.time()
            stack = list(prefixes)
            while stack and time.time() - t0 < slice_s and time.time() < deadline:
                prefix = stack.pop()
                iso.restore()
                key = (hname, ci)
                want = nsample[key] < quota
                try:
                    r = explore.run_path(h.fn, cfg, mods, prefix, opts, want)
                except BaseException as e:  # noqa
                    import traceback
                    out['errors'].append('engine: ' + traceback.format_exc()[-1500:])
                    out['paths']['error'] += 1
                    if isinstance(e, (KeyboardInterrupt, SystemExit)):
                        raise
                    continue
                stack.extend(r.pending)
                out['paths'][r.status] += 1
                out['checks'].update(r.checks)
                for l in r.unknown:
                    out['unknown'][l] += 1
                for l in r.incomplete:
                    out['incomplete'][l] += 1
                out['covered'] |= r.covered
                out['maxdec'] = max(out['maxdec'], r.decisions)
                if r.error:
                    out['errors'].append(r.error)
                if r.sample:
                    nsample[key] += 1
                    out['samples'].append(r.sample)
                for c in r.candidates:
                    if len(out['cands']) < 12:
                        out['cands'].append(c)
                if out['cands']:
                    break
            out['left'] = stack
            out['entered'] = dict(rt.ENTERED)
            out['wall'] = time.time() - t0
            conn.send(out)
    finally:
        os.chdir('/')
        shutil.rmtree(d, ignore_errors=True)


def load_known(prop):
    path = os.path.join(VERIF, 'known-findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [e for e in json.load(f) if e.get('property') == prop and e.get('status') == 'known']


def matches_known(known, hname, cfg, label):
    for e in known:
        if e.get('harness') == hname and e.get('label') == label and \
                all(cfg.get(k) == v for k, v in e.get('config', {}).items()):
            return e
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--harness', default=None)
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VF_JOBS', '8')))
    ap.add_argument('--budget', type=float, default=None)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    budget = a.budget or (240 if tier == 'quick' else 3000)
    t_start = time.time()
    native = Native()
    native.start()
    import io
    import contextlib
    from vf import loader, props
    loader.install()
    with contextlib.redirect_stdout(io.StringIO()):
        m = loader.Mods()
        for name in ('sim', 'helper', 'batch', 'main', 'stakeholder_profiles', 'model_reporters', 'reward_schemes',
                     'pool'):
            getattr(m, name)
    hs = props.load(a.prop)
    if a.harness:
        hs = {k: v for k, v in hs.items() if k in a.harness.split(',')}
    deadline = t_start + budget
    ctx = mp.get_context('fork')
    workers = []
    njobs = max(1, a.jobs)
    for i in range(njobs):
        pc, cc = ctx.Pipe()
        p = ctx.Process(target=worker, args=(cc, a.prop, tier, deadline, seed), daemon=True)
        p.start()
        cc.close()
        workers.append([p, pc, None])
    queue = collections.deque()
    H = {}
    quota_per_harness = 24 if tier == 'quick' else 80
    for name, h in hs.items():
        cfgs = h.configs[tier]
        H[name] = {'paths': collections.Counter(), 'checks': collections.Counter(), 'unknown': collections.Counter(),
                   'incomplete': collections.Counter(), 'covered': set(), 'stats': new_stats(), 'maxdec': 0,
                   'samples': [], 'unfinished': 0, 'entered': collections.Counter(), 'configs': len(cfgs),
                   'quota': max(1, min(4, quota_per_harness // max(1, len(cfgs)))), 'percfg': collections.Counter(), 'cfgsec': collections.Counter()}
        for ci in range(len(cfgs)):
            queue.append((name, ci, [[]]))
    pending = 0
    errors, violations, unrep, known_hits, inconclusive = [], [], [], {}, []
    known = load_known(a.prop)
    validated = disagreements = 0
    sample_notes = []
    seen_labels = collections.Counter()
    sample_queue = []

    def absorb(o):
        name, ci = o['h'], o['ci']
        g = H[name]
        for k in ('paths', 'checks', 'unknown', 'incomplete'):
            g[k].update(o[k])
        g['covered'] |= o['covered']
        for k, v in o['stats'].items():
            g['stats'][k] += v
        g['maxdec'] = max(g['maxdec'], o['maxdec'])
        g['entered'].update(o['entered'])
        g['percfg'][ci] += sum(o['paths'].values())
        g['cfgsec'][ci] += o['wall']
        errors.extend(o['errors'][:3])
        cfg = hs[name].configs[tier][ci]
        for s in o['samples']:
            sample_queue.append((name, ci, s))
        for label, detail, values in o['cands']:
            key = (name, ci, label)
            if any(v['key'] == key for v in violations) or seen_labels[(name, label, 'tried')] > (2 if label == 'terminates' else 24):
                continue
            seen_labels[(name, label, 'tried')] += 1
            ans = native.ask(a.prop, name, cfg, values, 60 if label == 'terminates' else 30)
            if label in ans['failed']:
                e = matches_known(known, name, cfg, label)
                if e is not None:
                    known_hits[e['id']] = e
                    continue
                violations.append({'key': key, 'harness': name, 'cfg': cfg, 'label': label, 'values': values,
                                   'detail': ans['detail'] or detail, 'failed': ans['failed']})
            else:
                unrep.append({'key': key, 'harness': name, 'cfg': cfg, 'label': label, 'values': values,
                              'detail': detail, 'native': {k: ans[k] for k in ('status', 'failed', 'detail')}})
        return o['left']

    stop = False
    while True:
        idle = [w for w in workers if w[2] is None]
        while queue and idle and not stop and time.time() < deadline:
            name, ci, pf = queue.popleft()
            if len(pf) > 1 and len(idle) > len(queue) + 1:
                h = len(pf) // 2
                queue.appendleft((name, ci, pf[h:]))
                pf = pf[:h]
            w = idle.pop()
            w[2] = (name, ci)
            busy = len(workers) - len(idle)
            slice_s = 0.7 if len(queue) < len(workers) else 3.0
            try:
                w[1].send((name, ci, pf, slice_s, H[name]['quota']))
            except (BrokenPipeError, OSError):
                errors.append('worker ended unexpectedly')
                w[2] = 'dead'
        active = [w for w in workers if w[2] is not None and w[2] != 'dead']
        if not active:
            break
        ready = mp.connection.wait([w[1] for w in active], timeout=5)
        for w in active:
            if w[1] in ready:
                try:
                    o = w[1].recv()
                except (EOFError, OSError):
                    errors.append('worker ended unexpectedly while exploring %s' % (w[2],))
                    w[2] = 'dead'
                    continue
                w[2] = None
                left = absorb(o)
                if left:
                    # the oldest prefixes are the shallowest: hand those out first
                    queue.append((o['h'], o['ci'], left))
                if violations:
                    stop = True
        if time.time() > deadline + 60:
            break
    for name, ci, pf in queue:
        H[name]['unfinished'] += len(pf)
    for w in workers:
        try:
            if w[2] is None:
                w[1].send(None)
        except (BrokenPipeError, OSError):
            pass
    # validation of explored paths against the implementation
    sample_list = []
    if not violations:
        for name, ci, (values, obs) in sample_queue[:400 if tier == 'thorough' else 120]:
            if time.time() > deadline + 30:
                break
            cfg = hs[name].configs[tier][ci]
            ans = native.ask(a.prop, name, cfg, values)
            if ans['status'] in ('server-error', 'harness-error'):
                errors.append('native run: ' + ans['detail'][-600:])
                continue
            from vf import explore
            if ans['failed'] or not obs_equal(obs, ans['observed']):
                disagreements += 1
                sample_notes.append({'harness': name, 'config': cfg, 'inputs': explore.readable(values),
                                     'failed_natively': ans['failed'], 'symbolic': obs, 'native': ans['observed']})
            elif ans['status'] == 'done':
                validated += 1
                if len(sample_list) < 6 and sum(1 for s in sample_list if s['harness'] == name) < 2:
                    sample_list.append({'harness': name, 'config': clean(cfg), 'inputs': explore.readable(values),
                                        'observed': ans['observed'][:6], 'assertions': ans.get('checked', 0)})
    native.stop()
    for w in workers:
        w[0].join(0.5)
        if w[0].is_alive():
            w[0].terminate()
    # vacuity
    vacuous = []
    exhaustive = not violations and not unrep
    for name, g in H.items():
        h = hs[name]
        if not violations:
            if g['unfinished'] or g['unknown'] or g['incomplete'] or g['paths'].get('budget') or \
                    g['paths'].get('unsupported') or g['stats']['unknown_branches']:
                exhaustive = False
                inconclusive.append('%s: %s' % (name, json.dumps({
                    'unexplored': g['unfinished'], 'unknown': dict(g['unknown']), 'incomplete': dict(g['incomplete']),
                    'unknown_branches': g['stats']['unknown_branches']})))
            if not g['checks']:
                vacuous.append('%s: no assertion reached' % name)
            for c in h.cover:
                if c not in g['covered'] and not g['unfinished']:
                    vacuous.append('%s: never reached: %s' % (name, c))
            for ci in range(len(h.configs[tier])):
                if g['percfg'][ci] == 0 and not g['unfinished']:
                    vacuous.append('%s: configuration %d not explored' % (name, ci))
    wall = time.time() - t_start
    tot = new_stats()
    for g in H.values():
        for k in tot:
            tot[k] += g['stats'][k]
    functions = sorted({f for g in H.values() for f in g['entered']})
    states = sum(g['paths'].get('done', 0) + g['paths'].get('exception', 0) for g in H.values())
    evidence = {
        'property': a.prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': states,
            'transitions': tot['branches'],
            'traces_validated_against_impl': validated,
            'samples': sample_list or [clean_v(v) for v in violations[:3]] or ['none'],
            'exhaustive': bool(exhaustive),
            'explanation': 'states = feasible execution paths of the real code enumerated by the solver (each stands '
                           'for every input satisfying its path condition); transitions = symbolic branch decisions '
                           'resolved by z3; traces validated = path models re-run on the uninstrumented code with '
                           'equal observations and no failing assertion.',
            'assertions_evaluated': sum(sum(g['checks'].values()) for g in H.values()),
            'solver_queries': tot['queries'], 'assertion_queries': tot['assert_queries'],
            'fallback_queries': tot['fallback_queries'], 'solver_seconds': round(tot['solver_s'], 2),
            'functions_encoded': functions,
            'harnesses': {n: {'what': hs[n].note, 'bounds': hs[n].bounds, 'configurations': g['configs'],
                              'paths': dict(g['paths']), 'assertions': dict(g['checks']),
                              'max_branches_on_a_path': g['maxdec'], 'unexplored_prefixes': g['unfinished'],
                              'unknown_assertions': dict(g['unknown']), 'incomplete': dict(g['incomplete']),
                              'covered': sorted(g['covered'])} for n, g in H.items()},
            'inconclusive': inconclusive,
            'path_models_with_rounding_disagreement': disagreements,
            'unreproduced_candidates': len(unrep),
        },
        'assumptions': assumptions(a.prop),
        'wall_s': round(wall, 2), 'violations': len(violations),
    }
    os.makedirs(EVID, exist_ok=True)
    if not a.harness:
        with open(os.path.join(EVID, a.prop + '.json'), 'w') as f:
            json.dump(evidence, f, indent=1, default=str)
    elif a.v:
        print(json.dumps(evidence['coverage'], indent=1, default=str)[:6000])
    print('%s tier=%s paths=%d branches=%d assertions=%d queries=%d solver=%.1fs validated=%d disagreements=%d '
          'exhaustive=%s wall=%.1fs' % (a.prop, tier, states, tot['branches'],
                                        evidence['coverage']['assertions_evaluated'], tot['queries'], tot['solver_s'],
                                        validated, disagreements, exhaustive, wall))
    if a.v:
        for n, g in H.items():
            print('  ', n, dict(g['paths']), 'unfinished', g['unfinished'], 'maxdec', g['maxdec'], 'covered',
                  sorted(g['covered']), 'solver %.1f' % g['stats']['solver_s'], 'queries', g['stats']['queries'])
            if len(g['cfgsec']) > 1:
                for ci, sec in g['cfgsec'].most_common(5):
                    print('       %6.1f s %6d paths  %s' % (sec, g['percfg'][ci], clean(hs[n].configs[tier][ci])))
        for s in sample_notes[:3]:
            print('   disagreement:', json.dumps(s, default=str)[:1500])
    for line in inconclusive:
        print('INCONCLUSIVE ' + line[:600])
    for e in known_hits.values():
        print('KNOWN-FINDING: property=%s %s' % (a.prop, e['what']))
    for v in violations[:3]:
        p = os.path.join(EVID, '%s-replay-%s.json' % (a.prop, v['harness']))
        with open(p, 'w') as f:
            json.dump({'property': a.prop, 'harness': v['harness'], 'cfg': v['cfg'], 'values': v['values'],
                       'label': v['label'], 'rerun': '%s %s %s' % (sys.executable,
                                                                  os.path.join(VERIF, 'vf', 'native.py'), p)}, f)
        from vf import explore
        print('  %s config=%s broken: %s  inputs=%s' % (v['harness'], json.dumps(clean(v['cfg'])), v['failed'],
                                                        json.dumps(explore.readable(v['values']))[:700]))
        if v['detail'] and v['detail'] != 'assertion':
            print('  ' + v['detail'][-800:].replace('\n', '\n  '))
        print('VIOLATION property=%s replay=%s' % (a.prop, p))
    if violations:
        return 1
    bad = False
    for e in errors[:3]:
        print('ERROR ' + str(e)[:1800])
        bad = True
    for u in unrep[:3]:
        # a model of the encoding that the real code does not confirm is no violation; the path counts as undecided
        from vf import explore
        print('INCONCLUSIVE counterexample did not reproduce: %s %s %s inputs=%s native=%s' % (
            u['harness'], json.dumps(clean(u['cfg'])), u['label'], json.dumps(explore.readable(u['values']))[:900],
            json.dumps(u['native'])[:600]))
        if u['detail'] != 'assertion':
            print(u['detail'][-700:])
    for v in vacuous[:5]:
        print('ERROR vacuous: ' + v)
        bad = True
    return 2 if bad else 0


def clean(cfg):
    return {k: v for k, v in cfg.items() if not k.startswith('_')}


def clean_v(v):
    from vf import explore
    return {'harness': v['harness'], 'config': clean(v['cfg']), 'broken': v['failed'],
            'inputs': explore.readable(v['values'])}


def assumptions(prop):
    import importlib
    m = importlib.import_module('vf.props.' + prop.lower())
    return list(getattr(m, 'ASSUMPTIONS', [])) + COMMON


COMMON = [
    'Python floats are modelled as exact reals and float literals by their exact rational value; assertions carry a '
    'tolerance of 1e-9 (5e-10 when replayed on doubles), so effects of rounding below that are outside the claim '
    '(except where a harness uses IEEE doubles).',
    'Trusted: z3, CPython, the AST instrumentation and builtin models of vf/rt.py (validated by replaying path models '
    'on the uninstrumented code).',
]


def obs_equal(a, b, tol=1e-6):
    if len(a) != len(b):
        return False
    return all(x[0] == y[0] and val_equal(x[1], y[1], tol) for x, y in zip(a, b))


def val_equal(x, y, tol):
    if isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)):
        return len(x) == len(y) and all(val_equal(p, q, tol) for p, q in zip(x, y))
    if isinstance(x, (int, float)) and isinstance(y, (int, float)) and not isinstance(x, bool):
        return x == y or abs(x - y) <= tol * max(1.0, abs(x))
    return x == y


if __name__ == '__main__':
    import multiprocessing.connection  # noqa
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
