"""Executes one path of a harness symbolically and discharges its assertions."""
from __future__ import annotations
import os
import sys
import time
import traceback
from fractions import Fraction

import z3

from . import sym, rt
from .sym import (State, PathEnd, Infeasible, StopPath, Budget, Unsupported, Hang, set_state, to_fraction)
import signal
from .harness import SymCtx, NativeCtx, NativeAssume, Mode, F

HERE = os.path.dirname(os.path.abspath(__file__))
ROBUST = (1e-2, 1e-4, 1e-6)


def model_values(state, model):
    out = {}
    for name, (v, kind) in state.vars.items():
        x = model.eval(v, model_completion=True)
        if kind == 'bool':
            out[name] = ['b', bool(z3.is_true(x))]
        elif kind == 'int':
            out[name] = ['i', x.as_long()]
        elif kind == 'fp':
            out[name] = ['f', fp_value(x)]
        else:
            fr = to_fraction(x)
            out[name] = ['r', str(fr.numerator), str(fr.denominator)]
    return out


def fp_value(x):
    if z3.is_fp(x):
        x = z3.simplify(x)
    if x.isNaN():
        return 'nan'
    if x.isInf():
        return '-inf' if x.isNegative() else 'inf'
    if x.isZero():
        return '-0.0' if x.isNegative() else '0.0'
    e = z3.simplify(z3.fpToReal(x))
    return repr(float(to_fraction(e)))


def decode_values(d):
    out = {}
    for k, v in d.items():
        if v[0] == 'r':
            out[k] = Fraction(int(v[1]), int(v[2]))
        elif v[0] == 'f':
            out[k] = float(v[1])
        else:
            out[k] = v[1]
    return out


def readable(d):
    out = {}
    for k, v in d.items():
        if v[0] == 'r':
            out[k] = float(Fraction(int(v[1]), int(v[2])))
        else:
            out[k] = v[1]
    return out


def innermost_owner(e):
    """'repo' if the exception was raised while executing the code under test, else 'harness'"""
    tb = e.__traceback__
    owner = 'harness'
    where = ''
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        p = os.path.abspath(fn)
        if p.startswith(os.path.join(HERE, 'props')):
            owner, where = 'harness', '%s:%d' % (os.path.basename(p), tb.tb_lineno)
        elif '/logic/' in p or os.path.basename(p) in ('custom_batchrunner.py', 'main.py', 'batch-run.py'):
            owner, where = 'repo', '%s in %s' % (os.path.basename(p), tb.tb_frame.f_code.co_name)
        tb = tb.tb_next
    return owner, where


def exc_label(e):
    owner, where = innermost_owner(e)
    return owner, 'no unexpected exception', '%s at %s' % (type(e).__name__, where)


class PathResult:
    __slots__ = ('pending', 'status', 'checks', 'candidates', 'unknown', 'incomplete', 'covered', 'sample', 'observed',
                 'error', 'decisions')


def run_path(fn, cfg, mods, prefix, opts, want_sample=False):
    """Explores exactly one path.  Returns a PathResult."""
    res = PathResult()
    res.candidates, res.unknown, res.checks, res.covered = [], [], {}, set()
    res.sample, res.observed, res.error = None, None, None
    st = State(prefix, opts)
    set_state(st)
    Mode.native = False
    ctx = SymCtx(cfg, mods, st)
    exc = None
    hang = False
    path_s = min(opts.get('path_s', 30), max(1.0, opts['deadline'] - time.time() + 5))

    def on_alarm(sig, frame):
        raise Hang()
    try:
        try:
            signal.signal(signal.SIGALRM, on_alarm)
            signal.setitimer(signal.ITIMER_REAL, path_s)
            fn(ctx)
            signal.setitimer(signal.ITIMER_REAL, 0)
            res.status = 'done'
        except Infeasible:
            res.status = 'infeasible'
        except StopPath:
            res.status = 'done'
        except Budget:
            res.status = 'budget'
        except Hang:
            res.status = 'budget'
            hang = True
            st.incomplete.append('path exceeded %.0f s' % path_s)
        except Unsupported as e:
            res.status = 'unsupported'
            st.incomplete.append('unsupported: %s' % e)
        except PathEnd:
            res.status = 'budget'
        except RecursionError as e:
            res.status = 'unsupported'
            st.incomplete.append('recursion')
        except Exception as e:  # noqa
            exc = e
            res.status = 'exception'
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            ctx.undo()
        if hang or st.too_long:
            # the path may never end: its inputs are tried on the real code, which settles it
            r, m = st.check_sat([], opts.get('check_ms', 20000))
            res.checks['terminates'] = 1
            if r == z3.sat:
                res.candidates.append(('terminates', 'did not return', model_values(st, m)))
        if res.status in ('done', 'exception', 'unsupported', 'budget'):
            try:
                discharge(ctx, st, res, opts)
                if exc is not None:
                    handle_exception(exc, ctx, st, res, opts)
            except Budget:
                res.status = 'budget'
            if want_sample and res.status == 'done' and not res.candidates:
                take_sample(ctx, st, res)
    finally:
        set_state(None)
    res.pending = st.pending
    res.incomplete = list(st.incomplete)
    res.covered = set(ctx.covered)
    res.decisions = len(st.decisions)
    return res


def discharge(ctx, st, res, opts):
    todo = []
    for label, f in ctx.checks:
        res.checks[label] = res.checks.get(label, 0) + 1
        e = f.at(0)
        if isinstance(e, sym.SymB):
            todo.append((label, f, e))
        elif not e:
            todo.append((label, f, None))
    if not todo:
        return
    ms = opts.get('check_ms', 20000)
    if all(e is not None for _, _, e in todo):
        neg = z3.Not(z3.And(*[e.e for _, _, e in todo])) if len(todo) > 1 else z3.Not(todo[0][2].e)
        opts['stats']['assert_queries'] += 1
        r, m = st.check_sat([neg], ms)
        if r == z3.unsat:
            return
    seen = set()
    for label, f, e in todo:
        if label in seen:
            continue
        conds = [] if e is None else [z3.Not(e.e)]
        opts['stats']['assert_queries'] += 1
        r, m = st.check_sat(conds, ms)
        if r == z3.unsat:
            if e is None:
                continue    # path infeasible
            continue
        if r == z3.unknown:
            res.unknown.append(label)
            continue
        seen.add(label)
        models = []
        if e is not None:
            for d in ROBUST:
                w = f.at(d)
                if isinstance(w, sym.SymB):
                    r2, m2 = st.check_sat([z3.Not(w.e)], 3000)
                elif not w:
                    r2, m2 = st.check_sat([], 3000)
                else:
                    r2, m2 = z3.unsat, None
                if r2 == z3.sat:
                    models.append(m2)
                    break
        models.append(m)
        interior = interior_model(st, conds)
        if interior is not None:
            models.insert(0, interior)
        for mm in models[:3]:
            res.candidates.append((label, 'assertion', model_values(st, mm)))


def interior_model(st, conds):
    """A model away from the boundaries of the branch conditions (ties are where doubles and reals part)."""
    cs = [shrink(c, 1e-4) for c in st.pc + list(conds)]
    cs = [c for c in cs if c is not None]
    if not cs:
        return None
    r, m = st.check_sat(cs + list(conds), 3000)
    if r == z3.sat:
        return m
    if r != z3.unsat:
        return None
    # some boundaries are forced: keep as many of the others as possible
    s = z3.Solver()
    s.set('timeout', 1500)
    s.add(*st.pc)
    s.add(*conds)
    marks = []
    for i, c in enumerate(cs):
        b = z3.Bool('__keep%d' % i)
        s.add(z3.Implies(b, c))
        marks.append(b)
    t0 = time.time()
    while marks and time.time() - t0 < 3:
        r = s.check(*marks)
        if r == z3.sat:
            return s.model()
        if r != z3.unsat:
            return None
        core = {x.get_id() for x in s.unsat_core()}
        if not core:
            return None
        # drop one constraint of the core at a time, the latest one first
        for b in reversed(marks):
            if b.get_id() in core:
                marks.remove(b)
                break
    return None


def shrink(c, d):
    """strengthen a real comparison by d"""
    neg = False
    while z3.is_not(c):
        neg = not neg
        c = c.arg(0)
    if not (z3.is_le(c) or z3.is_lt(c) or z3.is_ge(c) or z3.is_gt(c)):
        return None
    a, b = c.arg(0), c.arg(1)
    if not (z3.is_real(a) and z3.is_real(b)):
        return None
    less = z3.is_le(c) or z3.is_lt(c)
    if neg:
        less = not less
    return (b - a >= d) if less else (a - b >= d)


def handle_exception(exc, ctx, st, res, opts):
    owner, label, detail = exc_label(exc)
    res.checks[label] = res.checks.get(label, 0) + 1
    r, m = st.check_sat([], opts.get('check_ms', 20000))
    if r == z3.unsat:
        res.status = 'infeasible'
        return
    tb = ''.join(traceback.format_exception(type(exc), exc, exc.__traceback__)[-6:])
    if owner != 'repo':
        res.error = 'exception in the harness: ' + tb
        return
    if r == z3.unknown:
        res.unknown.append(label + ' (' + detail + ')')
        return
    interior = interior_model(st, [])
    if interior is not None:
        res.candidates.append((label, detail + '\n' + tb, model_values(st, interior)))
    res.candidates.append((label, detail + '\n' + tb, model_values(st, m)))


def take_sample(ctx, st, res):
    r, m = st.check_sat([])
    if r != z3.sat:
        return
    i = interior_model(st, [])
    if i is not None:
        m = i
    vals = model_values(st, m)
    obs = []
    for label, v in ctx.observed:
        obs.append((label, concrete(v, m)))
    res.sample = (vals, obs)


def concrete(v, m):
    if isinstance(v, sym.Sym):
        return float(to_fraction(m.eval(v.e, model_completion=True)))
    if isinstance(v, sym.SymB):
        return bool(z3.is_true(m.eval(v.e, model_completion=True)))
    if isinstance(v, sym.SymF):
        return fp_value(m.eval(v.e, model_completion=True))
    if isinstance(v, (list, tuple)):
        return [concrete(x, m) for x in v]
    if isinstance(v, dict):
        return sorted([[str(k), concrete(x, m)] for k, x in v.items()])
    if isinstance(v, (bool, str)) or v is None:
        return v
    try:
        return float(v)
    except (TypeError, ValueError):
        return str(v)


def native_concrete(v):
    if isinstance(v, (list, tuple)):
        return [native_concrete(x) for x in v]
    if isinstance(v, dict):
        return sorted([[str(k), native_concrete(x)] for k, x in v.items()])
    if isinstance(v, (bool, str)) or v is None:
        return v
    try:
        return float(v)
    except (TypeError, ValueError):
        return str(v)


def run_native(fn, cfg, mods, values):
    """Runs a harness on concrete inputs.  Returns a dict."""
    Mode.native = True
    ctx = NativeCtx(cfg, mods, decode_values(values))
    out = {'status': 'done', 'failed': [], 'detail': '', 'observed': []}
    try:
        fn(ctx)
    except NativeAssume:
        out['status'] = 'assume'
    except StopPath:
        pass
    except Infeasible:
        out['status'] = 'assume'
    except MemoryError:
        raise
    except Exception as e:  # noqa
        owner, label, detail = exc_label(e)
        tb = ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-8:])
        out['status'] = 'exception' if owner == 'repo' else 'harness-error'
        out['detail'] = detail + '\n' + tb
        out['failed'] = list(ctx.failed) + ([label] if owner == 'repo' else [])
        return out
    finally:
        ctx.undo()
        Mode.native = False
    out['failed'] = list(dict.fromkeys(ctx.failed))
    out['checked'] = ctx.checked
    out['observed'] = [(l, native_concrete(v)) for l, v in ctx.observed]
    return out
