"""Replays concrete inputs against the unmodified code of /repo (plain import, plain floats).

  python native.py --serve            length-prefixed JSON requests on stdin, answers on stdout (used by the checks)
  python native.py REPLAY.json        re-runs a reported violation and says whether it reproduces
"""
import json
import os
import resource
import signal
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import vf  # noqa
REPO = os.environ.get('VF_REPO', '/repo')
sys.path.insert(0, REPO)
os.environ.setdefault('MPLBACKEND', 'Agg')


class Late(BaseException):
    pass


def on_alarm(sig, frame):
    raise Late()


def scratch():
    d = tempfile.mkdtemp(prefix='vf-native-')
    os.chdir(d)
    return d


def run_one(req):
    from vf import explore, props
    from vf.loader import Mods
    h = props.harness(req['property'], req['harness'])
    import io
    import contextlib
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return explore.run_native(h.fn, tupled(req['cfg']), Mods(), req['values'])


def tupled(x):
    """JSON turned the tuples of the configuration into lists"""
    if isinstance(x, list):
        return tuple(tupled(y) for y in x)
    return {k: tupled(v) for k, v in x.items()} if isinstance(x, dict) else x


def load_all(m):
    for name in ('sim', 'helper', 'batch', 'main', 'stakeholder_profiles', 'model_reporters', 'reward_schemes', 'pool'):
        getattr(m, name)
    from vf.loader import Isolation
    Isolation().take()


def serve():
    import shutil
    out = os.dup(1)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    from vf.loader import Mods
    m = Mods()
    load_all(m)
    from vf import explore, props, sym  # noqa
    for line in sys.stdin:
        req = json.loads(line)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            d = scratch()
            signal.signal(signal.SIGALRM, on_alarm)
            signal.alarm(int(req.get('timeout', 30)))
            resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))     # an endless loop must not eat the memory
            try:
                ans = run_one(req)
            except (Late, MemoryError):
                ans = {'status': 'timeout', 'detail': 'did not return', 'failed': ['terminates'], 'observed': []}
            except BaseException as e:  # noqa
                ans = {'status': 'harness-error', 'detail': repr(e), 'failed': [], 'observed': []}
            signal.alarm(0)
            try:
                data = json.dumps(ans).encode()
            except (TypeError, ValueError) as e:
                data = json.dumps({'status': 'harness-error', 'detail': repr(e), 'failed': [], 'observed': []}).encode()
            with os.fdopen(w, 'wb') as f:
                f.write(data)
            os.chdir('/')
            shutil.rmtree(d, ignore_errors=True)
            os._exit(0)
        os.close(w)
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        os.waitpid(pid, 0)
        if not data:
            data = b'{"status": "harness-error", "detail": "child died", "failed": [], "observed": []}'
        os.write(out, data + b'\n')


def main():
    if sys.argv[1] == '--serve':
        serve()
        return
    import shutil
    req = json.load(open(sys.argv[1]))
    d = scratch()
    from vf.loader import Mods
    load_all(Mods())
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(60)
    try:
        ans = run_one(req)
    except Late:
        ans = {'detail': 'did not return within 60 s', 'failed': ['terminates']}
    finally:
        os.chdir('/')
        shutil.rmtree(d, ignore_errors=True)
    print(json.dumps({'property': req['property'], 'harness': req['harness'], 'config': req['cfg'],
                      'inputs': explore_readable(req['values'])}, indent=1))
    print(ans['detail'])
    print('failed assertions:', ans['failed'])
    sys.exit(1 if ans['failed'] else 0)


def explore_readable(v):
    from vf import explore
    return explore.readable(v)


if __name__ == '__main__':
    main()
