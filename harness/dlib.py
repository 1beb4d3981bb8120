"""Helpers for drivers (run under the repository's interpreter)."""
import contextlib, io, json, os, pickle, select, signal, struct, sys, time, traceback

import numpy as np


def check_package():
    import dynaphopy
    pkg = os.environ['VERIF_PKG']
    assert os.path.abspath(dynaphopy.__file__).startswith(pkg), dynaphopy.__file__


@contextlib.contextmanager
def quiet():
    """Silence what the code prints (also from C)."""
    sys.stdout.flush()
    old = sys.stdout
    sys.stdout = io.StringIO()
    try:
        yield sys.stdout
    finally:
        sys.stdout = old


class Died(Exception):
    pass


def guarded(func, *a, **kw):
    """-> ('ok', value) or ('raised', text). exit() counts as a refusal."""
    try:
        with quiet():
            return 'ok', func(*a, **kw)
    except SystemExit as e:
        return 'raised', 'SystemExit(%s)' % (e.code,)
    except KeyboardInterrupt:
        raise
    except BaseException as e:
        return 'raised', '%s: %s' % (type(e).__name__, str(e)[:200])


class Forked:
    """Run func(*args) in a forked child (fresh process state); result by pickle."""

    def __init__(self, func, args, timeout):
        self.timeout = timeout
        self.deadline = None
        r, w = os.pipe()
        sys.stdout.flush(); sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            rc = 1
            try:
                os.close(r)
                try:
                    res = ('ok', func(*args))
                except BaseException as e:
                    res = ('error', '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:]))
                data = pickle.dumps(res)
                with os.fdopen(w, 'wb') as f:
                    f.write(data)
                rc = 0
            finally:
                sys.stdout.flush()
                os._exit(rc)
        os.close(w)
        self.pid, self.fd, self.buf = pid, r, b''
        self.deadline = time.time() + timeout
        self.result = None

    def done_reading(self):
        data = os.read(self.fd, 1 << 20)
        if data:
            self.buf += data
            return False
        os.close(self.fd)
        _, st = os.waitpid(self.pid, 0)
        if self.buf:
            try:
                self.result = pickle.loads(self.buf)
                return True
            except Exception:
                pass
        self.result = ('died', 'child status %s' % st)
        return True

    def kill(self):
        try:
            os.kill(self.pid, signal.SIGKILL)
        except OSError:
            pass


def fork_map(func, argss, workers=6, timeout=120):
    """Ordered results [('ok', value) | ('error', text) | ('died', text) | ('timeout', text)]."""
    argss = list(argss)
    results = [None] * len(argss)
    pending = list(range(len(argss)))[::-1]
    running = {}
    while pending or running:
        while pending and len(running) < workers:
            i = pending.pop()
            f = Forked(func, argss[i], timeout)
            running[f.fd] = (i, f)
        ready, _, _ = select.select(list(running), [], [], 1.0)
        for fd in ready:
            i, f = running[fd]
            if f.done_reading():
                results[i] = f.result
                del running[fd]
        now = time.time()
        for fd in list(running):
            i, f = running[fd]
            if now > f.deadline:
                f.kill()
                try:
                    os.close(fd)
                except OSError:
                    pass
                os.waitpid(f.pid, 0)
                results[i] = ('timeout', '%ss' % timeout)
                del running[fd]
    return results


def main(func):
    """entry point of a driver: job.json obs.json"""
    check_package()
    job = json.load(open(sys.argv[1]))
    obs = func(job)
    with open(sys.argv[2] + '.part', 'w') as f:
        json.dump(obs, f)
    os.rename(sys.argv[2] + '.part', sys.argv[2])


def q(x, scale=1000000, lim=2000000000):
    """fixed-point integer for TLC; a non-finite value is the code 2000000001"""
    x = float(np.real(x))
    if not np.isfinite(x):
        return lim + 1
    v = int(round(x * scale))
    return max(-lim, min(lim, v))


def same(a, b, rtol=1e-7, atol_rel=1e-9):
    """numerical equality of two results (arrays, nested lists, dicts)"""
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k], rtol, atol_rel) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return False
        try:
            x, y = np.array(a), np.array(b)
            if x.dtype != object and y.dtype != object:
                return same(x, y, rtol, atol_rel)
        except ValueError:
            pass
        return all(same(x, y, rtol, atol_rel) for x, y in zip(a, b))
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    x, y = np.asarray(a), np.asarray(b)
    if x.shape != y.shape:
        return False
    if x.dtype.kind in 'OSU' or y.dtype.kind in 'OSU':
        return np.array_equal(x, y)
    if not np.array_equal(np.isnan(x), np.isnan(y)):
        return False
    x, y = np.nan_to_num(x), np.nan_to_num(y)
    ref = max(np.max(np.abs(x)) if x.size else 0, np.max(np.abs(y)) if y.size else 0)
    return bool(np.all(np.abs(x - y) <= rtol * np.maximum(np.abs(x), np.abs(y)) + atol_rel * ref))
