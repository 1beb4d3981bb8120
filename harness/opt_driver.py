"""Writes and reads back the options of dynaphopy.parameters.Parameters."""
import inspect
import numpy as np
import dlib


def values(v):
    """two distinct values of the type of the default"""
    if isinstance(v, (bool, np.bool_)):
        return [not v, v]
    if isinstance(v, (int, np.integer)):
        return [3, 7]
    if isinstance(v, float):
        return [0.125, 0.75]
    if isinstance(v, np.ndarray):
        return [np.linspace(1, 2, 5), np.linspace(0, 9, 4)]
    if isinstance(v, tuple):
        return [(.5, .25, 0.), (1., 2., 3.)]
    return [{'ranges': [[[0, 0, 0], [.5, 0, 0]]]}, {'ranges': [[[0, 0, 0], [0, .5, 0]]]}]


def eq(a, b):
    try:
        return type(a) is type(b) and np.shape(a) == np.shape(b) and bool(np.all(np.equal(a, b)))
    except Exception:
        return a == b


def history(h):
    from dynaphopy.parameters import Parameters
    p = Parameters()
    names = sorted(n for n, o in inspect.getmembers(Parameters, lambda o: isinstance(o, property)) if o.fset)
    tab = {}
    for n in names:
        d = getattr(p, n)
        tab[n] = [d] + values(d)

    def read():
        r = {}
        for n in names:
            st, v = dlib.guarded(getattr, p, n)
            if st == 'ok':
                t = [k for k in (1, 2, 0) if eq(v, tab[n][k])]
                if tab[n][2] is tab[n][0] and t and t[0] == 2:
                    t = [2]
                r[n] = t[0] if t else -1
            else:
                r[n] = -2
        return r
    init = read()
    ev = []
    for e in h:
        if not 1 <= e['o']:
            continue
        n = names[(e['o'] - 1) % len(names)]
        st, why = dlib.guarded(setattr, p, n, tab[n][e['v']])
        ev.append({'o': n, 'v': e['v'], 'back': read(), 'raised': st != 'ok'})
    return {'init': init, 'events': ev}


def work(job):
    r = dlib.fork_map(history, [(h,) for h in job['behaviours']], workers=4, timeout=60)
    bad = [x for x in r if x[0] != 'ok']
    if bad:
        return {'error': str(bad[0])}
    return {'traces': [x[1] for x in r]}


if __name__ == '__main__':
    dlib.main(work)
