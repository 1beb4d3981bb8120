"""Executes behaviours of specs/Wrap.tla: displacements in periodic cells by the real code."""
import numpy as np
import dlib

CELLS = {1: [[[5]], [[-8]], [[3]]],
         2: [[[4, 0], [0, 6]], [[5, 0], [3, 4]], [[2, 5], [-4, 3]], [[1, 6], [7, -2]]],
         3: [[[4, 0, 0], [0, 5, 0], [0, 0, 6]], [[6, 0, 0], [-3, 5, 0], [2, -2, 4]], [[0, 4, 0], [-5, 0, 0], [0, 0, -3]],
             [[1, 4, 4], [5, 0, 3], [3, 5, -1]], [[0, 3, 3], [3, 0, 3], [3, 3, 0]], [[7, 2, 0], [9, 7, 1], [-6, 4, 5]]]}
UNIT = .5          # exact in binary


def displacements(path, site, cell, lay):
    from dynaphopy.displacements import atomic_displacements
    t = np.array(path, float) * UNIT
    s, c = np.array(site, float) * UNIT, np.array(cell, float) * UNIT
    if lay == 0:
        t = t.astype(complex)
    elif lay == 1:                                     # one atom of several, as the trajectories are kept
        a = np.full((len(t), 3, t.shape[1]), 77.7, complex)
        a[:, 1, :] = t
        t = a[:, 1, :]
    elif lay == 2:
        c = np.asfortranarray(c)
        s = np.array([site, site], float).T[:, 0] * UNIT
    else:
        t = np.asfortranarray(t.astype(complex)) + 0.25j       # (the imaginary part does not count)
    keep = t.copy(), s.copy(), c.copy()
    r = np.array(atomic_displacements(t, s, c))
    same = all(np.array_equal(a, b) for a, b in zip(keep, (t, s, c)))
    return r, same


def relative(path, site, cell):
    from dynaphopy.atoms import Structure
    from dynaphopy.dynamics import Dynamics
    c = np.array(cell, float) * UNIT
    s = Structure(cell=c, positions=np.array([site], float) * UNIT, atomic_elements=['Na'], masses=[22.], primitive_matrix=np.eye(len(site)))
    t = np.array(path, complex)[:, None, :] * UNIT
    d = Dynamics(structure=s, trajectory=t, time=np.arange(len(path)) * .01, supercell=c)
    return np.array(d.get_relative_trajectory())[:, 0, :]


def ints(x):
    x = np.asarray(x) / UNIT
    r = np.nan_to_num(np.clip(x.real, -1e6, 1e6), nan=999999.)
    i = np.rint(r).astype(int)
    return i.tolist(), bool(np.abs(r - i).max() < 1e-6 and np.abs(x.imag).max() < 1e-12)


def one(beh):
    n, cell, site, at, path, lay, ev = 1, 0, [0], np.zeros(1, int), [], 0, []
    for e in beh + [dict(op='ask', v=[])]:
        e = dict(e, died=False, obs=[], dyn=[], exact=True, kept=True)
        op, v = e['op'], e['v']
        if op == 'dim':
            n, cell, site, at, path = v[0], 0, [0] * v[0], np.zeros(v[0], int), []
        elif op in ('step', 'hop'):
            at = at + (v[1] * np.eye(n, dtype=int)[v[0] - 1] if op == 'step' else v[1] * np.array(CELLS[n][cell][v[0] - 1]))
            path = path + [at.tolist()]
        elif op == 'site':
            site = [x + (v[1] if k == v[0] - 1 else 0) for k, x in enumerate(site)]
        elif op == 'cell':
            cell = v[0] - 1
        elif op == 'forget':
            path = []
        elif op == 'layout':
            lay = v[0]
        elif path:
            how, r = dlib.guarded(displacements, path, site, CELLS[n][cell], lay)
            if how == 'ok':
                (e['obs'], e['exact']), e['kept'] = ints(r[0]), r[1]
                how, r = dlib.guarded(relative, path, site, CELLS[n][cell])
                if how == 'ok':
                    e['dyn'], ex = ints(r)
                    e['exact'] = e['exact'] and ex
            if how != 'ok':
                e['died'], e['why'] = True, r
        ev.append(e)
    return dict(events=ev)


def chunk(todo):
    return [one(b) for b in todo]


def run(job):
    import dynaphopy
    parts = [(job['behaviours'][k::24],) for k in range(24)]
    tr, lost = [], []
    for a, (how, v) in zip(parts, dlib.fork_map(chunk, parts, workers=7, timeout=800)):
        if how == 'ok':
            tr += v
        else:
            lost.append(str(v)[-500:])
    return dict(traces=tr, lost=lost)


if __name__ == '__main__':
    dlib.main(run)
