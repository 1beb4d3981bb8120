"""Executes behaviours of specs/SpreadGen.tla: distributions of displacements by the real code."""
import os, tempfile, shutil
import numpy as np
import dlib, toytraj

NAMES = 'ABCDEI'
STEPS = 7


def make(c):
    import dynaphopy
    from dynaphopy.dynamics import Dynamics
    return dynaphopy.Quasiparticle(Dynamics(structure=toytraj.structure(c['name']), trajectory=np.array(c['raw'], complex) / toytraj.U,
                                            time=np.array(c['times']['cart'], float) / 100, supercell=np.array(c['H'], float) / toytraj.U))


def counts(dist, w, sizes):
    """counts of the bins; whether they are whole numbers"""
    x = np.array([np.asarray(d, float) * w * m for d, m in zip(dist, sizes)])
    r = np.rint(np.nan_to_num(x, nan=-1)).astype(int)
    return r.tolist(), bool(np.abs(x - r).max() < 1e-5)


def one(crystals, beh, wd):
    q, c, ev, n = None, None, [], 0
    for e in beh:
        e = dict(e, died=False, count=[], place=[], exact=True, file=[], x=[], filexact=True)
        op, v = e['op'], e['v']
        try:
            if op == 'make':
                c = crystals[v[0] - 1]
                q = make(c)
                q.parameters.number_of_bins_histogram = 30        # (the parameters of a process are shared)
                n = STEPS
            elif op == 'crop':
                q.crop_trajectory(v[0])
                n = min(n, v[0])
            elif op == 'bins':
                q.parameters.number_of_bins_histogram = v[0]
            else:
                d, x = q.get_atomic_displacements(v)
                w, unit = x[1] - x[0], toytraj.U * np.sqrt(np.dot(v, v)) * 1000
                sizes = [n * c['type'].count(k + 1) for k in range(c['ntypes'])]
                e['count'], e['exact'] = counts(d, w, sizes)
                e['place'] = np.rint(np.array(x) * unit).astype(int).tolist()
                f = os.path.join(wd, 'f.dat')
                q.write_atomic_displacements(v, f)
                t = np.loadtxt(f, ndmin=2)
                e['x'] = np.rint(t[:, 0] * unit).astype(int).tolist()
                e['file'], e['filexact'] = counts(t[:, 1:].T, w, sizes)
        except SystemExit as x:
            e['died'], e['why'] = True, 'exit'
        except Exception as x:
            e['died'], e['why'] = True, '%s: %s' % (type(x).__name__, str(x)[:200])
        ev.append(e)
    return dict(events=ev)


def chunk(crystals, todo):
    wd = tempfile.mkdtemp()
    try:
        with dlib.quiet():
            return [one(crystals, b, wd) for b in todo]
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def run(job):
    import dynaphopy
    crystals = [toytraj.toy(n, STEPS, job['seed'] + k) for k, n in enumerate(NAMES)]
    parts = [(crystals, job['behaviours'][k::14]) for k in range(14)]
    tr, lost = [], []
    for a, (how, v) in zip(parts, dlib.fork_map(chunk, parts, workers=7, timeout=800)):
        if how == 'ok':
            tr += v
        else:
            lost.append(str(v)[-500:])
    return dict(traces=tr, lost=lost, crystals=[{k: c[k] for k in ('raw', 'pos', 'H', 'type', 'ntypes')} for c in crystals])


if __name__ == '__main__':
    dlib.main(run)
