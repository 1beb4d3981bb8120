"""Spectra of several signals while they change (behaviours of specs/Channels.tla) by the real code."""
import ctypes, glob, os
import numpy as np
import dlib

DT, N, ORDER = 0.04, 301, 18
FREQ = {0: np.arange(200) * .06, 1: np.arange(200) * .06, 2: np.arange(48) * .25, 3: np.arange(48) * .25}
G = {}
SMALL = (20, 8, 20, 20)                             # the maximum entropy method takes data under 1e-6 for nothing


def signals(seed):
    rng = np.random.RandomState(seed)
    t = np.arange(N) * DT
    a = rng.normal(size=(6, N))
    one = a[0] + 2 * np.cos(2 * np.pi * 3.1 * t + 1)
    two = 3 * a[1] + .15j * a[2]                     # (one part much larger than the other)
    three = np.convolve(a[3] + 1j * a[4], np.exp(-np.arange(25) * .2) * np.exp(2j * np.pi * 4.2 * t[:25]), mode='same')
    return {0: np.zeros(N, complex), 1: one.astype(complex), 2: two, 3: three}


def set_threads(n):
    for lib in ('libgomp.so.1', 'libomp.so.5', 'libiomp5.so'):
        try:
            ctypes.CDLL(lib).omp_set_num_threads(n)
            return True
        except OSError:
            pass
    return False


def ask(alg, v, at, rng):
    from dynaphopy.power_spectrum import power_spectrum_functions
    from dynaphopy.parameters import Parameters
    p = Parameters()
    p.silent = bool(rng.randint(2))
    p.power_spectra_algorithm = alg
    p.correlation_function_step = 3
    p.integration_method = 1
    p.number_of_coefficients_mem = ORDER
    p.frequency_range = FREQ[alg][at]
    v = [np.ascontiguousarray, np.asfortranarray, lambda x: np.repeat(x, 2, axis=0)[::2]][rng.randint(3)](v)
    return np.array(power_spectrum_functions[alg][0](v, G['d'], p)).T


def setup():
    from dynaphopy.dynamics import Dynamics
    from dynaphopy.atoms import Structure
    st = Structure(cell=np.eye(3) * 4, positions=np.zeros((1, 3)), atomic_elements=['Na'], primitive_matrix=np.eye(3))
    G['d'] = Dynamics(structure=st, velocity=np.zeros((N, 1, 3), complex), time=np.arange(N) * DT, supercell=np.eye(3) * 4)


def base(seed):
    setup()
    sg = signals(seed)
    rng = np.random.RandomState(seed)
    set_threads(1)
    res, ref = [], []
    for alg in range(4):
        b = [ask(alg, sg[k][:, None], np.arange(len(FREQ[alg])), rng)[0] for k in (1, 2, 3)]
        top = float(np.max(b))
        assert top > 0 and np.isfinite(b).all(), 'no spectrum'
        ref.append(top)
        res.append([[dlib.q(x, 1e6 / top) for x in y] for y in b])
    return res, ref


def one(alg, beh, seed, ref, n):
    sg = signals(seed)
    rng = np.random.RandomState((seed * 7919 + n) % 2 ** 31)
    v, low = [sg[1], sg[2]], [0, 0]
    set_threads(1)
    ev = []
    for e in beh + [dict(op='ask', c=0, v=1)]:
        e = dict(e, died=False, obs=[], at=[])
        c = e['c'] - 1
        if e['op'] == 'double':
            v[c] = v[c] * 2
        elif e['op'] == 'shrink':
            v[c], low[c] = v[c] * 2. ** -SMALL[alg], 1
        elif e['op'] == 'dust':
            v[c], low[c] = v[c] * 2. ** -20, 20. / SMALL[alg]
        elif e['op'] == 'turn':
            v[c] = v[c] * (1j if e['v'] == 1 else -1)
        elif e['op'] == 'replace':
            v[c], low[c] = sg[e['v']], 0
        elif e['op'] == 'copy':
            v.append(v[c].copy())
            low.append(low[c])
        elif e['op'] == 'drop':
            del v[c], low[c]
        elif e['op'] == 'swap':
            v[c], v[c + 1] = v[c + 1], v[c]
            low[c], low[c + 1] = low[c + 1], low[c]
        elif e['op'] == 'threads':
            set_threads(e['v'])
        else:
            nf = len(FREQ[alg])
            at = np.arange(nf) if e['v'] == 1 else np.arange(nf // 2) if e['v'] == 2 or alg > 1 else np.arange(0, nf, 2)
            how, r = dlib.guarded(ask, alg, np.array(v).T, at, rng)
            if how == 'ok':
                e['obs'] = [[dlib.q(x, 1e6 / ref[alg] * 2. ** (2 * SMALL[alg] * l)) for x in y] for y, l in zip(r, low)]
                e['at'] = (at + 1).tolist()
            else:
                e['died'] = True
                e['why'] = r
        ev.append(e)
    return dict(alg=alg, events=ev)


def chunk(job, todo, ref):
    setup()
    return [one(alg, job['behaviours'][n], job['seed'], ref, n) for n, alg in todo]


def run(job):
    how, v = dlib.fork_map(base, [(job['seed'],)], workers=1, timeout=300)[0]
    assert how == 'ok', v
    b, ref = v
    todo = [(n, alg) for n in range(len(job['behaviours'])) for alg in range(4) if job['every'] == 1 or job['behaviours'][n][0]['op'] == 'dust' or (n + alg) % job['every'] == 0]
    parts = [(job, todo[k::16], ref) for k in range(16)]
    tr, lost = [], []
    for a, (how, v) in zip(parts, dlib.fork_map(chunk, parts, workers=4, timeout=600)):
        if how == 'ok':
            tr += v
        else:
            lost.append(str(v)[-500:])
    return dict(traces=tr, lost=lost, base=b, threads=set_threads(2))


if __name__ == '__main__':
    dlib.main(run)
