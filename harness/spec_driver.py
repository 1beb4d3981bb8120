"""Power spectra (requests of specs/SpectraGen.tla) by the real code."""
import os
os.environ['OMP_NUM_THREADS'] = '3'
import numpy as np
import dlib
from proj_driver import crystal, STEPS

DT = 0.05


def signals(kind, n, rng):
    """three channels of Gaussian integers"""
    re, im = rng.randint(-3, 4, size=(2, n, 3))
    if kind == 'real':
        im[:] = 0
    if kind == 'imag':
        re[:] = 0
    if kind == 'zero':
        re[:, :2] = 0
        im[:, 0] = 0
    if kind == 'const':
        re[:] = re[0]
        im[:] = im[0]
    if kind == 'spike':
        k = np.arange(n) != rng.randint(n)
        re[k], im[k] = 0, 0
    if kind == 'alt':
        s = (-1) ** np.arange(n)
        re, im = re[0][None] * s[:, None], im[0][None] * s[:, None]
    return re, im


def settings(p, t, rng):
    p.silent = bool(t.get('silent', rng.randint(2)))
    p.power_spectra_algorithm = t['alg']
    p.correlation_function_step = t['inc']
    p.integration_method = t['meth']
    p.number_of_coefficients_mem = t['order']
    p.use_symmetry = False
    p.project_on_atom = t['only'] - 1 if t.get('only') else -1
    if t['alg'] > 1:                         # the division of the data follows from the resolution
        p.frequency_range = np.arange(0, 20.01, 1 / (DT * t['p']))
        at = [int(round(k * 5. * DT * t['p'])) for k in t['ks']]
    else:
        p.frequency_range = np.array([5. * k for k in t['ks']])
        at = list(range(len(t['ks'])))
    return at


def scale(t, n):
    """numbers of the specification over those of the code"""
    from dynaphopy.power_spectrum import unit_conversion
    if t['alg'] == 0:
        s = 10. * n / t['inc']
    elif t['alg'] == 1:
        s = 10. * n
    else:
        size = t['p'] if (n - 1) // t['p'] else n
        s = 100. * size * (max((n - 1) // t['p'], 1) + 1)
    return s / DT / unit_conversion


def numbers(a, s):
    return [[dlib.q(x, s) for x in row] for row in a]


def channels(t, rng):
    from dynaphopy.dynamics import Dynamics
    from dynaphopy.parameters import Parameters
    from dynaphopy.power_spectrum import power_spectrum_functions
    n = t['n']
    re, im = signals(t['kind'], n, rng)
    v = re + 1j * im
    if rng.randint(2):
        v = np.asfortranarray(v)
    d = Dynamics(structure=crystal(CR[0], 0), velocity=np.zeros((n, 2, 3), complex), time=np.arange(n) * DT, supercell=crystal(CR[0], 0).get_cell())
    p = Parameters()
    at = settings(p, t, rng)
    keep = v.copy()
    ps = power_spectrum_functions[t['alg']][0](v, d, p)
    assert (v == keep).all(), 'the data changed'
    return dict(v=[[[int(a), int(b)] for a, b in zip(re[:, c], im[:, c])] for c in range(3)], obs=numbers(np.array(ps)[at].T, scale(t, n)))


def whole(t, rng):
    import dynaphopy
    from dynaphopy.dynamics import Dynamics
    import dynaphopy.interface.phonopy_link as link
    r = CR[t['c'] - 1]
    n = len(r['F4']) * int(np.prod(t['sc']))
    big = 2 if t['alg'] == 1 else 1
    vel = rng.randint(-big, big + 1, size=(t['n'], n, 3))
    st = crystal(r, t['c'] - 1)
    d = Dynamics(structure=st, velocity=vel.astype(complex), time=np.arange(t['n']) * DT, supercell=np.dot(np.diag(t['sc']), st.get_cell()))
    q = dynaphopy.Quasiparticle(d)
    at = settings(q.parameters, t, rng)
    q.set_reduced_q_vector(np.array(t['q']) / 4.)
    ev = rng.randint(-1, 2, size=(3 * r['nt'], r['nt'], 3)) + 1j * rng.randint(-1, 2, size=(3 * r['nt'], r['nt'], 3))
    real = link.obtain_eigenvectors_and_frequencies
    link.obtain_eigenvectors_and_frequencies = lambda *a, **kw: (ev.copy(), np.arange(3. * r['nt']))
    try:
        ps = dict(full=q.get_power_spectrum_full, partials=q.get_power_spectrum_partials, wave=q.get_power_spectrum_wave_vector,
                  phonon=q.get_power_spectrum_phonon)[t['task']]()
    finally:
        link.obtain_eigenvectors_and_frequencies = real
    ps = np.array(ps)
    if ps.ndim == 1:
        ps = ps[:, None]
    s = scale(t, t['n'])
    if t['task'] in ('wave', 'phonon'):
        s *= n / float(r['nt'])
    return dict(vel=vel.tolist(), obs=numbers(ps[at].T, s),
                ev=[[[[int(x.real), int(x.imag)] for x in a] for a in m] for m in ev] if t['task'] == 'phonon' else [])


CR = []


def chunk(job, lo, hi):
    CR[:] = job['crystals']
    res = []
    for n in range(lo, hi):
        t = job['behaviours'][n]
        rng = np.random.RandomState((job['seed'] * 100003 + n) % 2 ** 31)
        how, v = dlib.guarded(channels if t['task'] == 'channels' else whole, t, rng)
        res.append(dict(t, died=False, why='', **v) if how == 'ok' else dict(t, died=True, why=v))
    return res


def run(job):
    n = len(job['behaviours'])
    step = (n + 31) // 32
    parts = [(job, k, min(n, k + step)) for k in range(0, n, step)]
    tr = []
    for a, (how, v) in zip(parts, dlib.fork_map(chunk, parts, workers=8, timeout=600)):
        tr += v if how == 'ok' else [dict(job['behaviours'][k], died=True, why=str(v)) for k in range(a[1], a[2])]
    return dict(traces=tr)


if __name__ == '__main__':
    dlib.main(run)
