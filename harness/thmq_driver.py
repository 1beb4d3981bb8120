"""Thermal properties of calculations (cases of specs/ThermoQ.tla) by the real code."""
import numpy as np
import dlib, crystals

h, kB, NA = 6.62607015e-22, 1.380649e-23, 6.02214076e23
ATOMS = dict(tetra=2, conv=2, mono=1)
TEMP, RANGE, FC = {1: 300., 2: 45.}, {1: ([0, 26.01], .26), 2: ([0, 7.01], .1)}, {1: 1.0, 2: 1.21}


def one(v):
    import dynaphopy
    from dynaphopy.dynamics import Dynamics
    import dynaphopy.interface.phonopy_link as pl
    from scipy.integrate import simpson
    name, T = v['crystal'], TEMP[v['temp']]
    s = crystals.make_structure(name)
    s.set_force_constants(crystals.force_constants(name))
    n = len(crystals.CRYSTALS[name]['el'])
    c = dynaphopy.Quasiparticle(Dynamics(structure=s, velocity=np.zeros((5, n, 3), complex), time=np.arange(5) * .01, supercell=s.get_cell()))
    p = c.parameters
    p.mesh_phonopy = (7, 7, 7)
    c.set_temperature(T)
    c.set_frequency_limits(RANGE[v['range']][0])
    c.set_spectra_resolution(RANGE[v['range']][1])
    p.project_on_atom = v['atom']               # always: the parameters of a process are shared
    fc = crystals.force_constants(name, FC[v['fc']]) if v['fc'] else None

    def dos(f, atom=None):
        return pl.obtain_phonopy_dos(s, mesh=(7, 7, 7), freq_min=.01, freq_max=c.get_frequency_range()[-1],
                                     freq_pitch=RANGE[v['range']][1], force_constants=f, projected_on_atom=v['atom'] if atom is None else atom)
    d, hd = dos(fc), dos(None)
    x = d[0]
    w = simpson(np.eye(len(x)), x=x)
    z = h * x / (kB * T)
    occ = 1 / np.expm1(z)
    t = dict(v=v, died=False)
    q = dlib.q
    t['w'] = [q(a, 1e5) for a in w]
    t['d'], t['h'] = [q(a, 1e4) for a in d[1]], [q(a, 1e4) for a in hd[1]]
    t['u'] = [q(a, 1e3) for a in h * x * (.5 + occ) * NA / 1000]
    t['f'] = [q(a, 1e3) for a in kB * T * np.log(2 * np.sinh(z / 2)) * NA / 1000]
    t['s'] = [q(a, 1e2) for a in kB * NA * (z / 2 / np.tanh(z / 2) - np.log(2 * np.sinh(z / 2)))]
    t['c'] = [q(a, 1e2) for a in kB * NA * z ** 2 * np.exp(z) / np.expm1(z) ** 2]
    t['parts'], t['second'], t['onsite'] = [], [], []
    a = crystals.fc_array(name)
    mass = s.get_masses()
    for k in range(ATOMS[name]):
        y = dos(None, k)
        t['parts'].append(q(simpson(y[1], x=y[0]) / (3 * n)))
        t['second'].append(q(simpson(y[1] * y[0] ** 2, x=y[0]) / simpson(y[1], x=y[0]), 1e3))
        u = k * (len(a) // ATOMS[name])          # the atom in the supercell; those of the unit cell repeat next to each other
        t['onsite'].append(q(np.trace(a[u, u]) / 3 / mass[k * (n // ATOMS[name])] * 15.633302 ** 2, 1e3))
    r = c.get_thermal_properties(force_constants=fc, **({'normalize_dos': True} if v['norm'] else {}))
    t['obs'] = dict(free=q(r[0]), entropy=q(r[1], 1e5), heat=q(r[2], 1e5), energy=q(r[3]), integral=q(r[4]))
    return t


def case(v):
    how, r = dlib.guarded(one, v)
    return r if how == 'ok' else dict(v=v, died=True, why=r)


def chunk(todo):
    return [case(v) for v in todo]


def run(job):
    import dynaphopy
    parts = [(job['behaviours'][k::14],) for k in range(14)]
    tr, lost = [], []
    for a, (how, v) in zip(parts, dlib.fork_map(chunk, parts, workers=7, timeout=800)):
        if how == 'ok':
            tr += v
        else:
            lost.append(str(v)[-500:])
    return dict(traces=tr, lost=lost)


if __name__ == '__main__':
    dlib.main(run)
