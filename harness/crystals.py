"""Toy crystals made by the harness itself: cells, spring force constants, MD runs.

Nothing here calls the code under test except the Structure constructor, which is
used the way the documentation shows.
"""
import itertools
import numpy as np

EV = 9648.533212          # (eV/Angstrom)/amu in Angstrom/ps^2

CRYSTALS = {
    # unit = primitive, tetragonal: q=(.5,0,0) and (0,.5,0) are symmetry equivalent
    'tetra': dict(cell=[[3.9, 0, 0], [0, 3.9, 0], [0, 0, 4.6]],
                  frac=[[0, 0, 0], [.5, .5, .5]], el=['Na', 'Cl'],
                  pm=np.eye(3), fc=[2, 2, 1], md=[2, 2, 2]),
    # orthorhombic, unit = primitive, three different axes
    'ortho': dict(cell=[[3.6, 0, 0], [0, 4.1, 0], [0, 0, 4.8]],
                  frac=[[0, 0, 0], [.5, .5, .5]], el=['Mg', 'O'],
                  pm=np.eye(3), fc=[2, 1, 1], md=[2, 2, 1]),
    # triclinic, two atoms
    'tric': dict(cell=[[3.8, 0, 0], [0.9, 4.2, 0], [0.7, -0.6, 4.9]],
                 frac=[[0.05, 0.1, 0.02], [.53, .47, .55]], el=['Ga', 'N'],
                 pm=np.eye(3), fc=[2, 1, 1], md=[2, 2, 2]),
    # conventional cell holding two primitive cells (doubled along x)
    'conv': dict(cell=[[7.6, 0, 0], [0, 4.1, 0], [0, 0, 4.7]],
                 frac=[[0, 0, 0], [.5, 0, 0], [.25, .5, .5], [.75, .5, .5]], el=['Na', 'Na', 'Cl', 'Cl'],
                 pm=[[.5, 0, 0], [0, 1, 0], [0, 0, 1]], fc=[1, 2, 1], md=[1, 2, 2]),
    # the same crystal with its atoms listed in an order that interleaves the species
    'convmix': dict(cell=[[7.6, 0, 0], [0, 4.1, 0], [0, 0, 4.7]],
                    frac=[[0, 0, 0], [.25, .5, .5], [.5, 0, 0], [.75, .5, .5]], el=['Na', 'Cl', 'Na', 'Cl'],
                    pm=[[.5, 0, 0], [0, 1, 0], [0, 0, 1]], fc=[1, 2, 1], md=[1, 2, 2]),
    # body centred: primitive cell with shared axes
    'bcc': dict(cell=[[3.3, 0, 0], [0, 3.3, 0], [0, 0, 3.3]],
                frac=[[0, 0, 0], [.5, .5, .5]], el=['Na', 'Na'],
                pm=[[-.5, .5, .5], [.5, -.5, .5], [.5, .5, -.5]], fc=[2, 2, 2], md=[2, 2, 2]),
    # one atom, simple orthorhombic
    'mono': dict(cell=[[2.8, 0, 0], [0, 3.0, 0], [0, 0, 3.3]],
                 frac=[[0, 0, 0]], el=['Ar'], pm=np.eye(3), fc=[2, 2, 1], md=[3, 2, 2]),
    # four cells along one axis
    'chain': dict(cell=[[2.8, 0, 0], [0, 3.0, 0], [0, 0, 3.3]],
                  frac=[[0, 0, 0]], el=['Ar'], pm=np.eye(3), fc=[4, 1, 1], md=[4, 1, 1]),
    'couple': dict(cell=[[3.9, 0, 0], [0, 3.9, 0], [0, 0, 4.6]],
                   frac=[[0, 0, 0], [.5, .5, .5]], el=['Na', 'Cl'],
                   pm=np.eye(3), fc=[4, 1, 1], md=[4, 1, 1]),
    # hexagonal, unit = primitive, two atoms
    'hex': dict(cell=[[3.2, 0, 0], [-1.6, 2.771281292, 0], [0, 0, 5.1]],
                frac=[[1. / 3, 2. / 3, 0.1], [2. / 3, 1. / 3, .6]], el=['Ga', 'N'],
                pm=np.eye(3), fc=[2, 2, 1], md=[3, 3, 1]),
}


def make_structure(name, **kw):
    from dynaphopy.atoms import Structure
    c = CRYSTALS[name]
    s = Structure(cell=np.array(c['cell'], float), scaled_positions=np.array(c['frac'], float),
                  atomic_elements=list(c['el']), primitive_matrix=np.array(c['pm'], float), **kw)
    return s


def masses(name):
    from phonopy.structure.atoms import PhonopyAtoms
    c = CRYSTALS[name]
    return PhonopyAtoms(symbols=c['el'], scaled_positions=c['frac'], cell=c['cell']).masses


def springs(pos, cell, scale=1.0, kl=6.0, kt=1.2, r0=3.0, cutoff=5.2, tag=None):
    """pair force constants (N,N,3,3) of a periodic cell, summed over images, ASR exact."""
    n = len(pos)
    fc = np.zeros((n, n, 3, 3))
    inv = np.linalg.inv(cell)
    nmax = [int(np.ceil(cutoff * np.linalg.norm(inv[:, i]))) + 1 for i in range(3)]
    for i in range(n):
        for j in range(n):
            for sh in itertools.product(*[range(-m, m + 1) for m in nmax]):
                d = pos[j] + np.dot(sh, cell) - pos[i]
                r = np.linalg.norm(d)
                if r < 1e-6 or r > cutoff:
                    continue
                u = d / r
                f = scale * np.exp(-(r - r0) * 1.1)
                k = f * (kl * np.outer(u, u) + kt * (np.eye(3) - np.outer(u, u)))
                if tag is not None:
                    k = k * (1 + .05 * (tag[i] + tag[j]))
                fc[i, j] -= k
                fc[i, i] += k
    return fc


def phonopy_supercell(name):
    from phonopy import Phonopy
    from phonopy.structure.atoms import PhonopyAtoms
    c = CRYSTALS[name]
    ph = Phonopy(PhonopyAtoms(symbols=c['el'], scaled_positions=c['frac'], cell=c['cell']),
                 np.diag(c['fc']), primitive_matrix=np.array(c['pm'], float))
    return ph.supercell


def fc_array(name, scale=1.0):
    sc = phonopy_supercell(name)
    return springs(sc.positions, sc.cell, scale=scale)


def force_constants(name, scale=1.0):
    from dynaphopy.interface.phonopy_link import ForceConstants
    return ForceConstants(fc_array(name, scale), supercell=np.diag(CRYSTALS[name]['fc']))


def supercell_positions(name, md=None):
    """(positions, masses index) in the documented order: atom of the cell slowest, x fastest."""
    c = CRYSTALS[name]
    md = md or c['md']
    cell = np.array(c['cell'], float)
    pos, idx = [], []
    for k, f in enumerate(c['frac']):
        for z, y, x in itertools.product(range(md[2]), range(md[1]), range(md[0])):
            pos.append(np.dot(np.array(f) + [x, y, z], cell))
            idx.append(k)
    return np.array(pos), idx


def md_run(name, steps, dt=0.005, temp=300., seed=1, anh=2.0, fc_scale=1.0, md=None):
    """velocity Verlet; returns (time, unwrapped trajectory, velocity, cell)."""
    c = CRYSTALS[name]
    md = md or c['md']
    pos, idx = supercell_positions(name, md)
    cell = np.dot(np.diag(md), np.array(c['cell'], float))
    m = np.array(masses(name))[idx]
    fc = springs(pos, cell, scale=fc_scale)
    n = len(pos)
    K = fc.transpose(0, 2, 1, 3).reshape(3 * n, 3 * n)
    rng = np.random.RandomState(seed)
    kB = 8.617333e-5
    v = rng.randn(n, 3) * np.sqrt(kB * temp * 2 / m * EV)[:, None]
    v -= np.sum(v * m[:, None], axis=0) / m.sum()
    u = np.zeros((n, 3))

    def acc(u):
        d = u - u.mean(axis=0)
        f = -np.dot(K, u.ravel()).reshape(n, 3) - anh * d ** 3
        return f / m[:, None] * EV
    a = acc(u)
    us, vs = [], []
    sub = 2
    h = dt / sub
    for t in range(steps + 100):
        for _ in range(sub):
            v = v + .5 * h * a
            u = u + h * v
            a = acc(u)
            v = v + .5 * h * a
        if t >= 100:
            us.append(u.copy())
            vs.append(v.copy())
    u, v = np.array(us), np.array(vs)
    time = np.arange(steps) * dt
    return time, u + pos[None], v, cell
