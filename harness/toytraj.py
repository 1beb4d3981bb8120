"""Integer toy trajectories (unit 1/16 Angstrom) and writers of trajectory files."""
import itertools
import numpy as np

U = 16
TOY = {
    'A': dict(cell=[[4, 0, 0], [0, 5, 0], [0, 0, 6]], upos=[[0, 0, 0], [32, 40, 48]], el=['Na', 'Cl'], m=[1, 4],
              pm=np.eye(3), md=[2, 1, 1], utype=[1, 2], norm=[30, 24, 20]),
    'B': dict(cell=[[4, 0, 0], [3, 4, 0], [0, 0, 5]], upos=[[4, 2, 6], [60, 38, 46]], el=['Ga', 'N'], m=[4, 9],
              pm=np.eye(3), md=[1, 2, 1], utype=[1, 2], norm=[25, 20, 16]),
    'C': dict(cell=[[6, 0, 0], [0, 4, 0], [0, 0, 5]], upos=[[0, 0, 0], [24, 32, 40], [48, 0, 0], [72, 32, 40]],
              el=['Na', 'Cl', 'Na', 'Cl'], m=[9, 1, 9, 1], pm=[[.5, 0, 0], [0, 1, 0], [0, 0, 1]], md=[1, 2, 1],
              utype=[1, 2, 1, 2], norm=[20, 30, 24]),
    # rotated with respect to the LAMMPS convention
    'D': dict(cell=[[0, 4, 0], [-5, 0, 0], [0, 0, 6]], upos=[[-8, 8, 8], [-48, 40, 56]], el=['Mg', 'O'], m=[1, 9],
              pm=np.eye(3), md=[1, 1, 2], utype=[1, 2], norm=[30, 24, 20],
              lmp=[[0, -1, 0], [1, 0, 0], [0, 0, 1]]),
    # oblique, three atoms of which two of the same element in different sites
    'E': dict(cell=[[5, 0, 0], [-3, 4, 0], [0, 0, 4]], upos=[[4, 4, 4], [10, 40, 20], [44, 20, 52]], el=['O', 'Ti', 'O'],
              m=[1, 16, 1], pm=np.eye(3), md=[2, 1, 2], utype=[1, 2, 3], norm=[20, 25, 20]),
    # a unit cell of three primitive cells, one atom of another mass: types of different numbers of atoms
    'I': dict(cell=[[6, 0, 0], [0, 4, 0], [0, 0, 5]], upos=[[0, 0, 0], [32, 0, 0], [64, 0, 0]], el=['Na', 'Na', 'Na'],
              m=[9, 1, 9], pm=[[1 / 3., 0, 0], [0, 1, 0], [0, 0, 1]], md=[1, 2, 1], utype=[1, 2, 1], norm=[20, 30, 24]),
}


def norms(cell):
    """|reciprocal vector| * det as integers (checked)"""
    inv = np.linalg.inv(np.array(cell, float))
    n = np.linalg.norm(inv, axis=0) * abs(np.linalg.det(np.array(cell, float)))
    r = np.rint(n).astype(int)
    assert np.allclose(n, r, atol=1e-9), (cell, n)
    return r.tolist()


def toy(name, steps, seed):
    c = TOY[name]
    rng = np.random.RandomState(seed)
    cell = np.array(c['cell'])
    md = c['md']
    pos, typ, unit = [], [], []
    for k, f in enumerate(c['upos']):
        for z, y, x in itertools.product(range(md[2]), range(md[1]), range(md[0])):
            pos.append(np.array(f) + U * np.dot([x, y, z], cell))
            typ.append(c['utype'][k])
            unit.append(k)
    pos = np.array(pos)
    H = np.dot(np.diag(md), cell) * U
    n = len(pos)
    disp = rng.randint(-9, 10, size=(steps, n, 3))
    wrap = rng.randint(-1, 2, size=(steps, n, 3))
    raw = pos[None] + disp + np.einsum('tak,kl->tal', wrap, H)
    vel = rng.randint(-40, 41, size=(steps, n, 3))
    uni = 40 + 25 * np.arange(steps)                     # 1/100 ps
    irr = np.concatenate([[10], 10 + np.cumsum(rng.randint(1, 5, size=steps - 1) * 10)])
    times = {s: uni.tolist() for s in ('lmppos', 'lmpvel', 'xdat', 'outcar', 'hdf5', 'both')}
    times.update({s: irr.tolist() for s in ('cart', 'scaled', 'velonly')})
    if (steps - 1) and irr[-1] == irr[0]:
        raise AssertionError
    return dict(name=name, H=H.tolist(), Hu=(cell * U).tolist(), Ha=cell.tolist(), pos=pos.tolist(), upos=c['upos'],
                type=typ, utype=c['utype'], ntypes=max(c['utype']), unit=unit, sqrtm=[int(round(c['m'][u] ** .5)) for u in unit],
                raw=raw.tolist(), vel=vel.tolist(), times=times, energy=rng.randint(-50, 0, size=steps).tolist(),
                norm=norms(c['cell']))


def structure(name):
    from dynaphopy.atoms import Structure
    c = TOY[name]
    return Structure(cell=np.array(c['cell'], float), positions=np.array(c['upos'], float) / U,
                     atomic_elements=list(c['el']), masses=[float(x) for x in c['m']],
                     primitive_matrix=np.array(c['pm'], float))


# ------------------------------------------------------------------------ files
def lammps_text(frames, cell, steps, labels='x y z', lo=(0, 0, 0), order=None, fmt='%.10f'):
    """frames in Angstrom, cell lower triangular (rows), as `dump custom` writes"""
    cell = np.array(cell, float)
    xx, xy, yy, xz, yz, zz = cell[0, 0], cell[1, 0], cell[1, 1], cell[2, 0], cell[2, 1], cell[2, 2]
    tri = abs(xy) + abs(xz) + abs(yz) > 1e-12
    b = [[lo[0] + min(0, xy, xz, xy + xz), lo[0] + xx + max(0, xy, xz, xy + xz), xy],
         [lo[1] + min(0, yz), lo[1] + yy + max(0, yz), xz], [lo[2], lo[2] + zz, yz]]
    out, ends = [], []
    size = 0
    for fr, st in zip(frames, steps):
        t = 'ITEM: TIMESTEP\n%d\nITEM: NUMBER OF ATOMS\n%d\n' % (st, len(fr))
        t += 'ITEM: BOX BOUNDS %spp pp pp\n' % ('xy xz yz ' if tri else '')
        for r in b:
            t += ' '.join('%.10f' % x for x in (r if tri else r[:2])) + '\n'
        t += 'ITEM: ATOMS %s \n' % labels
        for a in fr:
            t += ' '.join(fmt % x for x in a) + ' \n'
        out.append(t)
        size += len(t)
        ends.append(size)
    return ''.join(out), ends


def xdatcar_text(frames, cell, names, counts, first=1, fmt='%14.10f', scale=1):
    """frames in fractional coordinates; scale: the scaling factor in line 2, or 'V' for the (negative) volume"""
    cell = np.array(cell, float)
    line = '1' if scale == 1 else '%.12f' % (scale if scale != 'V' else -abs(np.linalg.det(cell)))
    cell = cell / (scale if scale != 'V' else 3.)
    t = 'toy\n           ' + line + '\n' + ''.join(('  %.8f %.8f %.8f\n' if scale == 1 else '  %.12f %.12f %.12f\n') % tuple(r) for r in cell)
    t += '  ' + ' '.join(names) + '\n  ' + ' '.join(map(str, counts)) + '\n'
    ends = []
    for i, fr in enumerate(frames):
        t += 'Direct configuration=%6d\n' % (i + first)
        t += ''.join(' ' + ' '.join(fmt % x for x in a) + '\n' for a in fr)
        ends.append(len(t))
    return t, ends


def outcar_text(frames, cell, dt_fs, energies):
    inv = np.linalg.inv(np.array(cell, float)).T
    t = ' vasp toy\n   POMASS =   1.00\n   number of dos      NEDOS =    301   number of ions     NIONS = %6d\n' % len(frames[0])
    t += '   POTIM  = %.4f    time-step for ionic-motion\n\n' % dt_fs
    t += '      direct lattice vectors                 reciprocal lattice vectors\n'
    for r, s in zip(np.array(cell, float), inv):
        t += '  ' + ' '.join('%13.9f' % x for x in list(r) + list(s)) + '\n'
    t += '\n'
    ends = []
    for fr, e in zip(frames, energies):
        t += ' POSITION                                       TOTAL-FORCE (eV/Angst)\n ' + '-' * 83 + '\n'
        t += ''.join('   ' + ' '.join('%12.5f' % x for x in a) + '      0.000000      0.000000      0.000000\n' for a in fr)
        t += ' ' + '-' * 83 + '\n    total drift:                                0.000000      0.000000      0.000000\n\n'
        t += '  FREE ENERGIE OF THE ION-ELECTRON SYSTEM (eV)\n  ' + '-' * 50 + '\n'
        t += '  free  energy   TOTEN  = %18.6f eV\n\n' % e
        t += '  energy  without entropy= %17.6f  energy(sigma->0) = %15.6f\n' % (e, e)
        ends.append(len(t))
    return t, ends
