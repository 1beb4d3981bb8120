"""Executes behaviours of specs/Struct.tla on structures (atoms.Structure)."""
import numpy as np
import dlib
from dyn_driver import scaled

U = 16
FORCES = [('fc', [2, 1, 1], True), ('fs', [1, 2, 1], True), ('fc', [1, 1, 3], True), ('fs', [2, 2, 1], False)]
SUPERS = [[2, 1, 3], [1, 2, 2]]
Z = {'Na': 11, 'Cl': 17, 'O': 8, 'Ti': 22, 'Si': 14}
I2 = [[2, 0, 0], [0, 2, 0], [0, 0, 2]]
FCC = [[0, 1, 1], [1, 0, 1], [1, 1, 0]]
BCC = [[-1, 1, 1], [1, -1, 1], [1, 1, -1]]
XHALF = [[1, 0, 0], [0, 2, 0], [0, 0, 2]]
CCEN = [[1, 1, 0], [-1, 1, 0], [0, 0, 2]]


def crystals(seed):
    rng = np.random.RandomState(seed)
    a, o, f = [], [], []
    c1 = np.array([[6, 0, 0], [0, 4, 0], [0, 0, 5]])
    h = U * c1 // 2
    base = np.array([[0, 0, 0], [24, 32, 40]])
    p1 = np.vstack([base, base + h[0]])
    p2 = p1.copy(); p2[3] += [3, 0, -2]
    p3 = np.array([[8, 8, 8], [8, 8, 8] + h[1] + h[2], [8, 8, 8] + h[0] + h[2] - 2 * h[1], [8, 8, 8] + h[0] + h[1] - 2 * h[2]])
    one = dict(cell=c1, pos=[p1, p2, p3], pm=[I2, XHALF, FCC], mass=[[9, 1, 9, 1], [9, 1, 9, 4], [2, 2, 2, 2]],
               el=['Na', 'Cl', 'Na', 'Cl'], charge=[1, -1, 2, -2])
    c2 = np.array([[5, 0, 0], [-3, 4, 0], [0, 0, 4]])
    cen = U * c2.sum(axis=0) // 2
    q1 = np.array([[4, 4, 4], [10, 40, 20], [4, 4, 4] + cen, [10, 40, 20] + cen - U * c2[0]])
    q2 = q1.copy(); q2[2] -= [1, 0, 0]
    q3 = np.array([[0, 0, 0], [1, 2, 3], U * (c2[0] + c2[1]) // 2, [1, 2, 3] - U * (c2[0] + c2[1]) // 2])
    two = dict(cell=c2, pos=[q1, q2, q3], pm=[I2, BCC, CCEN], mass=[[16, 1, 16, 1], [1, 1, 1, 1], [16, 1, 4, 1]],
               el=['Ti', 'O', 'Ti', 'O'], charge=[2, 0, -2, 1])
    c3 = np.array([[4, 0, 0], [0, 4, 0], [0, 0, 4]])
    F = [[0, 0, 0], [0, 32, 32], [32, 0, 32], [32, 32, 0]]
    s1 = np.array(F + [[16, 16, 16 + 64 * k] if k else [16, 16, 16] for k in range(1)] + [[16, 48, 48], [48, 16, 48], [48, 48, -16]])
    s2 = s1.copy(); s2[7] += [0, 2, 0]
    s3 = s1 + rng.randint(-2, 3, size=(8, 1)) * 64 + rng.randint(-40, 40, size=(1, 3))
    three = dict(cell=c3, pos=[s1, s2, s3], pm=[I2, FCC, [[1, 0, 0], [1, 2, 0], [0, 0, 2]]],
                 mass=[[28] * 8, [28] * 7 + [30], [28, 28, 29, 29] * 2], el=['Si'] * 8, charge=[0] * 8)
    # positions of chance, some atoms moved by vectors of chance of the lattices above
    c4 = np.array([[4, 1, 0], [-1, 5, 1], [1, 0, 4]]) * 2
    pos = []
    for k in range(3):
        p = rng.randint(-60, 160, size=(5, 3))
        for a in (1, 3):
            p[a] = p[a - 1] + np.dot(rng.randint(-2, 3, size=3), U * c4 // 2)
        pos.append(p)
    four = dict(cell=c4, pos=pos, pm=[I2, FCC, BCC], mass=[[4] * 5, [4, 4, 9, 9, 9], [1, 2, 3, 3, 4]],
                el=['Na', 'Na', 'O', 'O', 'Cl'], charge=[1, 1, -1, -1, 0])
    res = [one, two, three, four]
    for c in res:
        c['z'] = [Z[e] for e in c['el']]
        for k in ('cell', 'pos', 'pm', 'mass'):
            c[k] = [np.array(x).tolist() for x in c[k]]
    return res


def make(c, how, p):
    from dynaphopy.atoms import Structure
    cell = np.array(c['cell'], float)
    pos = np.array(c['pos'][0], float) / U
    kw = dict(positions=pos) if how == 'cart' else dict(scaled_positions=np.dot(pos, np.linalg.inv(cell)))
    return Structure(cell=cell, masses=[float(x) for x in c['mass'][0]], atomic_elements=list(c['el']),
                     charges=[float(x) for x in c['charge']],
                     primitive_matrix=np.array(c['pm'][p - 1], float) / 2 if p else None, **kw)


def change(s, c, how, v):
    from dynaphopy.interface.phonopy_link import ForceConstants, ForceSets
    if how == 'pos':
        s.set_positions(np.array(c['pos'][v - 1], float) / U)
    elif how == 'pm':
        s.set_primitive_matrix(np.array(c['pm'][v - 1], float) / 2)
    elif how == 'dict':
        s.get_data_from_dict({'_primitive_matrix': (np.array(c['pm'][v - 1], float) / 2).tolist(), 'anything': 1})
    elif how == 'mass':
        s.set_masses([float(x) for x in c['mass'][v - 1]])
    else:
        kind, sc, ok = FORCES[v - 1]
        n = len(c['el']) * int(np.prod(sc))
        if kind == 'fc':
            s.set_force_constants(ForceConstants(np.zeros((n, n, 3, 3)), supercell=np.diag(sc)))
        else:
            s.set_force_set(ForceSets({'natom': n if ok else n + 2, 'first_atoms': []}, supercell=np.diag(sc)))


def ask(s, c, k, v):
    sup = dict(supercell=SUPERS[v - 1]) if v else {}
    if k == 'positions':
        return scaled(s.get_positions(**sup), 1000 * U)
    if k == 'scaled':
        return scaled(s.get_scaled_positions(**sup), 100000)
    if k == 'cell':
        return scaled(s.get_cell(**sup))
    if k == 'types':
        return [int(x) for x in s.get_atom_type_index(**sup)]
    if k == 'masses':
        return scaled(s.get_masses(**sup))
    if k == 'elements':
        return [str(x) for x in s.get_atomic_elements(**sup)]
    if k == 'unique':
        return [str(x) for x in s.get_atomic_elements(unique=True, **sup)]
    if k == 'numbers':
        return [int(x) for x in s.get_atomic_numbers(**sup)]
    if k == 'charges':
        return scaled(s.get_charges(**sup))
    if k == 'params':
        p = s.get_cell_parameters(**sup)
        ln, an = np.array(p[:3]), np.array(p[3:])
        return {'len': scaled(ln), 'dot': scaled([ln[1] * ln[2] * np.cos(an[0]), ln[2] * ln[0] * np.cos(an[1]), ln[0] * ln[1] * np.cos(an[2])])}
    if k == 'primcell':
        return scaled(s.get_primitive_cell(), 1000 * U)
    if k == 'pm':
        return scaled(s.get_primitive_matrix(), 2000)
    if k == 'ntypes':
        return int(s.get_number_of_atom_types())
    if k == 'nprim':
        return int(s.get_number_of_primitive_atoms())
    if k == 'natoms':
        return int(s.get_number_of_cell_atoms())
    if k == 'fsuper':
        return np.asarray(s.get_supercell_phonon()).astype(int).tolist()


def batch(items, cr):
    res = []
    for (c, events) in items:
        out, s = [], None
        for e in events:
            if e['op'] == 'end':
                continue
            r = dict(op=e['op'], k=e['k'], v=e['v'], died=False, val=0, why='')
            if e['op'] == 'create':
                st, x = dlib.guarded(make, cr[c], e['k'], e['v'])
                s = x
            elif e['op'] == 'set':
                st, x = dlib.guarded(change, s, cr[c], e['k'], e['v'])
            else:
                st, x = dlib.guarded(ask, s, cr[c], e['k'], e['v'])
                if st == 'ok':
                    r['val'] = x
            if st != 'ok':
                r['died'], r['why'] = True, str(x)
            out.append(r)
        res.append({'c': c + 1, 'events': out, 'died': False})
    return res


def work(job):
    cr = crystals(job['seed'])
    items = []
    for k, h in enumerate(job['behaviours']):
        for x in range(len(cr)) if job['all'] else [k % len(cr)]:
            items.append((x, h))
    bs = [items[k:k + 100] for k in range(0, len(items), 100)]
    res = dlib.fork_map(batch, [(b, cr) for b in bs], workers=7, timeout=200)
    traces = []
    for b, r in zip(bs, res):
        traces += r[1] if r[0] == 'ok' else [{'c': x + 1, 'events': [], 'died': True, 'why': str(r[1])[-300:]} for x, _ in b]
    for c in cr:
        c.pop('unused', None)
    return {'crystals': cr, 'supers': SUPERS, 'traces': traces}


if __name__ == '__main__':
    dlib.main(work)
