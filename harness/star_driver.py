"""Executes the cases of specs/StarsGen.tla: phonons of known frequencies analysed by the real code."""
import numpy as np
import dlib, crystals

DEN, DT, STEPS, GAMMA = 24, .008, 2048, .9         # decay of the amplitudes (1/ps)
CONV = 15.633302


def ref_phonon(name, fc=None):
    """phonopy alone"""
    from phonopy import Phonopy
    from phonopy.structure.atoms import PhonopyAtoms
    c = crystals.CRYSTALS[name]
    ph = Phonopy(PhonopyAtoms(symbols=c['el'], scaled_positions=c['frac'], cell=c['cell']), np.diag(c['fc']) if fc is None else fc[1],
                 primitive_matrix=np.array(c['pm'], float))
    ph.force_constants = crystals.fc_array(name) if fc is None else fc[0]
    return ph


def modes(ph, q):
    ph.run_qpoints([q], with_eigenvectors=True)
    d = ph.get_qpoints_dict() if hasattr(ph, 'get_qpoints_dict') else ph.qpoints.to_dict()
    return np.array(d['frequencies'][0]), np.array(d['eigenvectors'][0])


def ops(name):
    """operations on wave vectors of the primitive cell (for the stars of the design only)"""
    from phonopy.structure.symmetry import Symmetry
    from phonopy.structure.atoms import PhonopyAtoms
    c = crystals.CRYSTALS[name]
    P = np.array(c['pm'], float)
    r = Symmetry(PhonopyAtoms(symbols=c['el'], scaled_positions=c['frac'], cell=c['cell'])).reciprocal_operations
    return [s * np.linalg.inv(P).dot(o.T).dot(P) for o in r for s in (1, -1)]


def star(q, group):
    return min(tuple(int(x) for x in np.rint(np.dot(q, o) * DEN) % DEN) for o in group)


def groups(f):
    """degenerate modes"""
    g, k = [0], 0
    for a, b in zip(f[:-1], f[1:]):
        k += b - a > 1e-3
        g.append(k)
    return g


def points(name, md):
    c = crystals.CRYSTALS[name]
    P = np.array(c['pm'], float)
    s = set()
    for a in np.ndindex(*[2 * m for m in md]):
        s.add(tuple(int(x) for x in np.rint(np.dot(np.array(a) / np.array(md), P) * DEN) % DEN))
    return sorted(s)


def build(v, steps=STEPS, shift=None, decay=None):
    """velocities of decaying phonons; {q: (harmonic frequencies, frequencies)}
    shift(h, k): factor of level k of a star; decay(h, k): of the decay"""
    name, md = v['crystal'], v['md']
    c = crystals.CRYSTALS[name]
    pos, idx = crystals.supercell_positions(name, md)
    m = np.array(crystals.masses(name))[idx]
    cell = np.array(c['cell'], float)
    prim = np.dot(np.array(c['pm'], float).T, cell)
    rec = np.linalg.inv(prim).T
    ph = ref_phonon(name)
    back = ph.primitive.p2p_map                      # atom of the primitive cell of each atom of the supercell
    pcell = ph.primitive
    group = ops(name)
    t = np.arange(steps) * DT
    vel = np.zeros((steps, len(pos), 3))
    rng = np.random.RandomState(17 + v['seed'])
    # which atom of the primitive cell: same position but for a primitive lattice vector
    inv = np.linalg.inv(prim)
    kind = []
    for r, a in zip(pos, idx):
        d = np.dot(r[None] - pcell.positions, inv)
        ok = (np.abs(d - np.rint(d)).max(axis=1) < 1e-4) & np.array([s == c['el'][a] for s in pcell.symbols])
        kind.append(int(np.argmax(ok)))
        assert ok.sum() == 1
    kind = np.array(kind)
    table = {}
    for qi in points(name, md):
        q = np.array(qi) / DEN
        f, e = modes(ph, q)
        s = star(q, group) if v['sym'] else qi          # equal over stars, or not
        g = groups(f)
        h = (s[0] * 5 + s[1] * 3 + s[2] * 7) // 2 + 31 * v['seed']
        new = np.array([x * (shift(h, k) if shift else 1 + .02 * ((h + 3 * k) % 6 - 2)) for x, k in zip(f, g)])
        if qi == (0, 0, 0):
            new[:3] = 0
        table[qi] = (f, new)
        ph_r = np.exp(2j * np.pi * np.dot(np.dot(pos, rec.T), q))
        own = (2 * np.array(qi) % DEN == 0).all()
        for k in range(len(f)):
            if new[k] < .05:
                continue
            a = np.exp(2j * np.pi * (new[k] * t + rng.rand()) - GAMMA * t * (decay(h, g[k]) if decay else 1))
            ek = e[:, k].reshape(-1, 3)[kind] * ph_r[:, None] / np.sqrt(m)[:, None]
            vel += np.real((a[:, None, None] * ek[None])) if not own else np.real(a)[:, None, None] * np.real(
                ek * np.exp(-1j * np.angle(ek.ravel()[np.argmax(np.abs(ek))])))[None]
    return t, vel, np.dot(np.diag(md), cell), table


def one(v):
    import dynaphopy
    from dynaphopy.dynamics import Dynamics
    import dynaphopy.interface.phonopy_link as pl
    name = v['crystal']
    decay = lambda h, k: (1, 1.7, 2.4)[(h + 2 * k + h // 3) % 3]
    t, vel, H, table = build(v, decay=decay)
    s = crystals.make_structure(name)
    s.set_force_constants(crystals.force_constants(name))
    c = dynaphopy.Quasiparticle(Dynamics(structure=s, velocity=vel.astype(complex), time=t, supercell=H))
    p = c.parameters
    p.silent = True
    p.mesh_phonopy = (4, 4, 4)
    p.use_symmetry = v['sym']
    p.symmetrize = v['fcsym']
    p.use_MD_cell_commensurate = v['mdcell']
    p.project_on_atom = -1
    c.select_fitting_function(v['fn'])
    c.select_power_spectra_algorithm(2)
    c.set_spectra_resolution(.04)
    d = c.get_commensurate_points_data()
    fc = c.get_renormalized_force_constants()
    q = np.array(d['q_points'])
    qi = np.rint(q * DEN).astype(int)
    assert np.abs(q * DEN - qi).max() < 1e-6
    n4 = lambda x: [[dlib.q(y, 1e4) for y in r] for r in x]
    r = dict(v=v, died=False, q=(qi % DEN).tolist(), found=n4(d['frequencies']), width=n4(d['linewidths']), shift=n4(d['frequency_shifts']),
             fcsc=[int(x) for x in crystals.CRYSTALS[name]['fc']])
    keys = [tuple(x) for x in (qi % DEN).tolist()]
    if not v['mdcell'] and any(k not in table for k in keys):
        return None                                  # not the wave vectors of this trajectory
    r['own'] = n4([table[k][1] for k in keys])
    group = ops(name)
    r['wide'] = []
    for k in keys:
        w = star(np.array(k) / DEN, group) if v['sym'] else k
        h = (w[0] * 5 + w[1] * 3 + w[2] * 7) // 2 + 31 * v['seed']
        r['wide'].append([dlib.q(GAMMA / np.pi * decay(h, g), 1e4) for g in groups(table[k][0])])
    r['harmonic'] = n4([table[k][0] for k in keys])
    f = np.array(d['frequencies'])
    ph = ref_phonon(name, (fc.get_array(), fc.get_supercell()))
    r['again'] = n4([np.sort(modes(ph, x)[0]) for x in q])
    a = fc.get_array()
    full = a.shape[0] == a.shape[1]
    r['transposed'] = bool((not full or np.abs(a - a.transpose(1, 0, 3, 2)).max() < (1e-3 if v['sym'] else .05) * np.abs(a).max()))
    # harmonic data there and back
    com = pl.get_commensurate_points(s, np.diag(crystals.CRYSTALS[name]['fc']))
    fe = [pl.obtain_eigenvectors_and_frequencies(s, x, print_data=False) for x in com]
    h = crystals.fc_array(name)
    b = pl.get_renormalized_force_constants([x[1] for x in fe], [x[0] for x in fe], s, np.diag(crystals.CRYSTALS[name]['fc'])).get_array()
    r['back'] = bool(b.shape == h.shape and np.abs(b - h).max() < 1e-4 * np.abs(h).max())
    b = pl.get_renormalized_force_constants([x[1] * 1.25 for x in fe], [x[0] for x in fe], s, np.diag(crystals.CRYSTALS[name]['fc'])).get_array()
    r['backscaled'] = bool(b.shape == h.shape and np.abs(b - 1.5625 * h).max() < 1e-4 * np.abs(h).max())
    # imaginary frequencies
    neg = [x[1] * np.r_[np.ones(len(x[1]) - 1), -1] if np.abs(y).max() > 0 else x[1] for x, y in zip(fe, com)]
    b = pl.get_renormalized_force_constants(neg, [x[0] for x in fe], s, np.diag(crystals.CRYSTALS[name]['fc']))
    ph = ref_phonon(name, (b.get_array(), b.get_supercell()))
    r['imaginary'] = bool(all(np.abs(np.sort(modes(ph, y)[0]) - np.sort(x)).max() < 1e-2 for x, y in zip(neg, com)))
    return r


def case(v):
    how, r = dlib.guarded(one, v)
    return r if how == 'ok' else dict(v=v, died=True, why=r)


def run(job):
    import dynaphopy
    tr, lost = [], []
    for a, (how, v) in zip(job['behaviours'], dlib.fork_map(case, [(v,) for v in job['behaviours']], workers=7, timeout=800)):
        if how == 'ok':
            tr += [v] if v else []
        else:
            lost.append(str(v)[-500:])
    return dict(traces=tr, lost=lost)


if __name__ == '__main__':
    dlib.main(run)
