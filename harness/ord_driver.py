"""Trajectory files with the atoms in any order, read with the automatic order."""
import itertools, os, tempfile
import numpy as np
import dlib, toytraj
from dyn_driver import scaled
from toytraj import U

NAMES = ['A', 'B', 'C', 'D', 'E', 'F']
FRAMES = 3
# one atom in the cell: no atom near the far faces
toytraj.TOY['F'] = dict(cell=[[4, 0, 0], [1, 4, 0], [0, -1, 4]], upos=[[0, 0, 0]], el=['Si'], m=[28], pm=np.eye(3), md=[1, 1, 1], utype=[1], norm=[0, 0, 0])
AMP = {'A': 6, 'B': 5, 'C': 6, 'D': 5, 'E': 5, 'F': 8}


def sites(c, sc):
    return np.array([np.array(f) + U * np.dot([x, y, z], c['cell']) for f in c['upos']
                     for z, y, x in itertools.product(range(sc[2]), range(sc[1]), range(sc[0]))])


def check_far(name):
    """sites far enough from each other for the displacements"""
    c = toytraj.TOY[name]
    amp = AMP[name]
    p = np.array(c['upos'], float)
    v = np.array([np.dot(x, c['cell']) for x in itertools.product(range(-3, 4), repeat=3)]) * U
    for a in range(len(p)):
        for b in range(len(p)):
            d = np.linalg.norm(p[a] - p[b] + v, axis=1)
            d = d[d > 1e-9]
            assert d.min() > 2 * amp * 1.001, (name, a, b, d.min())


def order(kind, c, sc, rng):
    """file atom -> site (0-based)"""
    n = len(c['upos']) * int(np.prod(sc))
    nc = int(np.prod(sc))
    ident = list(range(n))
    if kind == 'same':
        return ident
    if kind == 'reverse':
        return ident[::-1]
    if kind == 'cells':                       # cell by cell
        return [k * nc + m for m in range(nc) for k in range(len(c['upos']))]
    if kind == 'slow':                        # x slowest
        return [k * nc + x + sc[0] * (y + sc[1] * z) for k in range(len(c['upos'])) for x in range(sc[0]) for y in range(sc[1]) for z in range(sc[2])]
    return list(rng.permutation(n))


def one(t, rng, wd):
    from dynaphopy.interface.iofile import trajectory_parsers as tp
    import dynaphopy.interface.iofile as io
    name = NAMES[t['c'] - 1]
    c = toytraj.TOY[name]
    sc = t['sc']
    st = toytraj.structure(name)
    H = np.dot(np.diag(sc), c['cell']) * U
    if t['task'] == 'cell':
        from dynaphopy.dynamics import Dynamics
        f = np.array(sc) + np.array(t['dev']) * (.25 if t['big'] else .002)
        s = sites(c, sc) / float(U)
        d = Dynamics(structure=st, trajectory=np.array([s, s]).astype(complex), time=np.arange(2.), supercell=np.dot(np.diag(f), c['cell']).astype(float))
        return {'matrix': [int(x) for x in d.get_supercell_matrix()]}
    s = sites(c, sc)
    n = len(s)
    amp = AMP[name]
    disp = rng.randint(-amp, amp + 1, size=(FRAMES, n, 3))
    far = np.linalg.norm(disp, axis=2) > amp
    disp[far] //= 2
    x = s[None] + disp
    w = rng.randint(-2, 3, size=(FRAMES, n, 3))
    if t['wrap'] == 'any':
        x = x + np.einsum('tak,kl->tal', w, H)
    elif t['wrap'] == 'cell':
        fr = np.einsum('tak,kl->tal', x, np.linalg.inv(H))
        x = x - np.einsum('tak,kl->tal', np.floor(fr + 1e-9).astype(int), H)
    perm = order(t['perm'], c, sc, rng)
    fx = x[:, perm] / float(U)
    Hc = H / float(U)
    p = wd + '/traj'
    if t['fmt'] == 'lammps':
        R = np.array(c.get('lmp', np.eye(3)), float)
        HL = np.dot(Hc, R)
        if abs(HL[0, 1]) + abs(HL[0, 2]) + abs(HL[1, 2]) > 1e-9:
            # to the LAMMPS orientation by exact triangularisation
            q, r = np.linalg.qr(HL.T)
            sg = np.sign(np.diag(r))
            R = np.dot(R, q * sg)
            HL = np.dot(Hc, R)
        open(p, 'w').write(toytraj.lammps_text(np.dot(fx, R), HL, [100 * k for k in range(FRAMES)], lo=(1.5, -.75, 4.))[0])
        par, ts = tp.read_lammps_trajectory, 0.001
    elif t['fmt'] == 'xdatcar':
        open(p, 'w').write(toytraj.xdatcar_text(np.dot(fx, np.linalg.inv(Hc)), Hc, ['X'], [n], fmt='%16.12f', scale=[1, 1, 4, 'V'][n % 4])[0])
        par, ts = tp.read_VASP_XDATCAR, .25
    else:
        open(p, 'w').write(toytraj.outcar_text(fx, Hc, 1.0, [0.] * FRAMES)[0])
        par, ts = tp.read_vasp_trajectory, None
    tem = io.check_atoms_order(p, par, st)
    d = par(p, structure=st, time_step=ts, initial_cut=1, end_cut=FRAMES, template=tem)
    return {'template': [int(v) + 1 for v in tem], 'perm': [int(v) + 1 for v in perm], 'frames': scaled(d.trajectory, 1000 * U),
            'disp': disp.tolist(), 'matrix': [int(v) for v in d.get_supercell_matrix()]}


def batch(items, seed):
    wd = tempfile.mkdtemp(prefix='ord_', dir=os.environ['VERIF_SCRATCH'])
    os.chdir(wd)
    rng = np.random.RandomState(seed)
    res = []
    for t in items:
        st, x = dlib.guarded(one, t, rng, wd)
        r = dict(t, died=st != 'ok', why='' if st == 'ok' else str(x))
        if st == 'ok':
            r.update(x)
        res.append(r)
    return res


def work(job):
    for n in NAMES:
        check_far(n)
    items = job['behaviours']
    bs = [items[k:k + 100] for k in range(0, len(items), 100)]
    res = dlib.fork_map(batch, [(b, job['seed'] * 1000 + k) for k, b in enumerate(bs)], workers=7, timeout=300)
    traces = []
    for b, r in zip(bs, res):
        traces += r[1] if r[0] == 'ok' else [dict(t, died=True, why=str(r[1])[-300:]) for t in b]
    return {'crystals': [dict(upos=toytraj.TOY[n]['upos'], Hu=(U * np.array(toytraj.TOY[n]['cell'])).tolist()) for n in NAMES], 'traces': traces}


if __name__ == '__main__':
    dlib.main(work)
