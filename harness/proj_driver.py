"""Projections onto wave vectors and phonons (cases of specs/ProjGen.tla) by the real code."""
import numpy as np
import dlib

STEPS = 2
CELLS = [np.diag([4., 5., 6.]), np.array([[5.4, 0, 0], [0, 5.4, 0], [0, 0, 5.4]]), np.array([[0, 5.1, 0], [5.1, 0, 0], [0, 0, -5.1]]),
         np.array([[4.2, 1.1, 0], [-.7, 4.8, .4], [.3, 0, 5.5]]), np.array([[4., 0, 0], [-2., 3.4641016151, 0], [.5, .2, 6.3]]),
         np.array([[3.9, 0, 1.2], [.8, 5.3, -.9], [-1.4, 2.1, 4.4]])]
EL = ['Na', 'Cl', 'O']


def crystal(r, n):
    from dynaphopy.atoms import Structure
    cell = CELLS[n]
    return Structure(cell=cell, positions=np.dot(np.array(r['F4']) / 4., cell), atomic_elements=[EL[t - 1] for t in r['type']],
                     masses=[float(w * w) for w in r['W']], primitive_matrix=np.array(r['PM2']) / 2.)


def ints(x, scale=1000):
    return [dlib.q(y, scale) for y in x]


def cplx(x, norm):
    return [dlib.q(x.real * norm, 1000), dlib.q(x.imag * norm, 1000)]


def project(t, r, rng):
    import io, contextlib
    import dynaphopy
    from dynaphopy.dynamics import Dynamics
    import dynaphopy.interface.phonopy_link as link
    n = len(r['F4']) * int(np.prod(t['sc']))
    vel = rng.randint(-9, 10, size=(STEPS, n, 3))
    st = crystal(r, t['c'] - 1)
    d = Dynamics(structure=st, velocity=vel.astype(complex), time=np.arange(STEPS) * .01,
                 supercell=np.dot(np.diag(t['sc']), st.get_cell()), memmap=bool(rng.randint(8) == 0))
    q = dynaphopy.Quasiparticle(d)
    q.parameters.project_on_atom = -1          # (all calculations share the parameters)
    q.set_reduced_q_vector(np.array(t['q']) / 4.)
    if t['only']:
        q.set_projection_onto_atom_type(t['only'] - 1)
    norm = np.sqrt(n / float(r['nt']))
    qcart = np.dot(CELLS[t['c'] - 1], q.get_q_vector()) / (2 * np.pi) * 4
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        vc = q.get_vc()
    ev = rng.randint(-2, 3, size=(3, r['nt'], 3)) + 1j * rng.randint(-2, 3, size=(3, r['nt'], 3))
    called, real = [], link.obtain_eigenvectors_and_frequencies

    def fake(*a, **kw):
        called.append(1)
        return ev.copy(), np.arange(3.)
    link.obtain_eigenvectors_and_frequencies = fake
    try:
        vq = q.get_vq() if not t['only'] or t['only'] % 2 else None
    finally:
        link.obtain_eigenvectors_and_frequencies = real
    if not called or vq is None:
        from dynaphopy.projection import project_onto_phonon
        vq = project_onto_phonon(vc, ev)
    return dict(vel=vel.tolist(), qcart=ints(qcart), vc=[[[cplx(x, norm) for x in a] for a in s] for s in vc],
                ev=[[[[int(x.real), int(x.imag)] for x in a] for a in m] for m in ev],
                vq=[[cplx(x, norm) for x in s] for s in vq], warned='not a commensurate' in out.getvalue())


def points(t, r, rng):
    import dynaphopy
    from dynaphopy.dynamics import Dynamics
    from dynaphopy.interface.phonopy_link import get_commensurate_points
    st = crystal(r, t['c'] - 1)
    n = len(r['F4']) * int(np.prod(t['sc']))
    pts = np.array(get_commensurate_points(st, np.diag(t['sc'])))
    d = Dynamics(structure=st, velocity=np.zeros((2, n, 3), complex), time=np.arange(2) * .01, supercell=np.dot(np.diag(t['sc']), st.get_cell()))
    q = dynaphopy.Quasiparticle(d)
    probes = []
    for k in range(150):
        p = rng.choice([-24, -12, -8, -6, 0, 3, 4, 6, 8, 12, 16, 18, 24, 36] if k % 3 else range(-30, 31), size=3)
        probes.append(dict(q=[int(x) for x in p], yes=bool(q.check_commensurate(p / 24.))))
    return dict(points=[ints(p, 24000) for p in pts], probes=probes)


def chunk(job, lo, hi, crys):
    res = []
    for n in range(lo, hi):
        t = job['behaviours'][n]
        rng = np.random.RandomState(job['seed'] * 100003 + n)
        how, v = dlib.guarded(project if t['task'] == 'project' else points, t, crys[t['c'] - 1], rng)
        res.append(dict(t, died=False, why='', **v) if how == 'ok' else dict(t, died=True, why=v))
    return res


def run(job):
    crys = job['crystals']
    n = len(job['behaviours'])
    step = (n + 23) // 24
    parts = [(job, k, min(n, k + step), crys) for k in range(0, n, step)]
    tr = []
    for a, (how, v) in zip(parts, dlib.fork_map(chunk, parts, workers=8, timeout=600)):
        tr += v if how == 'ok' else [dict(job['behaviours'][k], died=True, why=str(v)) for k in range(a[1], a[2])]
    return dict(traces=tr)


if __name__ == '__main__':
    dlib.main(run)
