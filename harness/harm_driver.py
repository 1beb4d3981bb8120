"""Executes the cases of specs/HarmGen.tla: generated trajectories taken apart into the phonons of phonopy."""
import os
os.environ['OMP_NUM_THREADS'] = '1'
os.environ['MPLBACKEND'] = 'Agg'
import itertools, runpy, sys, tempfile
import numpy as np
import dlib, crystals, star_driver


def command(name, v):
    import h5py
    from phonopy.file_IO import write_FORCE_CONSTANTS
    c = crystals.CRYSTALS[name]
    el = [(k, len(list(g))) for k, g in itertools.groupby(c['el'])]
    with open('POSCAR', 'w') as f:
        f.write('toy\n1.0\n' + ''.join('%.16f %.16f %.16f\n' % tuple(r) for r in c['cell']) + ' '.join(e for e, _ in el) + '\n' + ' '.join(str(n) for _, n in el)
                + '\nDirect\n' + ''.join('%.16f %.16f %.16f\n' % tuple(r) for r in c['frac']))
    write_FORCE_CONSTANTS(crystals.fc_array(name), filename='FC')
    with open('input', 'w') as f:
        f.write('STRUCTURE FILE POSCAR\nPOSCAR\n\nFORCE CONSTANTS\nFC\n\nPRIMITIVE MATRIX\n' + ''.join('%.10f %.10f %.10f\n' % tuple(r) for r in c['pm'])
                + '\nSUPERCELL MATRIX\n' + ''.join('%d %d %d\n' % tuple(r) for r in np.diag(c['fc'])))
    args = ['input', '--generate_trajectory', str(v['total'] / 1e4), str(v['dt'] / 1e4), str(v['T']), '--dim'] + [str(x) for x in v['sc']]
    args += ['--silent', '-sv', 'out.h5'] + (['--memmap'] if v['mm'] else [])
    sys.argv = ['dynaphopy'] + args
    try:
        runpy.run_path(os.path.join(os.environ['VERIF_PKG'], 'scripts', 'dynaphopy'), run_name='__main__')
    except SystemExit as e:
        if e.code:
            raise
    with h5py.File('out.h5') as f:
        return np.array(f['trajectory']), np.array(f['time']), [], [int(x) for x in np.array(f['super_cell']).ravel()[:3]] if f['super_cell'].ndim == 1 else [int(x) for x in np.diag(np.array(f['super_cell']))]


def library(name, v):
    import dynaphopy.interface.iofile as io
    s = crystals.make_structure(name)
    s.set_force_constants(crystals.force_constants(name))
    said = dict(supercell=tuple(v['sc']), minimum_frequency=v['low'] / 10., total_time=v['total'] / 1e4, time_step=v['dt'] / 1e4, temperature=v['T'], memmap=v['mm'], phase_0=v['phase'] * .7)
    usual = dict(supercell=(1, 1, 1), minimum_frequency=.1, total_time=2., time_step=.002, temperature=400, memmap=False, phase_0=0)
    d = io.generate_test_trajectory(s, silent=True, **{k: x for k, x in said.items() if x != usual[k]})     # what is usual is left out
    return np.array(d.trajectory), np.array(d.get_time()), np.array(d.get_energy()).tolist(), [int(x) for x in d.get_supercell_matrix()]


def one(v):
    os.chdir(tempfile.mkdtemp())
    name = v['x']
    x, t, energy, sc = (command if v['way'] == 'cli' else library)(name, v)
    c = crystals.CRYSTALS[name]
    pos, idx = crystals.supercell_positions(name, v['sc'])
    m = np.array(crystals.masses(name))[idx]
    prim = np.dot(np.array(c['pm'], float).T, np.array(c['cell'], float))
    inv = np.linalg.inv(prim)
    ph = star_driver.ref_phonon(name)
    P = ph.primitive
    kind = []
    for r, a in zip(pos, idx):
        d = np.dot(r[None] - P.positions, inv)
        kind.append(int(np.argmax((np.abs(d - np.rint(d)).max(axis=1) < 1e-4) & np.array([s == c['el'][a] for s in P.symbols]))))
    kind = np.array(kind)
    r = dict(v=v, died=False, steps=len(x), atoms=x.shape[1], cell=len(c['el']), prim=len(c['el']) // len(P.symbols), time=[dlib.q(y, 1e5) for y in t], sc=sc,
             energy=[dlib.q(y, 1) for y in energy], imag=dlib.q(np.abs(np.imag(x)).max(), 1e6), levels=[])
    if x.shape[1:] != pos.shape or len(x) < 20:
        return r
    u = (np.real(x) - pos[None]) * np.sqrt(m)[None, :, None]
    cells = len(pos) / len(P.symbols)
    T = np.arange(len(x)) * v['dt'] / 1e4
    for qi in star_driver.points(name, v['sc']):
        q = np.array(qi) / star_driver.DEN
        f, e = star_driver.modes(ph, q)
        g = np.array(star_driver.groups(f))
        wave = np.exp(-2j * np.pi * np.dot(np.dot(pos, inv), q))
        for k in sorted(set(g)):
            E = e[:, g == k].reshape(len(P.symbols), 3, -1)[kind]
            Q = np.einsum('tad,adn,a->tn', u, E.conj(), wave) / np.sqrt(cells)
            f0 = float(np.mean(f[g == k]))
            w = 2 * np.pi * abs(f0)
            lv = dict(q=list(qi), n=int((g == k).sum()), f=dlib.q(abs(f0), 1e4), ke=0, rel=0, size=dlib.q(np.abs(Q).max(), 1e4))
            if abs(f0) > .05:
                B = np.array([np.exp(-1j * w * T), np.exp(1j * w * T)]).T
                a = np.linalg.lstsq(B, Q, rcond=None)[0]
                lv['ke'] = dlib.q(.5 * w ** 2 * (np.abs(a) ** 2).sum(), 1e2)
                lv['rel'] = dlib.q(np.abs(Q - B.dot(a)).max() / max(np.abs(Q).max(), 1e-9), 1e4)
            r['levels'].append(lv)
    return r


def case(v):
    how, r = dlib.guarded(one, v)
    return r if how == 'ok' else dict(v=v, died=True, why=r)


def run(job):
    import dynaphopy
    tr, lost = [], []
    for how, v in dlib.fork_map(case, [(v,) for v in job['behaviours']], workers=7, timeout=800):
        if how == 'ok':
            tr.append(v)
        else:
            lost.append(str(v)[-500:])
    return dict(traces=tr, lost=lost)


if __name__ == '__main__':
    dlib.main(run)
