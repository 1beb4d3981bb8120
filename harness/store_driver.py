"""Executes behaviours of specs/Store.tla: trajectories saved to, read from, joined in HDF5 files."""
import hashlib, os, runpy, shutil, sys, tempfile
import numpy as np
import dlib
from dyn_driver import scaled

N, STEP, START = 7, .005, .2
CELL, MD, QS = np.diag([4., 5., 6.]), [2, 1, 1], [[0, 0, 0], [.5, 0, 0]]
POSCAR = """Na Cl
1.0
 4.0 0.0 0.0
 0.0 5.0 0.0
 0.0 0.0 6.0
 Na Cl
 1 1
Direct
 0.0 0.0 0.0
 0.5 0.5 0.5
"""
INPUT = "STRUCTURE FILE POSCAR\nPOSCAR\n"
SCRIPTS = os.path.join(os.environ['VERIF_PKG'], 'scripts')


def structure():
    import dynaphopy.interface.iofile as io
    return io.read_from_file_structure_poscar('POSCAR')


def run_data(seed):
    rng = np.random.RandomState(seed)
    at = [[x, 0, 0] for x in (0, 4)] + [[2 + x, 2.5, 3] for x in (0, 4)]
    pos = np.array(at) + rng.uniform(-.4, .4, (N, 4, 3))
    return pos, rng.uniform(-9, 9, (N, 4, 3)) + 0j, START + STEP * np.arange(N)


def dynamics(src, seed, mm=False):
    from dynaphopy.dynamics import Dynamics
    pos, vel, time = run_data(seed)
    if mm:
        from dynaphopy.dynamics import get_temporal_memmap
        a = get_temporal_memmap('velocity', vel.shape)
        a[:] = vel
        vel = a
    return Dynamics(structure=structure(), trajectory=None if src == 'vel' else pos, velocity=None if src == 'traj' else vel,
                    time=time, supercell=np.dot(np.diag(MD), CELL), memmap=mm)


def quasi(d, vc=None, q=None):
    import dynaphopy
    c = dynaphopy.Quasiparticle(d, vc=vc)
    c.parameters.get_data_from_dict({'_reduced_q_vector': np.array(q if q is not None else QS[0], float), '_use_symmetry': False})
    return c


def flat(a):
    """one list of integers per step"""
    if a is None:
        return []
    a = np.array(a)
    return scaled(np.array([a.real.reshape(len(a), -1).T, a.imag.reshape(len(a), -1).T]).reshape(-1, len(a)).T) if np.iscomplexobj(a) \
        else scaled(a.reshape(len(a), -1))


def both(a):
    return None if a is None else np.array(a).astype(complex)


def tables(seed):
    pos, vel, _ = run_data(seed)
    vels, vcs = [flat(vel)], [[], []]
    for n in range(N + 1):
        for k in (0, 1):
            if n in (1, 2):
                vcs[k].append([])
                continue
            d = dynamics('both' if n == 0 else 'traj', seed)
            if n:
                d.crop_trajectory(n)
            vcs[k].append(flat(both(quasi(d, q=QS[k]).get_vc())))
        if n:
            d = dynamics('traj', seed)
            if n > 2:
                d.crop_trajectory(n)
            vels.append(flat(both(d.velocity)) if n > 2 else [])
    return dict(traj=flat(pos), vel=vels, vc=vcs, q=[scaled(x) for x in QS], super=scaled(MD))


def read(path):
    import h5py
    o = dict(traj=[], vel=[], vc=[], q=[], time=[], super=[])
    with h5py.File(path, 'r') as f:
        for k in f.keys():
            if k not in ('trajectory', 'velocity', 'vc', 'reduced_q_vector', 'time', 'super_cell'):
                raise RuntimeError('unknown part ' + k)
        if 'trajectory' in f:
            o['traj'] = flat(f['trajectory'][:].real)
        if 'velocity' in f:
            o['vel'] = flat(both(f['velocity'][:]))
        if 'vc' in f:
            o['vc'] = flat(both(f['vc'][:]))
        if 'reduced_q_vector' in f:
            o['q'] = scaled(f['reduced_q_vector'][:])
        o['time'] = scaled(f['time'][:])
        o['super'] = scaled(np.array(f['super_cell'][:]).reshape(-1))
    return o


def look(c, q):
    """object as its user sees it"""
    d = c.dynamic
    o = dict(traj=[], vel=[], vc=[], q=[], time=scaled(d.get_time()), super=scaled(np.array(d.get_supercell_matrix()).reshape(-1)))
    if q:
        o['vc'] = flat(both(c.get_vc()))
        o['q'] = scaled(c.get_reduced_q_vector())
    else:
        o['vel'] = flat(both(d.velocity))
        if d._trajectory is not None:
            o['traj'] = flat(np.array(d.trajectory).real)
    return o


def script(name, args):
    pid = os.fork()
    if pid == 0:
        try:
            sys.stdin = open(os.devnull)
            sys.argv = [name] + args
            dlib.guarded(runpy.run_path, os.path.join(SCRIPTS, name), run_name='__main__')
        finally:
            os._exit(0)
    os.waitpid(pid, 0)


def stamp(wd='.'):
    r = {}
    for n in sorted(os.listdir(wd)):
        r[n] = hashlib.md5(open(os.path.join(wd, n), 'rb').read()).hexdigest()
    return r


def load(e):
    import dynaphopy.interface.iofile as io
    r = io.initialize_from_hdf5_file(e['f'] + '.h5', structure(), **{k: x for k, x, usual in
                                     (('read_trajectory', not e['vo'], True), ('initial_cut', e['a'], 1), ('final_cut', e['b'] or None, None), ('memmap', e['mm'], False)) if x != usual})
    if isinstance(r, tuple):
        return quasi(r[2], vc=r[0], q=r[1]), list(r[1])
    return quasi(r), None


def step(e, st, seed):
    c = st['c']
    if e['op'] == 'new':
        st['c'], st['q'] = quasi(dynamics(e['src'], seed, e['mm'])), None
    elif e['op'] == 'crop':
        c.crop_trajectory(e['n'])
    elif e['op'] == 'load':
        st['c'], st['q'] = load(e)
    elif e['op'] == 'save':
        c.save_velocity_hdf5(e['f'] + '.h5', **({'save_trajectory': False} if e['vo'] else {}))
    elif e['op'] == 'savevc':
        if st['q'] is None:
            c.set_reduced_q_vector(np.array(QS[e['q'] - 1], float))
        c.save_vc_hdf5(e['f'] + '.h5')
    elif e['op'] == 'convert':
        a = ['input', '-lv', e['f'] + '.h5', '--silent'] + (['--velocity_only'] if e['vo'] else [])
        a += (['--read_from', str(e['a'])] if e['a'] != 1 else []) + (['--read_to', str(e['b'])] if e['b'] else [])
        a += (['-n', str(e['n'])] if e['n'] else [])
        if e['q']:
            a += ['-q'] + (['1/2', '0', '0'] if e['q'] == 2 else ['0', '0', '0']) if not st['vc'] else []
            a += ['-svc', e['h'] + '.h5']
        else:
            a += ['-sv', e['h'] + '.h5']
        script('dynaphopy', a)
    elif e['op'] == 'join':
        script('concath5', (['-f', str(e['a'])] if e['a'] else []) + (['--velocity_only'] if e['vo'] else [])
               + [e[k] + '.h5' for k in 'fgh'])


def one(job, n):
    import h5py
    wd = tempfile.mkdtemp(dir=os.environ.get('VERIF_WORK', '/tmp'))
    os.chdir(wd)
    open('POSCAR', 'w').write(POSCAR)
    open('input', 'w').write(INPUT)
    os.mkdir('files')
    st = dict(c=None, q=None)
    ev = []
    try:
        for e in job['behaviours'][n]:
            e = dict(e)
            target = {'save': 'f', 'savevc': 'f', 'convert': 'h', 'join': 'h'}.get(e['op'])
            t = e[target] + '.h5' if target else None
            before = {k: v for k, v in stamp_all().items()}
            if t and os.path.exists(t):
                os.utime(t, (1, 1))
            if e['op'] == 'convert':
                with h5py.File(e['f'] + '.h5', 'r') as f:
                    st['vc'] = 'vc' in f
            how, v = dlib.guarded(step, e, st, job['seed'])
            after = stamp_all()
            if t:
                e['died'] = how != 'ok' if e['op'] in ('save', 'savevc') else not os.path.exists(t) or os.stat(t).st_mtime == 1
                if e['died']:
                    e['kept'] = before == after
                else:
                    e['kept'] = {k: v for k, v in before.items() if k != t} == {k: v for k, v in after.items() if k != t}
                if not e['died']:
                    r, o = dlib.guarded(read, t)
                    e['died'], e['obs'] = r != 'ok', o
            else:
                e['died'], e['kept'] = how != 'ok', before == after
                if how == 'ok':
                    r, o = dlib.guarded(look, st['c'], st['q'])
                    e['died'], e['obs'] = r != 'ok', o
                    if r != 'ok':
                        v = o
            if e['died']:
                e['why'] = str(v)
                e['obs'] = 0
            ev.append(e)
            if e['died'] and not t:
                break
        return dict(events=ev)
    finally:
        os.chdir('/')
        shutil.rmtree(wd)


def stamp_all():
    return {n: hashlib.md5(open(n, 'rb').read()).hexdigest() for n in os.listdir('.') if n.endswith('.h5')}


def chunk(job, todo):
    return [one(job, n) for n in todo]


def base(seed):
    wd = tempfile.mkdtemp(dir=os.environ.get('VERIF_WORK', '/tmp'))
    os.chdir(wd)
    open('POSCAR', 'w').write(POSCAR)
    try:
        with dlib.quiet():
            return tables(seed)
    finally:
        os.chdir('/')
        shutil.rmtree(wd)


def run(job):
    import h5py, dynaphopy, dynaphopy.interface.iofile, phonopy, matplotlib
    how, tab = dlib.fork_map(base, [(job['seed'],)], workers=1, timeout=100)[0]
    assert how == 'ok', tab
    todo = list(range(len(job['behaviours'])))
    parts = [(job, todo[k::24]) for k in range(24)]
    tr, lost = [], []
    for a, (how, v) in zip(parts, dlib.fork_map(chunk, parts, workers=7, timeout=800)):
        if how == 'ok':
            tr += v
        else:
            lost.append(str(v)[-500:])
    return dict(traces=tr, lost=lost, table=tab)


if __name__ == '__main__':
    dlib.main(run)
