"""Executes behaviours of specs/Dyn.tla on trajectory objects and records what they answer."""
import gc, os, shutil, tempfile
import numpy as np
import dlib, toytraj

U = toytraj.U
G = {}


def scaled(x, s=1000):
    """nested list of integers: numbers multiplied by s"""
    if x is None:
        return []
    a = np.asarray(x)
    if np.iscomplexobj(a):
        a = np.where(np.abs(a.imag) > 1e-9, np.nan, a.real)
    a = np.nan_to_num(a.astype(float) * s, nan=2.000000001e9, posinf=2.000000001e9, neginf=-2.000000001e9)
    return np.rint(np.clip(a, -2.000000001e9, 2.000000001e9)).astype(int).tolist()


def files_for(c, wd):
    H = np.array(c['H'], float) / U
    raw = np.array(c['raw'], float) / U
    vel = np.array(c['vel'], float) / U
    t = c['times']['lmppos']
    R = np.array(toytraj.TOY[c['name']].get('lmp', np.eye(3)), float)
    w = {}
    lt = [int(x) * 4 for x in t]                       # time step 0.0025 ps
    w['lmppos'] = toytraj.lammps_text(np.dot(raw, R), np.dot(H, R), lt, lo=(3., -2., .75))[0]
    w['lmpvel'] = toytraj.lammps_text(np.dot(vel, R), np.dot(H, R), lt, labels='vx vy vz', lo=(3., -2., .75))[0]
    el = [toytraj.TOY[c['name']]['el'][u] for u in c['unit']]
    names, counts = [], []
    for e in el:
        if names and names[-1] == e:
            counts[-1] += 1
        else:
            names.append(e); counts.append(1)
    w['xdat'] = toytraj.xdatcar_text(np.dot(raw, np.linalg.inv(H)), H, names, counts, fmt='%16.12f', scale={'A': 1, 'B': 2.5, 'D': 'V'}.get(c['name'], 1.25))[0]
    w['outcar'] = toytraj.outcar_text(raw, H, 250.0, c['energy'])[0]
    paths = {}
    for k, txt in w.items():
        paths[k] = os.path.join(wd, '%s_%s' % (k, c['name']))
        open(paths[k], 'w').write(txt)
    import h5py
    paths['hdf5'] = os.path.join(wd, 'h5_' + c['name'])
    with h5py.File(paths['hdf5'], 'w') as f:
        f['trajectory'] = raw.astype(complex)
        f['velocity'] = vel.astype(complex)
        f['time'] = np.array(c['times']['hdf5'], float) / 100
        f['super_cell'] = np.array(toytraj.TOY[c['name']]['md'])
    return paths


def create(c, src, mm):
    from dynaphopy.dynamics import Dynamics
    from dynaphopy.interface.iofile import trajectory_parsers as tp
    import dynaphopy.interface.iofile as iofile
    s = toytraj.structure(c['name'])
    H = np.array(c['H'], float) / U
    raw = np.array(c['raw'], float) / U
    vel = np.array(c['vel'], float) / U
    n = len(raw)
    tm = np.array(c['times'][src], float) / 100
    kw = dict(structure=s, supercell=H, time=tm, memmap=mm)
    if src == 'cart':
        return Dynamics(trajectory=raw.astype(complex), **kw)
    if src == 'scaled':
        return Dynamics(scaled_trajectory=np.dot(raw, np.linalg.inv(H)).astype(complex), **kw)
    if src == 'both':
        return Dynamics(trajectory=raw.astype(complex), velocity=vel.astype(complex),
                        energy=np.array(c['energy'], float), **kw)
    if src == 'velonly':
        return Dynamics(velocity=vel.astype(complex), **kw)
    p = G['paths'][c['name']][src]
    if src == 'hdf5':
        return iofile.initialize_from_hdf5_file(p, s, memmap=mm)
    par = {'lmppos': tp.read_lammps_trajectory, 'lmpvel': tp.read_lammps_trajectory, 'xdat': tp.read_VASP_XDATCAR,
           'outcar': tp.read_vasp_trajectory}[src]
    return par(p, structure=s, time_step={'lmppos': .0025, 'lmpvel': .0025, 'xdat': .25, 'outcar': None}[src],
               initial_cut=1, end_cut=n, memmap=mm)


def ask(d, r):
    if r == 'vel':
        return scaled(d.velocity, 1000 * U)
    if r == 'rel':
        return scaled(d.get_relative_trajectory(), 1000 * U)
    if r == 'vmass':
        return scaled(d.get_velocity_mass_average(), 1000 * U)
    if r == 'msd':
        return scaled(d.get_mean_displacement_matrix(), 1000 * U * U)
    if r == 'msda':
        return scaled(d.get_mean_displacement_matrix(use_average_positions=True), 1000 * U * U)
    if r == 'step':
        return scaled(d.get_time_step_average())
    if r == 'time':
        return scaled(d.get_time())
    if r == 'traj':
        return scaled(d.trajectory, 1000 * U)
    if r == 'energy':
        return scaled(d.get_energy())
    if r == 'avg':
        return scaled(d.average_positions(), 1000 * U)
    if r == 'avg1':
        return scaled(d.average_positions(number_of_samples=1, to_unit_cell=False), 1000 * U)
    if r == 'avgu':
        return scaled(d.average_positions(to_unit_cell=True), 1000 * U)
    if r == 'adp':
        import dynaphopy
        q = dynaphopy.Quasiparticle(d)
        cart = q.get_anisotropic_displacement_parameters(coordinate_type='cart', print_on_screen=False)
        return {'cart': scaled(cart, 1000 * U * U), 'cart4': scaled(cart, 10000),
                'crys4': scaled(q.get_anisotropic_displacement_parameters(coordinate_type='crys', print_on_screen=False), 10000),
                'uvrs4': scaled(q.get_anisotropic_displacement_parameters(print_on_screen=False), 10000)}
    raise KeyError(r)


def session(events, cidx):
    """cidx: crystal of each created object, by object name"""
    objs = {}
    out = []
    crystal = {}
    nc = 0
    import matplotlib; matplotlib.use('Agg')
    cwd0 = set(os.listdir('.'))
    td = os.environ.get('DYNAPHOPY_TEMPDIR')
    for e in events:
        if e['op'] == 'end':
            continue
        o = e['o']
        r = dict(op=e['op'], o=o, k=e['k'], v=e['v'], c=1, val=0, died=False, why='')
        if e['op'] == 'create':
            crystal[o] = cidx[nc % len(cidx)]; nc += 1
            st, x = dlib.guarded(create, G['crystals'][crystal[o]], e['k'], e['v'] == 1)
            if st == 'ok':
                objs[o] = x
        elif e['op'] == 'drop':
            st, x = 'ok', None
            objs.pop(o, None)
        elif e['op'] == 'crop':
            st, x = dlib.guarded(objs[o].crop_trajectory, e['v']) if o in objs else ('raised', 'not created')
        else:
            st, x = dlib.guarded(ask, objs[o], e['k']) if o in objs else ('raised', 'not created')
            if st == 'ok':
                r['val'] = x
        r['c'] = crystal[o] + 1
        if st != 'ok':
            r['died'] = True
            r['why'] = str(x)
            if e['op'] != 'create' and e['op'] != 'ask':
                pass
        x = None
        gc.collect(1)
        cwd = set(os.listdir('.')) - cwd0
        r['nfiles'] = len(os.listdir(td)) if td else len(cwd)
        r['stray'] = len(cwd) if td else 0
        out.append(r)
    objs.clear()
    gc.collect()
    left = len(os.listdir(td)) if td else 0
    left += len(set(os.listdir('.')) - cwd0)
    return {'events': out, 'left': left, 'died': False}


def batch(items):
    res = []
    for (events, cidx, tempdir) in items:
        wd = tempfile.mkdtemp(prefix='dyn_', dir=os.environ['VERIF_SCRATCH'])
        os.makedirs(wd + '/cwd'); os.makedirs(wd + '/tmp')
        os.chdir(wd + '/cwd')
        if tempdir:
            os.environ['DYNAPHOPY_TEMPDIR'] = wd + '/tmp'
        else:
            os.environ.pop('DYNAPHOPY_TEMPDIR', None)
        res.append(session(events, cidx))
        os.chdir('/')
        shutil.rmtree(wd)
    return res


def work(job):
    wd = os.getcwd()
    G['crystals'] = [toytraj.toy(n, job['steps'], job['seed'] + k) for k, n in enumerate(job['crystals'])]
    G['paths'] = {c['name']: files_for(c, wd) for c in G['crystals']}
    nc = len(G['crystals'])
    items = []
    for k, h in enumerate(job['behaviours']):
        items.append((h, [(k + x) % nc for x in range(nc)], k % 3 != 0))
    size = job.get('batch', 20)
    bs = [items[k:k + size] for k in range(0, len(items), size)]
    res = dlib.fork_map(batch, [(b,) for b in bs], workers=7, timeout=200)
    traces = []
    for b, r in zip(bs, res):
        if r[0] == 'ok':
            traces += r[1]
        else:
            traces += [{'events': [], 'left': 0, 'died': True, 'why': str(r[1])[-400:]} for _ in b]
    for c in G['crystals']:
        c.pop('unit')
    return {'crystals': G['crystals'], 'traces': traces}


if __name__ == '__main__':
    dlib.main(work)
