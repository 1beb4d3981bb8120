"""Reads trajectory files (whole, in part, cut at any byte) with the readers of the package."""
import gc, os, shutil, tempfile
import numpy as np
import dlib, toytraj
from dyn_driver import scaled

U = toytraj.U
G = {}
# LAMMPS and XDATCAR step numbers
FORMATS = ['lmppos', 'lmpvel', 'xdat', 'outcar', 'hdf5']


def make(fmt, name, n, seed):
    c = toytraj.toy(name, n, seed)
    T = toytraj.TOY[name]
    H = np.array(c['H'], float) / U
    raw = np.array(c['raw'], float) / U
    vel = np.array(c['vel'], float) / U
    R = np.array(T.get('lmp', np.eye(3)), float)
    f = dict(fmt=fmt, name=name, energy=[], vel=[], t0=dict(outcar=-1, hdf5=995).get(fmt, 0), cell=scaled(H, 1000 * U), mapped=fmt in ('lmppos', 'lmpvel', 'xdat'))
    rng = np.random.RandomState(seed + 5)
    if fmt in ('lmppos', 'lmpvel'):
        st = [100 + 10 * k for k in range(n)]
        d = raw if fmt == 'lmppos' else vel
        f['text'], f['ends'] = toytraj.lammps_text(np.dot(d, R), np.dot(H, R), st,
                                                   labels='x y z' if fmt == 'lmppos' else 'vx vy vz', fmt='%.6f', lo=(-1.25, .5, 2.))
        f['data'] = scaled(d, 1000 * U)
        f['stepno'], f['ts'], f['dt'] = st, 2, .002
    elif fmt == 'xdat':
        el = [T['el'][u] for u in c['unit']]
        names, counts = [], []
        for e in el:
            if names and names[-1] == e:
                counts[-1] += 1
            else:
                names.append(e); counts.append(1)
        f['text'], f['ends'] = toytraj.xdatcar_text(np.dot(raw, np.linalg.inv(H)), H, names, counts, fmt='%12.8f', scale={'A': 2.5, 'B': 1, 'D': 'V'}.get(name, .5))
        f['data'] = scaled(raw, 1000 * U)
        f['stepno'], f['ts'], f['dt'] = [k + 1 for k in range(n)], 4, .004
    elif fmt == 'outcar':
        f['text'], f['ends'] = toytraj.outcar_text(raw, H, 3.0, c['energy'])
        f['data'] = scaled(raw, 1000 * U)
        f['energy'] = [1000 * e for e in c['energy']]
        f['stepno'], f['ts'], f['dt'] = [k + 1 for k in range(n)], 3, None
    else:
        f['data'] = scaled(raw, 1000 * U)
        f['vel'] = scaled(vel, 1000 * U)
        f['stepno'], f['ts'], f['dt'] = [k + 1 for k in range(n)], 5, None
        f['ends'] = []
        import h5py
        p = os.path.join(G['wd'], 'src_%s_%s_%d.h5' % (fmt, name, n))
        with h5py.File(p, 'w') as h:
            h['trajectory'] = raw.astype(complex)
            h['velocity'] = vel.astype(complex)
            h['time'] = 1.0 + .005 * np.arange(n)
            h['super_cell'] = np.array(T['md'])
        f['path'] = p
    if 'text' in f:
        # where the last number of each step ends
        f['nums'] = [len(f['text'][:e].rstrip()) for e in f['ends']]
        if fmt == 'outcar':
            pass
        f['path'] = os.path.join(G['wd'], '%s_%s_%d' % (fmt, name, n))
        open(f['path'], 'w').write(f['text'])
    else:
        f['nums'] = []
    return f


USUAL = dict(initial_cut=1, end_cut=None, final_cut=None, memmap=False)


def said(**kw):
    return {k: v for k, v in kw.items() if v != USUAL[k]}      # what is usual is left out


def read(f, path, r):
    from dynaphopy.interface.iofile import trajectory_parsers as tp
    import dynaphopy.interface.iofile as iofile
    s = toytraj.structure(f['name'])
    if f['fmt'] == 'hdf5':
        d = iofile.initialize_from_hdf5_file(path, s, **said(initial_cut=r['a'], final_cut=r['b'] or None, memmap=r['mm']))
    else:
        par = iofile.get_trajectory_parser(path)
        if par is None:
            raise ValueError('format not recognized')
        kw = {}
        if r['lim']:
            kw['limit_number_steps'] = r['lim']
        if r['last']:
            kw['last_steps'] = r['last']
        if r['tpl0'] is not None:
            kw['template'] = np.array(r['tpl0'])
        d = par(path, s, f['dt'], **dict(kw, **said(initial_cut=r['a'], end_cut=r['b'] or None, memmap=r['mm'])))
    t = d.get_time()
    return dict(cell=scaled(d.get_supercell(), 1000 * U), data=scaled(d.velocity if f['fmt'] == 'lmpvel' else d.trajectory, 1000 * U), time=scaled(t - 0 * t[0], 1000),
                energy=scaled(d.get_energy(), 1000) if f['fmt'] == 'outcar' else [],
                vel=scaled(d.velocity, 1000 * U) if f['fmt'] == 'hdf5' else [])


def batch(fi, reqs):
    f = G['files'][fi]
    wd = tempfile.mkdtemp(prefix='rd_', dir=os.environ['VERIF_SCRATCH'])
    os.makedirs(wd + '/cwd'); os.makedirs(wd + '/tmp')
    os.chdir(wd + '/cwd')
    out = []
    for n, r in enumerate(reqs):
        if n % 2:
            os.environ['DYNAPHOPY_TEMPDIR'] = wd + '/tmp'
        else:
            os.environ.pop('DYNAPHOPY_TEMPDIR', None)
        path = f['path']
        if r['kind'] == 'cut':
            path = wd + '/cutfile'
            open(path, 'w').write(f['text'][:r['cut']])
        st, x = dlib.guarded(read, f, path, r)
        o = dict(kind=r['kind'], f=fi + 1, a=r['a'], b=r['b'], lim=r['lim'], last=r['last'], mm=r['mm'], cut=r['cut'],
                 tpl=[k + 1 for k in r['tpl0']] if r['tpl0'] is not None else [k + 1 for k in range(len(f['data'][0]))],
                 refused=st != 'ok', why=str(x) if st != 'ok' else '', data=[], time=[], energy=[], vel=[], cell=[])
        if st == 'ok':
            o.update(x)
        x = None
        gc.collect(1)
        o['left'] = bool(os.listdir(wd + '/cwd') or os.listdir(wd + '/tmp'))
        if o['left']:
            gc.collect()
            for d in ('/cwd', '/tmp'):
                for q in os.listdir(wd + d):
                    os.remove(wd + d + '/' + q)
        out.append(o)
    os.chdir('/')
    shutil.rmtree(wd)
    return out


def work(job):
    G['wd'] = os.getcwd()
    rng = np.random.RandomState(job['seed'])
    G['files'] = files = []
    tasks = []

    def file_for(fmt, name, n):
        for k, f in enumerate(files):
            if (f['fmt'], f['name'], len(f['data'])) == (fmt, name, n):
                return k
        files.append(make(fmt, name, n, job['seed'] * 31 + len(files)))
        return len(files) - 1

    per = {}
    for k, c in enumerate(job['windows']):
        for fmt in FORMATS:
            if fmt == 'hdf5' and (c['lim'] or c['last']):
                continue
            for mm in (False, True):
                name = job['crystals'][(k + len(fmt) + mm) % len(job['crystals'])]
                fi = file_for(fmt, name, c['n'])
                nat = len(files[fi]['data'][0])
                tpl = [int(x) for x in rng.permutation(nat)] if (k % 2 and fmt != 'hdf5') else None
                per.setdefault(fi, []).append(dict(kind='window', a=c['a'], b=c['b'], lim=c['lim'], last=c['last'], mm=mm, cut=0, tpl0=tpl))
    for fmt in FORMATS[:4]:
        for name in job['cut_crystals']:
            fi = file_for(fmt, name, job['cut_steps'])
            size = len(files[fi]['text'])
            for cut in range(0, size, job['stride']):
                for (a, b, lim, last, mm) in [(1, 0, 0, 0, False), (1, job['cut_steps'], 0, 0, True),
                                              (2, job['cut_steps'], 0, 1, cut % 2 == 0)][:3 if cut % 3 == 0 else 2]:
                    per.setdefault(fi, []).append(dict(kind='cut', a=a, b=b, lim=lim, last=last, mm=mm, cut=cut, tpl0=None))
    for fi, rs in per.items():
        for k in range(0, len(rs), 150):
            tasks.append((fi, rs[k:k + 150]))
    res = dlib.fork_map(batch, tasks, workers=8, timeout=300)
    traces, lost = [], []
    for t, r in zip(tasks, res):
        if r[0] == 'ok':
            traces += r[1]
        else:
            lost.append(str(r[1])[-500:])
    keep = ('fmt', 'ends', 'nums', 'data', 'vel', 'energy', 'stepno', 'ts', 'mapped', 't0', 'cell')
    return {'files': [{k: f[k] for k in keep} for f in files], 'traces': traces, 'lost': lost}


if __name__ == '__main__':
    dlib.main(work)
