"""Files with cells: written by the code (parsed here) and read by the code (written here)."""
import os, subprocess, sys, tempfile
import numpy as np
import dlib
from dyn_driver import scaled

U = 16
REAL = {'Na': (11, 22.98976928), 'Cl': (17, 35.453), 'O': (8, 15.9994), 'Ti': (22, 47.867), 'Si': (14, 28.0855),
        'Ga': (31, 69.723), 'N': (7, 14.0067), 'Mg': (12, 24.305)}


def crystals(seed):
    rng = np.random.RandomState(seed)
    cs = [dict(cell=[[4, 0, 0], [0, 5, 0], [0, 0, 6]], el=['Na', 'Cl', 'Na', 'Cl'], mass=[9, 4, 9, 4]),
          dict(cell=[[4, 0, 0], [3, 4, 0], [-1, 2, 5]], el=['Ga', 'N', 'N'], mass=[16, 1, 1]),
          dict(cell=[[0, 4, 0], [-5, 1, 0], [1, -2, 6]], el=['Ti', 'O', 'O', 'Ti', 'Si'], mass=[7, 2, 2, 7, 5]),
          dict(cell=[[-3, 3, 3], [3, -3, 3], [3, 3, -3]], el=['Si'], mass=[3]),
          dict(cell=[[6, 1, -2], [-2, 5, 1], [1, -3, 7]], el=['O', 'Mg', 'O', 'Na', 'Mg', 'O'], mass=[2, 3, 2, 4, 3, 2])]
    for c in cs:
        n = len(c['el'])
        c['pos'] = np.dot(rng.randint(-8, 40, size=(n, 3)), np.eye(3, dtype=int)).tolist()
        c['charge'] = rng.randint(-3, 4, size=n).tolist()
        c['z'] = [REAL[e][0] for e in c['el']]
        c['realmass'] = [int(round(REAL[e][1] * 1000)) for e in c['el']]
    return cs


def struct(c, real=False, charges=False):
    from dynaphopy.atoms import Structure
    return Structure(cell=np.array(c['cell'], float), positions=np.array(c['pos'], float) / U, atomic_elements=list(c['el']),
                     masses=None if real else [float(x) for x in c['mass']],
                     charges=[float(x) for x in c['charge']] if charges else None)


def describe(s):
    return dict(cell=scaled(s.get_cell()), el=[str(e) for e in s.get_atomic_elements()], pos=scaled(s.get_positions(), 1000 * U),
                z=[int(z) for z in s.get_atomic_numbers()], mass=scaled(s.get_masses()))


def parse_poscar(t):
    ln = t.split('\n')
    names, counts = ln[5].split(), [int(x) for x in ln[6].split()]
    n = sum(counts)
    co = np.array([x.split()[:3] for x in ln[8:8 + n]], float)
    if [x for x in ln[8 + n:] if x.strip()]:
        raise ValueError('more lines than atoms')
    mode = ln[7].strip()
    return dict(scale=int(round(float(ln[1]) * 1000)), cell=scaled([x.split() for x in ln[2:5]] and np.array([x.split() for x in ln[2:5]], float)),
                names=names, counts=counts, mode=mode, coords=scaled(co, 100000 if mode == 'Direct' else 1000 * U))


def parse_lammps(t):
    ln = [x.split() for x in t.split('\n') if x.strip()]
    r = dict(lo=[0, 0, 0], diag=[0, 0, 0])
    d, tri, sec = [0, 0, 0], [0, 0, 0], None
    masses, atoms = [], []
    for x in ln[1:]:
        if x[-1] == 'atoms':
            r['natoms'] = int(x[0])
        elif x[-2:] == ['atom', 'types']:
            r['ntypes'] = int(x[0])
        elif x[-1] in ('xhi', 'yhi', 'zhi'):
            k = 'xyz'.index(x[-1][0])
            r['lo'][k] = int(round(float(x[0]) * 1000))
            d[k] = float(x[1]) - float(x[0])
        elif x[-1] == 'yz':
            tri = [float(v) for v in x[:3]]
        elif x[0] in ('Masses', 'Atoms'):
            sec = x[0]
        elif sec == 'Masses':
            masses.append(x)
        elif sec == 'Atoms':
            atoms.append(x)
    cell = np.array([[d[0], 0, 0], [tri[0], d[1], 0], [tri[1], tri[2], d[2]]])
    q = len(atoms[0]) == 6
    pos = np.array([a[-3:] for a in atoms], float)
    r.update(diag=[int(round(x * 1000)) for x in d], gram=scaled(np.dot(cell, cell.T)), frac=scaled(np.dot(pos, np.linalg.inv(cell)), 100000),
             ids=[int(a[0]) for a in atoms], types=[int(a[1]) for a in atoms], charges=scaled([float(a[2]) for a in atoms]) if q else [],
             masses=[int(round(float(m[1]) * 1000)) for m in sorted(masses, key=lambda m: int(m[0]))])
    return r


def write_poscar(c, t, path):
    cell = np.array(c['cell'], float)
    pos = np.array(c['pos'], float) / U
    names, counts = [], []
    for e in c['el']:
        if names and names[-1] == e:
            counts[-1] += 1
        else:
            names.append(e); counts.append(1)
    if t['scale'] == 'volume':
        s = 1.7
        line = '%.12f' % -abs(np.linalg.det(cell))
    else:
        s = float(t['scale'])
        line = t['scale']
    co = np.dot(pos, np.linalg.inv(cell)) if 'd' in t['mode'].lower()[:3] and 'c' not in t['mode'].lower() or t['mode'] == 'D' else pos / s
    if t['mode'].strip().lower().startswith('d'):
        co = np.dot(pos, np.linalg.inv(cell))
    x = (' '.join(names) if not t['new'] else 'a comment with 12 words') + '\n' + line + '\n'
    x += ''.join('  %18.12f %18.12f %18.12f\n' % tuple(r) for r in cell / s)
    if t['new']:
        x += '  ' + '  '.join(names) + '\n'
    x += '  ' + ' '.join(map(str, counts)) + '\n' + t['mode'] + '\n'
    x += ''.join(' %18.12f %18.12f %18.12f\n' % tuple(r) for r in co) + '\n'
    open(path, 'w').write(x)


def write_outcar(c, path):
    """the parts of an OUTCAR that the structure is read from; elements one run each"""
    cell = np.array(c['cell'], float)
    pos = np.array(c['pos'], float) / U
    inv = np.linalg.inv(cell).T
    names, counts = [], []
    for e in c['el']:
        if names and names[-1] == e:
            counts[-1] += 1
        else:
            names.append(e); counts.append(1)
    t = ' vasp\n' + ''.join('   POMASS =%9.3f; ZVAL   =    4.000    mass and valenz\n' % REAL[e][1] for e in names)
    t += ' positions in direct lattice\n   number of dos      NEDOS =    301   number of ions     NIONS = %6d\n' % len(pos)
    t += '   ions per type = ' + ''.join('%16d' % n if k == 0 else '%4d' % n for k, n in enumerate(counts)) + '\n\n'
    t += '  Mass of Ions in am\n   POMASS = ' + ''.join('%6.2f' % REAL[e][1] for e in names) + '\n  Ionic Valenz\n   ZVAL   =   4.00\n'
    t += '   POTIM  = 1.0    time-step for ionic-motion\n'
    t += '      direct lattice vectors                 reciprocal lattice vectors\n'
    for r, s in zip(cell, inv):
        t += '  ' + ' '.join('%13.9f' % x for x in list(r) + list(s)) + '\n'
    t += '\n position of ions in fractional coordinates (direct lattice) \n'
    t += ''.join('  %11.8f %11.8f %11.8f\n' % tuple(x) for x in np.dot(pos, np.linalg.inv(cell)))
    t += '\n position of ions in cartesian coordinates  (Angst):\n'
    t += ''.join('  %11.8f %11.8f %11.8f\n' % tuple(x) for x in pos) + '\n'
    open(path, 'w').write(t)


def cli(c, t, wd):
    """dynaphopy input -c_poscar/-c_lammps file --dim ..."""
    write_poscar(c, dict(new=True, mode='Direct', scale='1.0'), wd + '/cell_in')
    open(wd + '/input', 'w').write('STRUCTURE FILE POSCAR\ncell_in\n')
    p = subprocess.run([sys.executable, os.path.join(os.environ['VERIF_PKG'], 'scripts', 'dynaphopy'), 'input',
                        '-c_poscar' if t['fmt'] == 'vasp' else '-c_lammps', 'out', '--dim'] + [str(x) for x in t['sc']],
                       cwd=wd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, text=True, timeout=100)
    if not os.path.exists(wd + '/out'):
        raise RuntimeError('no file: ' + p.stdout[-300:])
    return open(wd + '/out').read()


def usual(sc):
    return {} if tuple(sc) == (1, 1, 1) else {'supercell': tuple(sc)}      # one cell unless said


def one(c, t, wd):
    from dynaphopy.generate_cell import generate_VASP_structure, generate_LAMMPS_structure
    import dynaphopy.interface.iofile as io
    if t['task'] in ('vasp', 'cli') and t.get('fmt', 'vasp') == 'vasp':
        txt = cli(c, t, wd) if t['task'] == 'cli' else generate_VASP_structure(struct(c), **dict({'scaled': True} if t['frac'] else {}, **usual(t['sc'])))
        r = parse_poscar(txt)
        open(wd + '/P', 'w').write(txt)
        r['again'] = describe(io.read_from_file_structure_poscar(wd + '/P'))
        r['task'] = 'vasp'
        if t['task'] == 'cli':
            r['frac'] = True
        return r
    if t['task'] in ('lammps', 'cli'):
        txt = cli(c, t, wd) if t['task'] == 'cli' else generate_LAMMPS_structure(struct(c, charges=t['ch']), **usual(t['sc']))
        r = parse_lammps(txt)
        r['task'] = 'lammps'
        r['ch'] = t.get('ch', False)
        r['real'] = t['task'] == 'cli'
        return r
    if t['task'] == 'outcar':
        write_outcar(c, wd + '/OUTCAR')
        r = describe(io.read_from_file_structure_outcar(wd + '/OUTCAR'))
        r['masstol'] = 6
    else:
        write_poscar(c, t, wd + '/P')
        r = describe(io.read_from_file_structure_poscar(wd + '/P'))
        r['masstol'] = 1
    r['task'] = 'read'
    return r


def batch(items, cr):
    res = []
    wd = tempfile.mkdtemp(prefix='cell_', dir=os.environ['VERIF_SCRATCH'])
    for t in items:
        for f in os.listdir(wd):
            os.remove(os.path.join(wd, f))
        st, x = dlib.guarded(one, cr[t['c'] - 1], t, wd)
        r = dict(t, died=st != 'ok', why='' if st == 'ok' else str(x))
        if st == 'ok':
            r.update(x)
        res.append(r)
    return res


def work(job):
    cr = crystals(job['seed'])
    items = job['behaviours']
    cl = [t for t in items if t['task'] == 'cli']
    rest = [t for t in items if t['task'] != 'cli']
    bs = [[t] for t in cl] + [rest[k:k + 20] for k in range(0, len(rest), 20)]
    res = dlib.fork_map(batch, [(b, cr) for b in bs], workers=7, timeout=200)
    traces = []
    for b, r in zip(bs, res):
        traces += r[1] if r[0] == 'ok' else [dict(t, died=True, why=str(r[1])[-300:]) for t in b]
    return {'crystals': cr, 'traces': traces}


if __name__ == '__main__':
    dlib.main(work)
