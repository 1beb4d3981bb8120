"""Input files with their sections in every order, read by the code."""
import os, tempfile
import numpy as np
import dlib
from dyn_driver import scaled

FILL = {'none': '', 'blank': '\n\n', 'comment': '# a comment: 1 2 3\n', 'titlecomment': '#MESH PHONOPY\n'}


def given(seed):
    rng = np.random.RandomState(seed)
    res = []
    for v in range(6):
        res.append(dict(poscar=['my_POSCAR', 'dir/POSCAR_unitcell', 'unit cell/POSCAR'][v % 3], outcar=['OUTCAR_%d' % v, 'run %d/OUT CAR' % v][v % 3 == 2], fsets=['FORCE_SETS_%d' % v, 'run %d/FORCE_SETS' % v][v % 3 == 1],
                        fconst=['../FC/FORCE_CONSTANTS_%dx2' % v, 'FORCE CONSTS: %d' % v][v % 2],
                        prim=(rng.randint(-2, 3, size=(3, 3)) * 500 + np.eye(3, dtype=int) * (v % 2) * 333).tolist(),
                        super=(np.diag(rng.randint(1, 9, size=3)) + (v == 5) * rng.randint(0, 2, size=(3, 3))).tolist(),
                        mesh=rng.randint(1, 60, size=3).tolist(),
                        bands=(rng.randint(-20, 21, size=(2, 2, 3)) * 50).tolist(),
                        bandsl=(rng.randint(0, 1001, size=(3, 2, 3))).tolist(),
                        labels=[['G%d' % v, 'X'], ['X', '1/2,0'[:3]], ['K', 'L%d' % (v % 3)]]))
    return res


def section(s, g, v):
    f = lambda r: '  '.join('%.3f' % (x / 1000.) for x in r)
    if s in ('poscar', 'outcar', 'fsets', 'fconst'):
        title = {'poscar': 'STRUCTURE FILE POSCAR', 'outcar': 'STRUCTURE FILE OUTCAR', 'fsets': 'FORCE SETS', 'fconst': 'FORCE CONSTANTS'}[s]
        return [title, ('  ' if v == 2 else '') + g[s] + (' ' if v == 3 else '')]
    if s == 'prim':
        return ['PRIMITIVE MATRIX'] + [(' ' * (v % 3)) + f(r) for r in g['prim']]
    if s == 'super':
        return ['SUPERCELL MATRIX'] + ['\t'.join(map(str, r)) if v == 4 else ' '.join(map(str, r)) for r in g['super']]
    if s == 'mesh':
        return ['MESH PHONOPY', '  '.join(map(str, g['mesh']))]
    sep = ', ' if v % 2 else '   '
    b = [sep.join('%.3f' % (x / 1000.) for x in r[0]) + '     ' + sep.join('%.3f' % (x / 1000.) for x in r[1]) for r in g[s]]
    if s == 'bandsl':
        b = [x + ('  : ' if v < 3 else ':') + (' , ' if v % 2 else ',').join(l) for x, l in zip(b, g['labels'])]
    return ['BANDS'] + b


def bands(r):
    return [] if r is None else scaled([[np.array(b)[0], np.array(b)[1]] for b in r['ranges']])


def one(t, g):
    import dynaphopy.interface.iofile as io
    from dynaphopy.atoms import Structure
    from dynaphopy.parameters import Parameters
    v = t['variant'] - 1
    txt = ''.join(FILL[t['filler']] + '\n'.join(section(s, g, v)) + '\n' for s in t['order'])
    if v in (1, 4):
        txt = txt.rstrip('\n')                  # no new line at the end of the file
    open('input', 'w').write(txt)
    d = io.read_parameters_from_input_file('input')
    one_ = lambda k: [str(d[k])] if k in d else []
    num = lambda k, s: scaled(d[k], s) if k in d else []
    read = dict(poscar=one_('structure_file_name_poscar'), outcar=one_('structure_file_name_outcar'), fsets=one_('force_sets_file_name'),
                fconst=one_('force_constants_file_name'), prim=num('_primitive_matrix', 1000), super=num('supercell_phonon', 1),
                mesh=num('_mesh_phonopy', 1), bands=bands(d.get('_band_ranges')),
                labels=[[str(x) for x in l] for l in d['_band_ranges'].get('labels', [])] if '_band_ranges' in d else [])
    s = Structure(cell=np.eye(3) * 4, positions=np.zeros((1, 3)), atomic_elements=['Si'])
    s.get_primitive_cell(); s.get_atom_type_index()
    s.get_data_from_dict(d)
    p = Parameters()
    p.get_data_from_dict(d)
    used = dict(prim=scaled(np.dot(np.linalg.inv(s.get_cell().T), s.get_primitive_cell().T)), mesh=scaled(p.mesh_phonopy, 1) if '_mesh_phonopy' in d else [],
                bands=bands(p.band_ranges) if '_band_ranges' in d else [])
    return read, used


def batch(items, gs):
    wd = tempfile.mkdtemp(prefix='in_', dir=os.environ['VERIF_SCRATCH'])
    os.chdir(wd)
    res = []
    for t in items:
        st, x = dlib.guarded(one, t, gs[t['variant'] - 1])
        res.append(dict(t, died=st != 'ok', why='' if st == 'ok' else str(x), read=x[0] if st == 'ok' else 0, used=x[1] if st == 'ok' else 0))
    return res


def work(job):
    gs = given(job['seed'])
    items = [dict(t, variant=(k % len(gs)) + 1) for k, t in enumerate(job['behaviours'])]
    bs = [items[k:k + 300] for k in range(0, len(items), 300)]
    res = dlib.fork_map(batch, [(b, gs) for b in bs], workers=7, timeout=200)
    traces = []
    for b, r in zip(bs, res):
        traces += r[1] if r[0] == 'ok' else [dict(t, died=True, why=str(r[1])[-300:], read=0, used=0) for t in b]
    return {'given': gs, 'traces': traces}


if __name__ == '__main__':
    dlib.main(work)
