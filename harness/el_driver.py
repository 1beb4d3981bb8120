"""Crystals of two elements given by symbols, masses, numbers or a POSCAR: what the structure answers"""
import os, tempfile
import numpy as np
import dlib


def one(v):
    from dynaphopy.atoms import Structure
    import dynaphopy.interface.iofile as io
    os.chdir(tempfile.mkdtemp())
    d = dict(cell=np.diag([3., 4., 5.]), scaled_positions=np.array([[0, 0, 0], [.5, .5, .5]]))
    w = v['way']
    if w in ('poscar', 'old'):
        e = ' '.join(v['el'])
        open('POSCAR', 'w').write((e if w == 'old' else 'x') + '\n1.0\n3 0 0\n0 4 0\n0 0 5\n' + ('' if w == 'old' else e + '\n') + '1 1\nDirect\n0 0 0\n.5 .5 .5\n')
        s = io.read_from_file_structure_poscar('POSCAR')
    elif w == 'symbol':
        s = Structure(atomic_elements=list(v['el']), **d)
    elif w == 'number':
        s = Structure(atomic_numbers=list(v['z']), **d)
    else:
        s = Structure(masses=[m / 1000. for m in v['mass']], **d)
    return dict(v=v, died=False, why='', el=[] if w == 'number' else [str(x) for x in s.get_atomic_elements()], z=[int(x) for x in s.get_atomic_numbers()], mass=[dlib.q(x, 1000) for x in s.get_masses()])


def run(job):
    tr = []
    for v in job['behaviours']:
        st, x = dlib.guarded(one, v)
        tr.append(x if st == 'ok' else dict(v=v, died=True, why=str(x), el=[], z=[], mass=[]))
    return dict(traces=tr)


if __name__ == '__main__':
    dlib.main(run)
