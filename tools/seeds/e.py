SEEDS = {
 'c05-lammps-origin': dict(property='C05',
  edits=[('dynaphopy/interface/iofile/trajectory_parsers.py', "                                       [0,   0,  zhi-zlo]]).T", "                                       [0,   0,  zhi]]).T")],
  needs='a LAMMPS file whose box does not begin at zero along z',
  what='the cell read from a LAMMPS file is wrong when its box does not begin at zero along z',
  demo=TOY + r'''
import tempfile
os.chdir(tempfile.mkdtemp())
from dynaphopy.interface.iofile import trajectory_parsers as tp
s = structure()
pos = s.get_positions(supercell=[2, 1, 1])
t = ''
for k in range(5):
    t += 'ITEM: TIMESTEP\n%d\nITEM: NUMBER OF ATOMS\n%d\nITEM: BOX BOUNDS pp pp pp\n0.0 8.0\n0.0 5.0\n-3.0 3.0\nITEM: ATOMS x y z\n' % (k, len(pos))
    t += ''.join('%.8f %.8f %.8f\n' % tuple(p) for p in pos + .01 * k)
open('dump', 'w').write(t)
with contextlib.redirect_stdout(io.StringIO()):
    d = tp.read_lammps_trajectory('dump', s, 0.001)
ok = np.allclose(d.get_supercell(), np.diag([8., 5., 6.]))
sys.exit(0 if ok else 1)
'''),
}
