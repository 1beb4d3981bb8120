TOY = TOY + r'''
import runpy, tempfile, itertools, io, contextlib
os.chdir(tempfile.mkdtemp())
def script(name, *args):
    out = io.StringIO()
    sys.argv = [name] + [str(a) for a in args]
    with contextlib.redirect_stdout(out):
        try:
            runpy.run_path(os.environ['REPO'] + '/scripts/' + name, run_name='__main__')
        except SystemExit as e:
            assert not e.code, out.getvalue()
    return out.getvalue()

def chain(n=(4, 1, 1), K=None, a=(3., 3.3, 3.7)):
    from phonopy.file_IO import write_FORCE_CONSTANTS
    K = kmat(2., .5) if K is None else K
    write_FORCE_CONSTANTS(springs(n, K), filename='FC')
    open('POSCAR', 'w').write('toy\n1.0\n%f 0 0\n0 %f 0\n0 0 %f\nAr\n1\nDirect\n0 0 0\n' % a)
    open('input', 'w').write('STRUCTURE FILE POSCAR\nPOSCAR\n\nFORCE CONSTANTS\nFC\n\nPRIMITIVE MATRIX\n1 0 0\n0 1 0\n0 0 1\n\nSUPERCELL MATRIX\n%d 0 0\n0 %d 0\n0 0 %d\n' % n)
    return K
'''
SEEDS = {
 'c23-minimum-only-gamma': dict(property='C23',
  edits=[('dynaphopy/interface/iofile/__init__.py', 'if abs(frequencies_r[i_long][i_freq]) > minimum_frequency:', 'if i_long > 0 or abs(frequencies_r[i_long][i_freq]) > minimum_frequency:')],
  needs='a minimum frequency above some phonon at a wave vector other than zero',
  what='the minimum frequency is applied to the phonons at Gamma only: slow phonons elsewhere, with their large amplitudes, are not left out',
  demo=TOY + r'''
import dynaphopy.interface.iofile as reading
s = Structure(cell=np.diag([3., 3.3, 3.7]), scaled_positions=np.array([[0., 0, 0]]), atomic_elements=['Ar'], primitive_matrix=np.eye(3))
s.set_force_constants(ForceConstants(springs((4, 1, 1), [np.diag([2., .05, .02]), np.zeros((3, 3)), np.zeros((3, 3))]), supercell=np.diag([4, 1, 1])))
d = reading.generate_test_trajectory(s, supercell=[4, 1, 1], minimum_frequency=3., total_time=.4, time_step=.01, silent=True)
u = np.real(d.trajectory) - np.array(s.get_positions(supercell=[4, 1, 1]))[None]
sys.exit(0 if np.abs(u[:, :, 1:]).max() < 1e-9 < np.abs(u[:, :, 0]).max() else 1)
'''),
 'c23-energy-per-cell': dict(property='C23',
  edits=[('dynaphopy/interface/iofile/__init__.py', 'energy = np.array([number_of_atoms * number_of_dimensions *', 'energy = np.array([number_of_primitive_atoms * number_of_primitive_cells / len(q_vector_list) * number_of_dimensions *')],
  needs='a supercell with more than one primitive cell, and someone who reads the energies',
  what='the energies of the trajectory are those of one primitive cell',
  demo=TOY + r'''
import dynaphopy.interface.iofile as reading
s = Structure(cell=np.diag([3., 3.3, 3.7]), scaled_positions=np.array([[0., 0, 0]]), atomic_elements=['Ar'], primitive_matrix=np.eye(3))
s.set_force_constants(ForceConstants(springs((4, 1, 1), kmat(2., .5)), supercell=np.diag([4, 1, 1])))
e = np.array(reading.generate_test_trajectory(s, supercell=[4, 1, 1], total_time=.2, time_step=.01, temperature=200, silent=True).get_energy())
sys.exit(0 if np.allclose(e, 12 * .831446 * 200) else 1)
'''),
 'c24-sorted-frequencies': dict(property='C24',
  edits=[('scripts/rfc_calc', 'renormalized_frequencies = np.array(renormalized_frequencies)\n', 'renormalized_frequencies = np.sort(renormalized_frequencies, axis=1)\n')],
  needs='renormalized frequencies whose order is not that of the harmonic ones',
  what='rfc_calc gives frequencies that cross to the eigenvectors of others',
  demo=TOY + r'''
K = chain((2, 1, 1), [np.diag([2., 1.8, .5]), np.zeros((3, 3)), np.zeros((3, 3))])
f = np.sort(freq(K, (.5, 0, 0)))
new = [f[0], f[1] * 1.2, f[2] * .9]
open('qp', 'w').write(''.join('p%d:\n  reduced_wave_vector: [%.8f, 0.0, 0.0]\n  frequencies: [%.8f, %.8f, %.8f]\n' % ((k, q) + tuple(x)) for k, (q, x) in enumerate([(0., [0, 0, 0]), (.5, new)])))
script('rfc_calc', 'input', 'qp', '-s', 'OUT')
from phonopy.file_IO import parse_FORCE_CONSTANTS
o = parse_FORCE_CONSTANTS('OUT')
old = springs((2, 1, 1), K)
want = np.array([.81, 1.44, 1.])            # x is the highest, y the next
sys.exit(0 if np.allclose(np.diag(o[0, 0]), np.diag(old[0, 0]) * want, rtol=1e-2) else 1)
'''),
 'c24-sets-of-bands': dict(property='C24',
  edits=[('scripts/fitdata', 'data_temp += initial_data[:, degenerate]/len(phonon)', 'data_temp += initial_data[:, degenerate]/len(degeneracy[0])')],
  needs='sets of bands of different sizes',
  what='fitdata divides every average by the size of the first set',
  demo=TOY + r'''
f = np.arange(81) * .05
y = [100 / (1 + ((f - p) / .2) ** 2) for p in (1., 1.2, 2.4)]
open('data', 'w').write(''.join('%10.4f %.10e %.10e %.10e\n' % ((f[k],) + tuple(c[k] for c in y)) for k in range(81)))
script('fitdata', 'data', '-bi', '1', '2,3', '--silent', '-s', 'OUT')
o = np.loadtxt('OUT')
n = len(o)
sys.exit(0 if np.allclose(o[:, 1], ((y[0] + y[1]) / 2)[-n:]) and np.allclose(o[:, 2], y[2][-n:]) else 1)
'''),
 'c24-energies-unsorted': dict(property='C24',
  edits=[('scripts/qha_extract', 'electronic_energies = np.array(electronic_energies)[sort_index]', 'electronic_energies = np.array(electronic_energies)')],
  needs='an energy-volume file that is not in the order of the volumes',
  what='qha_extract gives the energies of the file to the volumes in order',
  demo=TOY + r'''
from phonopy import Phonopy
from phonopy.structure.atoms import PhonopyAtoms
from phonopy.file_IO import write_FORCE_CONSTANTS, parse_FORCE_CONSTANTS
def run(order):
    K = chain((2, 2, 2))
    text = open('input').read().replace('FORCE CONSTANTS\nFC\n\n', '')
    open('input', 'w').write(text)
    fc0 = springs((2, 2, 2), K)
    xs = np.linspace(-.04, .06, 7)
    ev = open('ev', 'w')
    for k, i in enumerate(order):
        x = xs[i]
        fc = fc0 * (1 - 2 * x)
        write_FORCE_CONSTANTS(fc, filename='F-%d' % k)
        ph = Phonopy(PhonopyAtoms(symbols=['Ar'], scaled_positions=[[0, 0, 0]], cell=np.diag([3., 3.3, 3.7])), np.diag([2, 2, 2]), primitive_matrix=np.eye(3))
        ph.force_constants = fc
        ph.run_mesh([3, 3, 3])
        ph.run_thermal_properties(t_min=0, t_max=320, t_step=20, cutoff_frequency=.3)
        ph.write_yaml_thermal_properties(filename='T-%d' % k)
        ev.write('%.8f %.8f\n' % (36.63 * (1 + x), 40 * x * x))
    ev.close()
    n = range(len(order))
    script('qha_extract', 'input', '-fc', *(['F-%d' % k for k in n] + ['-tp'] + ['T-%d' % k for k in n] + ['-ev', 'ev', '-t', 200, '-sfc', 'OUT']))
    return (parse_FORCE_CONSTANTS('OUT') * fc0).sum() / (fc0 ** 2).sum()
a = run([0, 1, 2, 3, 4, 5, 6])
try:
    b = run([6, 5, 4, 3, 2, 1, 0])
    c = run([1, 0, 2, 3, 4, 6, 5])
except Exception:
    sys.exit(1)
sys.exit(0 if .9 < a < 1.1 and abs(a - 1) > 1e-5 and abs(a - b) < 1e-4 and abs(a - c) < 1e-4 else 1)
'''),
}
