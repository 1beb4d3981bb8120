TOY = TOY + r'''
from dynaphopy.interface.phonopy_link import ForceConstants
CONV = 15.633302

def springs(n, K):
    """one atom per cell, springs K[d] (3x3) to the neighbours along axis d; atoms with the first axis running fastest"""
    N = int(np.prod(n))
    site = [(x, y, z) for z in range(n[2]) for y in range(n[1]) for x in range(n[0])]
    fc = np.zeros((N, N, 3, 3))
    for i, s in enumerate(site):
        for d in range(3):
            for g in (1, -1):
                o = list(s)
                o[d] = (o[d] + g) % n[d]
                fc[i, site.index(tuple(o))] -= K[d]
                fc[i, i] += K[d]
    return fc

def kmat(kl, kt):
    return [np.diag([kl if e == d else kt for e in range(3)]).astype(float) for d in range(3)]

MASS = 40.
def freq(K, q):
    return CONV * np.sqrt(sum(2 * np.diag(K[d]) * (1 - np.cos(2 * np.pi * q[d])) for d in range(3)) / MASS)

def waves(n, modes, a, steps=2048, dt=.008):
    """modes: (q of 0 and 1/2, direction, frequency, decay)"""
    site = np.array([(x, y, z) for z in range(n[2]) for y in range(n[1]) for x in range(n[0])])
    t = np.arange(steps) * dt
    v = np.zeros((steps, len(site), 3))
    for j, (q, d, f, g) in enumerate(modes):
        v[:, :, d] += (np.cos(2 * np.pi * f * t + j) * np.exp(-g * t))[:, None] * np.cos(2 * np.pi * site.dot(q))[None]
    return t, v

def quasi(n, K, modes, a=(3., 3.3, 3.7)):
    s = Structure(cell=np.diag(a), scaled_positions=np.array([[0., 0, 0]]), atomic_elements=['Ar'], masses=[MASS], primitive_matrix=np.eye(3))
    s.set_force_constants(ForceConstants(springs(n, K), supercell=np.diag(n)))
    t, v = waves(n, modes, a)
    c = dynaphopy.Quasiparticle(Dynamics(structure=s, velocity=v.astype(complex), time=t, supercell=np.diag(np.array(a) * n)))
    c.parameters.silent = True
    c.parameters.mesh_phonopy = (4, 4, 4)
    c.select_power_spectra_algorithm(2)
    c.set_spectra_resolution(.04)
    return c
'''
SEEDS = {
 'c22-primitive-cell-kept': dict(property='C22',
  edits=[('dynaphopy/atoms.py', '''        self._atom_types_clear()
        self._primitive_cell = None

    def get_primitive_matrix''', '''        self._atom_types_clear()

    def get_primitive_matrix''')],
  needs='the primitive cell requested, then another primitive matrix set',
  what='the primitive cell of the matrix before',
  demo=TOY + r'''
s = structure()
s.get_primitive_cell()
s.set_primitive_matrix(np.array([[0, .5, .5], [.5, 0, .5], [.5, .5, 0]]))
sys.exit(0 if abs(abs(np.linalg.det(s.get_primitive_cell())) - 30) < 1e-6 else 1)
'''),
 'c11-trapezoid': dict(property='C11',
  edits=[('c/correlation.c', 'creal(Correl) + creal(Correl_i) + creal(Correl_j), cimag(Correl) + cimag(Correl_i)', 'creal(Correl) + 2*creal(Correl_j), cimag(Correl) + cimag(Correl_i)')],
  needs='the direct method with integration by trapezoids',
  what='rectangles at the later end',
  demo=TOY + r'''
from dynaphopy.power_spectrum import correlation
rng = np.random.RandomState(0)
v = rng.normal(size=61) + 1j * rng.normal(size=61)
f = np.array([.3, 1.1, 4.])
ok = True
for s in (1, 3, 10):
    w, ref, dt = 2 * np.pi * f, np.zeros(3), .05
    for i in range(0, 61, s):
        for j in range(61 - i - s):
            ref += np.real(v[j].conj() * v[j + i] * np.exp(1j * w * i * dt) + v[j].conj() * v[j + i + s] * np.exp(1j * w * (i + s) * dt))
    ok &= np.allclose(correlation.correlation_par(f, v, dt, step=s, integration_method=0), ref * dt * s / 61)
sys.exit(0 if ok else 1)
'''),
 'c12-small-channels': dict(property='C12',
  edits=[('dynaphopy/power_spectrum/__init__.py', '''        psd_vector.append(_numpy_power(test_frequency_range, vq[:, i],
                                       trajectory.get_time_step_average()),
                          )''', '''        signal = vq[:, i]
        if np.abs(signal).max() < 1e-4 * np.abs(vq).max():
            psd_vector.append(np.zeros(len(test_frequency_range)))
            continue
        psd_vector.append(_numpy_power(test_frequency_range, signal,
                                       trajectory.get_time_step_average()))''')],
  needs='a signal much smaller than another one analysed together with it (FFT)',
  what='the spectrum of the small one is zero',
  demo=TOY + r'''
from dynaphopy import power_spectrum as ps
from dynaphopy.parameters import Parameters
p = Parameters(silent=True)
p.frequency_range = np.arange(0, 8, .25)
d = dynamics(steps=400)
rng = np.random.RandomState(0)
v = rng.normal(size=(400, 2)) + 1j * rng.normal(size=(400, 2))
v[:, 1] *= 1e-5
a = ps.get_fft_numpy_spectra(v, d, p)
b = ps.get_fft_numpy_spectra(v[:, 1:], d, p)
sys.exit(0 if np.allclose(a[:, 1], b[:, 0], rtol=1e-6, atol=0) else 1)
'''),
 'c13-sets-all': dict(property='C13',
  edits=[('dynaphopy/analysis/fitting/__init__.py', 'freqs[j]) < cutoff).any():', 'freqs[j]) < cutoff).all():')],
  needs='three phonons linked by steps under 1e-4 THz whose ends are farther apart',
  what='the last phonon is left out of the degenerate set',
  demo=TOY + r'''
from dynaphopy.analysis.fitting import degenerate_sets
s = degenerate_sets(np.array([1., 1.00007, 1.00014, 2.]))
sys.exit(0 if sorted(sorted(x) for x in s) == [[0, 1, 2], [3]] else 1)
'''),
 'c18-projected-per-cell': dict(property='C18',
  edits=[('dynaphopy/interface/phonopy_link.py', '''    #Normalize to unit cell
    total_dos[1, :] *= float(structure.get_number_of_atoms())/structure.get_number_of_primitive_atoms()
    return total_dos''', '''    #Normalize to unit cell
    if projected_on_atom < 0:
        total_dos[1, :] *= float(structure.get_number_of_atoms())/structure.get_number_of_primitive_atoms()
    return total_dos''')],
  needs='a unit cell with several primitive cells and the density of states of one atom',
  what='the density (and thermal properties) of one atom are those of the primitive cell',
  demo=TOY + r'''
from dynaphopy.interface.phonopy_link import obtain_phonopy_dos
cell = np.diag([6., 3.3, 3.7])
s = Structure(cell=cell, scaled_positions=np.array([[0., 0, 0], [.5, 0, 0]]), atomic_elements=['Ar', 'Ar'], masses=[MASS] * 2,
              primitive_matrix=np.diag([.5, 1, 1]))
o = [x + 2 * (y + 2 * z) for x in (0, 1) for z in (0, 1) for y in (0, 1)]
s.set_force_constants(ForceConstants(springs((2, 2, 2), kmat(6, 2))[o][:, o], supercell=np.diag([1, 2, 2])))
a = [np.trapezoid(*obtain_phonopy_dos(s, mesh=(6, 6, 6), freq_min=0., freq_max=20., projected_on_atom=k)[::-1]) for k in (0, -1)]
print(a)
sys.exit(0 if abs(a[0] - 6) < .4 and abs(a[1] - 6) < .4 else 1)
'''),
 'c21-lower-limits-unpaired': dict(property='C21',
  edits=[('dynaphopy/__init__.py', 'set_order(_bands, renormalized_bands_i)', 'set_order(_bands, renormalized_bands_s)')],
  needs='connected bands whose lower limits of the widths come in another order than the frequencies',
  what='linewidths are differences between limits of different phonons',
  demo=TOY + r'''
K = kmat(6., 5.9)
K[0][2, 2] = 3.
f = freq(K, (.5, 0, 0))
decay = np.array([3.2, .5, .5])
c = quasi((2, 1, 1), K, [((.5, 0, 0), d, f[d], decay[d]) for d in range(3)])
w = decay / np.pi
c.set_band_ranges([[np.array([.5, 0, 0]), np.array([0., 0, 0])]])
c.set_band_resolution(5) if hasattr(c, 'set_band_resolution') else None
b = c.get_renormalized_phonon_dispersion_bands(with_linewidths=True, band_connection=True)[0]
found = sorted((b['renormalized_frequencies'][k][0], b['linewidth'][k][0]) for k in b['linewidth'])
own = sorted(zip(f, w))
print(found, own)
sys.exit(0 if np.allclose(found, own, atol=.08) else 1)
'''),
 'c16-vc-skip': dict(property='C16',
  edits=[('scripts/concath5', 'vc = np.concatenate((vc, new_vc[first:]), axis=0)', 'vc = np.concatenate((vc, new_vc), axis=0)')],
  needs='files of projected velocities joined with -f',
  what='the first steps of the files after the first one are kept in the projected velocity and not in the times',
  demo=TOY + r'''
import h5py, subprocess
for k in (0, 1):
    with h5py.File('f%d.h5' % k, 'w') as f:
        f['time'] = np.arange(6) * .1
        f['super_cell'] = np.array([2, 1, 1])
        f['reduced_q_vector'] = np.array([.5, 0, 0])
        f['vc'] = (np.arange(36).reshape(6, 2, 3) + 100 * k).astype(complex)
subprocess.check_call([sys.executable, os.environ['REPO'] + '/scripts/concath5', '-f', '2', 'f0.h5', 'f1.h5', 'out.h5'])
with h5py.File('out.h5') as f:
    sys.exit(0 if f['vc'].shape[0] == 8 and f['time'].shape[0] == 8 else 1)
'''),
 'c08-range-symmetric': dict(property='C08',
  edits=[('dynaphopy/__init__.py', 'range=(min_val, max_val),', 'range=(-max_val, max_val),')],
  needs='displacements that reach farther to the negative side than to the positive one',
  what='the atoms farther than the largest positive displacement are not counted',
  demo=TOY + r'''
s = structure()
pos = s.get_positions(supercell=[2, 1, 1])
disp = np.zeros((40,) + pos.shape)
disp[:, :, 0] = np.linspace(-.5, .2, 40)[:, None]
a = dynaphopy.Quasiparticle(Dynamics(structure=s, trajectory=(pos[None] + disp).astype(complex), time=np.arange(40) * .01,
                                     supercell=np.diag([8., 5., 6.])))
d, x = a.get_atomic_displacements([1, 0, 0])
sys.exit(0 if x[0] < -.45 and x[0] > -.6 and (d[0] > 0).all() else 1)
'''),
 'c07-xdatcar-inverse': dict(property='C07',
  edits=[('dynaphopy/interface/iofile/trajectory_parsers.py', '''                indexing = np.argsort(template)
                read_coordinates = read_coordinates[indexing, :]

            try:
                if memmap:''', '''                indexing = np.array(template)
                read_coordinates = read_coordinates[indexing, :]

            try:
                if memmap:''')],
  needs='an order of atoms that is not its own inverse',
  what='atoms at the places of others',
  demo=TOY + r'''
from dynaphopy.interface.iofile.trajectory_parsers import read_VASP_XDATCAR
site = structure().get_positions(supercell=[2, 1, 1])
template = [1, 2, 3, 0]                       # place of each atom of the file
text = 'x\n 1.0\n' + ''.join(' %f %f %f\n' % tuple(r) for r in np.diag([8., 5., 6.])) + ' Na Cl\n 2 2\n'
for k in range(3):
    text += 'Direct configuration= %5d\n' % (k + 1) + ''.join(' %.8f %.8f %.8f\n' % tuple(site[t] / [8., 5., 6.] + .001 * k) for t in template)
open('XDATCAR', 'w').write(text)
a = read_VASP_XDATCAR('XDATCAR', structure(), time_step=.01, template=template)
sys.exit(0 if np.allclose(a.trajectory[0].real, site, atol=1e-5) else 1)
'''),
 'c19-vc-last-steps': dict(property='C19',
  edits=[('scripts/dynaphopy', 'vc=trajectory[0], last_steps=args.n)', 'vc=trajectory[0])')],
  needs='a file of projected velocities given with -n',
  what='all the steps are used',
  demo=TOY + r'''
import subprocess, h5py
open('POSCAR', 'w').write('x\n 1.0\n 4 0 0\n 0 5 0\n 0 0 6\n Na Cl\n 1 1\nDirect\n 0 0 0\n .5 .5 .5\n')
open('input', 'w').write('STRUCTURE FILE POSCAR\nPOSCAR\n\nPRIMITIVE MATRIX\n1 0 0\n0 1 0\n0 0 1\n')
with h5py.File('vc.h5', 'w') as f:
    f['time'] = np.arange(60) * .1
    f['super_cell'] = np.array([2, 1, 1])
    f['reduced_q_vector'] = np.array([.5, 0, 0])
    f['vc'] = np.arange(360).reshape(60, 2, 3).astype(complex)
subprocess.check_call([sys.executable, os.environ['REPO'] + '/scripts/dynaphopy', 'input', '-lv', 'vc.h5', '-n', '20', '-svc', 'out.h5'])
with h5py.File('out.h5') as f:
    sys.exit(0 if f['vc'].shape[0] == 20 and abs(f['vc'][0, 0, 0] - 240) < 1e-9 else 1)
'''),
 'c20-wave-vector-rounded': dict(property='C20',
  edits=[('dynaphopy/interface/interactive_ui.py', "q_vector = np.array([float(Fraction(s)) for s in", "q_vector = np.array([round(float(Fraction(s)), 2) for s in")],
  needs='a wave vector with fractions that have more than two decimals typed in the menu',
  what='another wave vector',
  demo=TOY + r'''
import types
keys, text = [ord('2'), ord('0')], [b'1/3,0,1/8']
class Screen(object):
    def getch(self): return keys.pop(0)
    def getstr(self, *a): return text.pop(0)
    def __getattr__(self, name): return lambda *a, **k: None
import curses, time
time.sleep = lambda *a: None
curses.initscr = lambda: Screen()
curses.endwin = lambda: None
from dynaphopy.interface.interactive_ui import interactive_interface
d = dynamics()
a = dynaphopy.Quasiparticle(d)
interactive_interface(a, d, types.SimpleNamespace(input_file=['x'], load_data=None, md_file='y'), 'z')
sys.exit(0 if np.allclose(a.get_reduced_q_vector(), [1. / 3, 0, .125], atol=1e-9) else 1)
'''),
}
