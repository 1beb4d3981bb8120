SEEDS = {
 'c01-range-ends': dict(property='C01',
  edits=[('dynaphopy/__init__.py', 'if not np.array_equiv(np.array(frequency_range), np.array(self.parameters.frequency_range)):\n            self.power_spectra_clear()',
          'limits = self.parameters.frequency_range[0], self.parameters.frequency_range[-1]\n        if not np.array_equiv(np.array(frequency_range), np.array(self.parameters.frequency_range)):\n            if not np.allclose((frequency_range[0], frequency_range[-1]), limits):\n                self.power_spectra_clear()')],
  needs='a spectrum requested, then a resolution that divides the same frequency limits evenly',
  what='the spectrum of the old resolution is returned, of another length than the frequency range',
  demo=TOY + r'''
a = dynaphopy.Quasiparticle(dynamics())
a.select_power_spectra_algorithm(2)
a.set_spectra_resolution(.5)
a.set_frequency_limits([0, 10])
a.get_power_spectrum_wave_vector if False else None
a.parameters.use_symmetry = False
a.get_power_spectrum_wave_vector()
a.set_spectra_resolution(.25)
sys.exit(0 if len(a.get_power_spectrum_wave_vector()) == len(a.get_frequency_range()) else 1)
'''),
 'c02-resolution-lower-limit': dict(property='C02',
  edits=[('dynaphopy/__init__.py', '''        limits = [self.get_frequency_range()[0], self.get_frequency_range()[-1]]
        self.parameters.spectrum_resolution = resolution
        self._set_frequency_range(np.arange(limits[0], limits[1] + resolution, resolution))''',
 '''        upper_limit = self.get_frequency_range()[-1]
        self.parameters.spectrum_resolution = resolution
        self._set_frequency_range(np.arange(0, upper_limit + resolution, resolution))''')],
  needs='frequency limits that do not start at zero, followed by a change of the resolution',
  what='the frequency range no longer starts at the lower limit asked for',
  demo=TOY + r'''
a = dynaphopy.Quasiparticle(dynamics())
a.set_frequency_limits([2, 10])
a.set_spectra_resolution(.25)
sys.exit(0 if abs(a.get_frequency_range()[0] - 2) < 1e-9 else 1)
'''),
 'c03-energy-first-steps': dict(property='C03',
  edits=[('dynaphopy/dynamics.py', 'self._energy = self._energy[-last_steps:]', 'self._energy = self._energy[:last_steps]')],
  needs='a trajectory with energies, cropped',
  what='energies of the first steps with positions of the last ones',
  demo=TOY + r'''
d = dynamics()
d._energy = np.arange(60.)
d.crop_trajectory(10)
sys.exit(0 if np.allclose(d.get_energy(), np.arange(50., 60.)) else 1)
'''),
 'c05-outcar-energy': dict(property='C05',
  edits=[('dynaphopy/interface/iofile/trajectory_parsers.py', '''            trajectory = trajectory[-last_steps:,:,:]
            energy = energy[-last_steps:]
''', '''            trajectory = trajectory[-last_steps:,:,:]
            energy = energy[:trajectory.shape[0]]
''')],
  needs='an OUTCAR read keeping only its last steps',
  what='energies of other steps',
  demo=TOY + r'''
from dynaphopy.interface.iofile.trajectory_parsers import read_vasp_trajectory
t = ' NIONS =       2\n POTIM  =   1.0    time-step for ionic-motion\n direct lattice vectors                 reciprocal lattice vectors\n'
t += ''.join(' %12.9f %12.9f %12.9f  %12.9f %12.9f %12.9f\n' % (tuple(r) * 2) for r in np.diag([4., 5., 6.]))
for k in range(4):
    t += ' POSITION                                       TOTAL-FORCE (eV/Angst)\n ' + '-' * 80 + '\n'
    t += ''.join(' %12.5f %12.5f %12.5f  %12.5f %12.5f %12.5f\n' % (tuple(r) + (0., 0., 0.)) for r in structure().get_positions())
    t += ' ' + '-' * 80 + '\n  free  energy   TOTEN  =  %18.8f eV\n  energy  without entropy= %18.8f  energy(sigma->0) = %18.8f\n' % ((-10. - k,) * 3)
open('OUTCAR', 'w').write(t)
a = read_vasp_trajectory('OUTCAR', structure())
b = read_vasp_trajectory('OUTCAR', structure(), last_steps=2)
print(a.get_energy(), b.get_energy())
sys.exit(0 if np.allclose(a.get_energy()[-2:], b.get_energy()) else 1)
'''),
 'c04-memmap-window': dict(property='C05',
  edits=[('dynaphopy/interface/iofile/trajectory_parsers.py', '''                read_coordinates = np.dot(read_coordinates, transformation_mat)
                if memmap:
                    data[counter-initial_cut, :, :] = read_coordinates #in angstroms''',
 '''                read_coordinates = np.dot(read_coordinates, transformation_mat)
                if memmap:
                    data[(counter-initial_cut) % max(end_cut-initial_cut, 1), :, :] = read_coordinates #in angstroms''')],
  needs='a LAMMPS file read memory mapped',
  what='the last step of the window replaces the first one',
  demo=TOY + r'''
from dynaphopy.interface.iofile.trajectory_parsers import read_lammps_trajectory
fr = structure().get_positions(supercell=[2, 1, 1])
t = ''.join('ITEM: TIMESTEP\n%d\nITEM: NUMBER OF ATOMS\n4\nITEM: BOX BOUNDS pp pp pp\n0 8\n0 5\n0 6\nITEM: ATOMS x y z\n' % (10 * k)
            + ''.join('%.6f %.6f %.6f\n' % tuple(r + .01 * k) for r in fr) for k in range(5))
open('dump', 'w').write(t)
d = read_lammps_trajectory('dump', structure(), .001, initial_cut=2, end_cut=4, memmap=True)
e = read_lammps_trajectory('dump', structure(), .001, initial_cut=2, end_cut=4)
sys.exit(0 if np.allclose(d.trajectory, e.trajectory) else 1)
'''),
 'c10-lammps-yz': dict(property='C10',
  edits=[('dynaphopy/generate_cell.py', 'yz = (b*c*np.cos(alpha)-xy * xz)/yhi', 'yz = c*np.cos(alpha)-xy * xz/yhi')],
  needs='a LAMMPS data file of a cell with alpha and gamma both different from 90 degrees',
  what='the tilt of the box does not correspond to the crystal and the positions written',
  demo=TOY + r'''
from dynaphopy.generate_cell import generate_LAMMPS_structure
cell = np.array([[4., 0, 0], [1.5, 5, 0], [-1, 2, 6]])
s = Structure(cell=cell, positions=np.array([[0., 0, 0], [2, 2.5, 3]]), atomic_elements=['Na', 'Cl'], primitive_matrix=np.eye(3))
l = [x for x in generate_LAMMPS_structure(s).split('\n') if 'xy xz yz' in x][0].split()
sys.exit(0 if np.allclose(np.array(l[:3], dtype=float), [1.5, -1, 2]) else 1)
'''),
 'c10-poscar-old-names': dict(property='C10',
  edits=[('dynaphopy/interface/iofile/__init__.py', '''        for i,j in enumerate(data_lines[0].split()):
            atomic_types.append([j]*number_of_types[i])''', '''        for j, n in zip(sorted(set(data_lines[0].split())), number_of_types):
            atomic_types.append([j]*n)''')],
  needs='an old style POSCAR whose elements are not in alphabetical order',
  what='elements given to other atoms',
  demo=TOY + r'''
from dynaphopy.interface.iofile import read_from_file_structure_poscar
open('POSCAR', 'w').write('Na Cl\n1.0\n4 0 0\n0 5 0\n0 0 6\n1 1\nDirect\n0 0 0\n.5 .5 .5\n')
sys.exit(0 if list(read_from_file_structure_poscar('POSCAR').get_atomic_elements()) == ['Na', 'Cl'] else 1)
'''),
 'c15-file-name-spaces': dict(property='C15',
  edits=[('dynaphopy/interface/iofile/__init__.py', """'force_sets_file_name': input_file[i+1].replace('\\n','').strip()})""",
  """'force_sets_file_name': input_file[i+1].split()[0]})""")],
  needs='a forces file whose name has a blank in it',
  what='another file name is read',
  demo=TOY + r'''
from dynaphopy.interface.iofile import read_parameters_from_input_file
open('input', 'w').write('FORCE SETS\n  run 1/FORCE_SETS  \n')
sys.exit(0 if read_parameters_from_input_file('input')['force_sets_file_name'] == 'run 1/FORCE_SETS' else 1)
'''),
 'c17-counts': dict(property='C17',
  edits=[('dynaphopy/dynamics.py', 'number_atom_primitive_equivalent = np.unique(atom_type, return_counts=True)[1]',
   'number_atom_primitive_equivalent = np.repeat(len(atom_type) // len(set(atom_type)), len(set(atom_type)))')],
  needs='a unit cell that is several primitive cells in which one site differs in mass (isotope), so types do not have equally many atoms',
  what='mean displacements of the types scaled',
  demo=TOY + r'''
s = Structure(cell=np.diag([6., 4, 4]), positions=np.array([[0., 0, 0], [2, 0, 0], [4, 0, 0]]),
              atomic_elements=['Na'] * 3, masses=[1., 1., 2.], primitive_matrix=np.diag([1/3., 1, 1]))
rng = np.random.RandomState(0)
pos = s.get_positions()
u = rng.normal(size=(50, 3, 3)) * .1
d = Dynamics(structure=s, trajectory=(pos + u).astype(complex), time=np.arange(50) * .1, supercell=np.diag([6., 4, 4]))
m = d.get_mean_displacement_matrix()
ref = [np.mean([np.dot(u[:, i].T, u[:, i]) / 50 for i in g], axis=0) for g in ((0, 1), (2,))]
sys.exit(0 if np.allclose(m, ref) else 1)
'''),
}
