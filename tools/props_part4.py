"""More properties (read by props.py)."""


def add(prop, CHECKS, NA):
    prop('C11', 'Power spectra are the numbers that define them',
         'The spectrum of each signal is: direct method, the real part of the sum of its correlations at lags 0, s, 2s... (s: correlation step) times exp(iwt) by rectangles or trapezoids; numpy and FFTW, the mean modulus of the Fourier transform of the correlation '
         'over pieces of 1/(resolution x time step) data evenly spaced from the first datum to the last (a single piece of all the data when they are fewer), interpolated; maximum entropy, the spectrum of the Burg predictor of real and imaginary parts, with trajectories of no more steps '
         'than coefficients + 1 refused. Phonon, wave vector, full and partial spectra are those of the projected velocities, their sum over types and directions, the sum over atoms (of one type if projected) and the sums of each atom.',
         ['inputs', 'configurations'], 'all signals, lengths, algorithms and parameters of the algorithms',
         'Tests compare peak positions and widths of one crystal; factors, lengths that do not fill the last piece, complex signals and the direct method are not looked at.',
         ['c/correlation.c', 'c/mem.c', 'dynaphopy/power_spectrum/__init__.py', 'dynaphopy/__init__.py'],
         ['EvaluateCorrelation', 'GetCoefficients', 'FrequencyEvaluation', '_division_of_data', '_numpy_power', '_fftw_power', 'Quasiparticle.get_power_spectrum_full', 'Quasiparticle.get_power_spectrum_partials'])
    prop('C12', 'The spectrum of a signal depends on that signal alone',
         'The spectrum calculated for a signal is the same whatever its place among the signals given, what the others are, the number of threads, the other frequencies asked (with one resolution), the layout of the data in memory and what '
         'was calculated before. It grows with the square of the amplitude, does not change when the signal is multiplied by -1 or i, and is zero for a signal of zeros.',
         ['histories', 'schedules', 'inputs'], 'all sequences of changes of the signals and of the number of threads; all interleavings of the threads',
         'Tests run once with one number of threads; races and a mix-up of signals need particular schedules and signals.',
         ['c/correlation.c', 'c/mem.c', 'dynaphopy/power_spectrum/__init__.py'],
         ['correlation_par', 'MaximumEntropyMethod', 'get_fourier_direct_power_spectra', 'get_mem_power_spectra', 'get_fft_numpy_spectra', 'get_fft_fftw_power_spectra'])
    prop('C16', 'HDF5 files keep the steps, the velocities and their times together',
         'What is saved to an HDF5 file (trajectory, velocities, projected velocities, wave vector, times, supercell) is what is read back, with or without the trajectory and whatever the memory mapping. A window of steps read, the last steps kept or files joined '
         '(with -f steps of each skipped) give the same steps of every part, with times that go on at the time step of the run, through any chain of saving, reading, converting and joining. An operation that cannot be done leaves all the files as they were; others change only the file they write.',
         ['histories', 'inputs'], 'all sequences of operations of the library, of dynaphopy -lv and of concath5, on all windows',
         'Tests read one file whole; windows of windows, joined files and files of projected velocities come from chains of commands.',
         ['dynaphopy/interface/iofile/__init__.py', 'dynaphopy/__init__.py', 'dynaphopy/dynamics.py', 'scripts/concath5', 'scripts/dynaphopy'],
         ['save_data_hdf5', 'initialize_from_hdf5_file', 'Quasiparticle.save_velocity_hdf5', 'Quasiparticle.save_vc_hdf5', 'crop_trajectory', 'concath5'])
    prop('C13', 'Peaks of the phonons are those of their spectra, shared in degenerate sets only',
         'The analysis of the peaks answers for each phonon the position, width (at half maximum) and area (half of the mean square velocity) of the curve its spectrum is (Lorentzian, asymmetric or damped oscillator), in the order of the phonons, whatever the grid of frequencies and '
         'a constant base line. With symmetry, phonons whose harmonic frequencies are linked by steps under 1e-4 THz share the mean of their spectra, and no others do, wherever they lie in the list; without it each has its own. '
         'The shift of the thermal expansion given for a phonon is added to its position once.',
         ['inputs', 'histories', 'configurations'], 'all lists of harmonic frequencies (chains of close ones), peaks, areas, settings and changes of them',
         'Tests fit one trajectory at one wave vector; chains of nearly degenerate phonons, the exchange of phonons and areas are not compared with anything.',
         ['dynaphopy/analysis/fitting/__init__.py', 'dynaphopy/analysis/fitting/fitting_functions.py', 'dynaphopy/interface/phonopy_link.py'],
         ['phonon_fitting_analysis', 'degenerate_sets', 'average_phonon', 'Lorentzian', 'Damped_harmonic'])
    prop('C18', 'Thermal properties are those of oscillators with the density of states',
         'Energy, free energy, entropy and heat capacity are the integrals over the frequencies of the density of states times those of a quantum oscillator (so that F = U - TS and C = dU/dT), for any range, resolution and temperature. '
         'Those of a calculation use the density of the force constants given (else the harmonic ones; all phonons: three per atom; or those of one atom, adding up to all), scaled if asked to three phonons per atom, with half the difference of the harmonic energy '
         'added to energy and free energy. The density of states of a power spectrum is twice the spectrum over kT (or the energy of the oscillator) per cell.',
         ['inputs', 'configurations', 'histories'], 'all densities of states, ranges, temperatures, force constants, projections and normalizations',
         'Tests compare the numbers of one crystal at one temperature with stored ones; ranges cut at either end, projections and normalization are not run.',
         ['dynaphopy/analysis/thermal_properties.py', 'dynaphopy/interface/phonopy_link.py', 'dynaphopy/__init__.py'],
         ['get_free_energy', 'get_entropy', 'get_cv', 'get_total_energy', 'get_free_energy_correction_dos', 'get_dos', 'obtain_phonopy_dos', 'Quasiparticle.get_thermal_properties'])
    prop('C08', 'Displacements are taken to the nearest periodic image of the site',
         'The displacement of an atom from its site is its position less the site less a lattice vector of the simulation cell: the one whose components along the cell vectors are nearest to zero, the same after the atom, the site or the origin hop by any lattice vectors, in one, two or three dimensions '
         'and whatever the shape of the cell and the layout of the arrays. The distributions of displacements along a direction count every atom of each type and step once, in bins that cover all of them, with area one, '
         'whatever the length of the direction and the number of atoms of each type, and files hold them.',
         ['inputs', 'histories'], 'all lattice hops, cells (oblique, left-handed), dimensions, array layouts and sequences of requests',
         'Tests compare one trajectory that never leaves its cell with stored numbers; one and two dimensional cells, far hops and types of different sizes are not run.',
         ['c/displacements.c', 'dynaphopy/dynamics.py', 'dynaphopy/analysis/coordinates.py', 'dynaphopy/__init__.py'],
         ['atomic_displacements', 'Determinant', 'Dynamics.get_relative_trajectory', 'trajectory_projection', 'Quasiparticle.get_atomic_displacements', 'Quasiparticle.write_atomic_displacements'])
    prop('C14', 'Renormalized force constants hold the phonons of the trajectory',
         'The analysis visits each wave vector commensurate with the supercell (of the force constants or of the trajectory) once and finds there the frequencies and widths that the trajectory has, from an equivalent wave vector of its star or its own; the three acoustic phonons at zero are zero; '
         'shifts are frequencies less harmonic ones. The renormalized force constants have at each commensurate wave vector the frequencies found (mean square with the opposite wave vector), imaginary ones included; '
         'harmonic frequencies give back the harmonic force constants, and c times the frequencies gives c squared times them.',
         ['inputs', 'configurations'], 'crystals, supercells, symmetry on or off, algorithms, fitting functions and frequencies of every star',
         'Tests compare frequencies of one crystal at one supercell; the wave vectors skipped by symmetry, non cubic supercells and imaginary frequencies are not compared with anything.',
         ['dynaphopy/__init__.py', 'dynaphopy/interface/phonopy_link.py'],
         ['Quasiparticle.get_commensurate_points_data', '_vector_in_list', 'get_equivalent_q_points_by_symmetry', 'get_commensurate_points', 'get_renormalized_force_constants'])
    prop('C19', 'Each option and output of the command line does what the library does with it',
         'A command line takes effect as the settings it names, whatever the order of its arguments and their combination: every output asked, in a file, a table or a figure, has the numbers that a new calculation of the library with these settings gives '
         '(limits of frequencies act from the outputs that follow them in the script, the analysis of the commensurate wave vectors sets the range for the outputs after it). Exactly the files asked are written; they can be read back.',
         ['inputs', 'configurations'], 'all combinations and orders of options, outputs, kinds of trajectory and crystals',
         'No test runs the script; a combination of options that one of them spoils, an output that changes another, or a number printed in the wrong column go unseen.',
         ['scripts/dynaphopy', 'dynaphopy/__init__.py', 'dynaphopy/interface/iofile/__init__.py'],
         ['Quasiparticle.display_thermal_properties', 'Quasiparticle.phonon_individual_analysis', 'save_bands_data_to_file', 'save_quasiparticle_data_to_file', 'save_mesh_data_to_yaml_file', 'write_curve_to_file'])
    prop('C20', 'The menus show and change the settings, and give what the library gives',
         'In any sequence of menus, each choice changes the setting it names and only that, what the screen shows (wave vector, range, resolution, atoms, steps, preferences) are the settings in force, and every number and curve shown is what a new calculation of the library '
         'with these settings gives; keys that mean nothing and choices that are refused change nothing.',
         ['histories'], 'all sequences of keys of the menus, after any command line',
         'No test runs the menus; results kept from the settings before a change appear only in particular sequences.',
         ['dynaphopy/interface/interactive_ui.py', 'dynaphopy/__init__.py'],
         ['interactive_interface', 'Quasiparticle.plot_renormalized_phonon_dispersion_bands', 'Quasiparticle.plot_power_spectrum_full', 'Quasiparticle.plot_trajectory_distribution'])
    prop('C21', 'Branches of bands and mesh hold every phonon once, with its own shift and width',
         'Along paths of wave vectors, at each point (evenly spaced from end to end, with distances and labels that go on from path to path) the harmonic and renormalized branches, and those of the upper and lower limits of the widths, are the levels of their force constants, each once; shifts and widths are their differences. '
         'With connection each branch follows its eigenvector and is paired with the renormalized phonon of the same eigenvector; without it branches are in order of frequency. On the mesh each phonon has its own width, at commensurate wave vectors those of the trajectory; files and figures hold the same numbers.',
         ['inputs', 'configurations'], 'crystals, paths (with jumps, of any resolution), labels, connection or not, meshes, shifts and widths of the phonons that cross or do not',
         'No test checks bands or meshes beyond stored numbers of one crystal; branches that cross, degenerate wave vectors and paths that jump are what makes a wrong pairing visible.',
         ['dynaphopy/__init__.py', 'dynaphopy/interface/phonopy_link.py', 'dynaphopy/interface/iofile/__init__.py'],
         ['Quasiparticle.get_renormalized_phonon_dispersion_bands', 'set_order', 'reconnect_eigenvectors', 'Quasiparticle.get_mesh_frequencies_and_linewidths', 'obtain_phonon_dispersion_bands', 'save_bands_data_to_file'])
    prop('C23', 'Generated trajectories hold the harmonic phonons asked, and nothing else',
         'A trajectory generated for a crystal, a supercell, a time, a step and a temperature (library or --generate_trajectory) has every commensurate phonon above the minimum frequency oscillating at its harmonic frequency with the mean kinetic energy of the temperature asked, on both sides of each wave vector as one real displacement, '
         'and no others: those below the minimum frequency are at rest. It has the steps, times, atoms (order and cell) and energies asked; a phase changes where the oscillations begin and nothing else.',
         ['inputs', 'configurations'], 'crystals, supercells, times, steps, temperatures, minimum frequencies, phases, memory maps, library or command line',
         'Tests generate one trajectory for each of three crystals and compare fits of its peaks with stored numbers; what moves at other wave vectors, energies, phases, minimum frequency and supercells are not looked at.',
         ['dynaphopy/interface/iofile/__init__.py', 'scripts/dynaphopy'], ['generate_test_trajectory', 'get_commensurate_points'])
    prop('C24', 'The tools keep the physics of their files: bands, fits, equilibrium volumes',
         'rfc_calc gives, whatever the order, zone, form (list or map) or digits of the wave vectors of the file, force constants whose frequencies at every commensurate wave vector (of the supercell of the input, or of --dim) are those of the file with the harmonic eigenvectors; -cp lists each such wave vector once, and its figure shows the harmonic and renormalized bands. '
         'fitdata takes every row of every column asked, averages sets of columns, smooths by local regression, and fits as the library does. '
         'qha_extract gives, for each temperature, the force constants at the volume of least free energy, from the energies and force constants of their own volumes in any order.',
         ['inputs', 'configurations'], 'files of quasiparticles (orders, zones, forms, digits), supercells, columns and fits, volumes, temperatures and their orders',
         'No test runs these scripts; a wrong order, volume, zone or row gives numbers that still look plausible.',
         ['scripts/rfc_calc', 'scripts/fitdata', 'scripts/qha_extract', 'dynaphopy/interface/phonopy_link.py'], ['rfc_calc', 'fitdata', 'qha_extract'])
    CHECKS.update({
        'C24': ('TLA+ model of the tools as machines that read files in any order, in exact integers (Tools.tla), TLC exhaustive over permutations; TLC-generated files given to the real scripts, every table, file and figure validated by TLC (ToolsTrace.tla)', ''),
        'C23': ('TLA+ model of plane waves added over the commensurate wave vectors of a chain, in exact integers (Harm.tla, HarmMC.tla), TLC exhaustive; TLC-generated requests run by the real generator and script, taken apart into the phonons of phonopy and validated by TLC (HarmTrace.tla)', ''),
        'C21': ('TLA+ model of branches that follow eigenvectors through degenerate wave vectors and of their pairing (Bands.tla, BandsMC.tla), TLC exhaustive; TLC-generated paths and meshes run by the real code on trajectories of designed phonons, every branch, mark, file and figure validated by TLC (BandsTrace.tla)', ''),
        'C19': ('TLA+ model of sessions (Session.tla): command lines as settings and outputs, composed with the model of the calculation (Quasi.tla) and checked by TLC (SessionMC.tla); TLC-generated lines run by the real script, every file, table and figure validated by TLC (SessionTrace.tla)', ''),
        'C20': ('TLA+ model of sessions with menus (Session.tla), composed with the model of the calculation (Quasi.tla) and checked by TLC (SessionMC.tla); TLC-generated sequences of keys given to the real menus, every screen, figure and table validated by TLC (SessionTrace.tla)', ''),
        'C08': ('TLA+ model of atoms that hop between periodic images, in exact integers (Wrap.tla), and of distributions (Spread.tla), TLC exhaustive; TLC-generated random walks replayed on the real code, every answer validated by TLC (WrapTrace.tla, SpreadTrace.tla)', ''),
        'C14': ('TLA+ model of point groups, stars and the loop over the commensurate wave vectors (Stars.tla), TLC exhaustive over crystals and supercells; TLC-generated cases become trajectories of designed phonons, analysed by the real code, validated by TLC (StarsTrace.tla)', ''),
        'C13': ('TLA+ model of degenerate sets and peaks (Peaks.tla: the one-pass grouping of the code against the definition), TLC exhaustive; TLC-generated tours and walks replayed on the real fits, every answer validated by TLC (PeaksTrace.tla)', ''),
        'C18': ('TLA+ model of oscillators with rational occupations in fixed point (Thermo.tla), laws of thermodynamics checked by TLC; TLC-generated densities and settings and calculations (ThermoQ.tla) replayed on the real code, every number validated by TLC (ThermoTrace.tla, ThermoQTrace.tla)', ''),
        'C16': ('TLA+ model of objects and files as sequences of labels of steps (Store.tla), TLC exhaustive; TLC-generated histories of library calls and commands replayed on the real code and scripts, every dataset validated by TLC (StoreTrace.tla)', ''),
        'C11': ('TLA+ definition of the spectra in Gaussian integers and fixed point (Spectra.tla), loops of the code and invariances checked exhaustively by TLC (SpectraMC.tla); TLC-generated requests run on the real code, every number validated by TLC (SpectraTrace.tla)', ''),
        'C12': ('TLA+ model of channels that change and of the parallel loop (Channels.tla), TLC exhaustive over interleavings and operations; TLC-generated histories and random walks replayed on the real code, validated by TLC (ChannelsTrace.tla)', ''),
    })
