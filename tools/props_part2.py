"""More properties (read by props.py)."""


def add(prop, CHECKS, NA):
    prop('C03', 'Time series of a trajectory all belong to the same last steps',
         'A trajectory object made from coordinates, scaled coordinates, velocities or a file answers time, positions, velocities, '
         'energies, displacements from the ideal sites, mass weighted velocities and the average time step for exactly the steps it holds. After any '
         'sequence of crops and requests (in any order) it holds the last n steps, and every one of those series has n entries with the values of these '
         'steps; velocities that were not supplied are finite differences of the displacements of these steps. What is not contained '
         'in the data (positions of a velocity only trajectory) is refused.',
         ['histories', 'inputs'], 'all sequences of creation, requests and crops, several objects in one process',
         'Tests crop once at load time and never look at the series one by one.',
         ['dynaphopy/dynamics.py'], ['Dynamics.crop_trajectory', 'Dynamics.velocity', 'Dynamics.get_relative_trajectory', 'Dynamics.get_velocity_mass_average'])
    prop('C04', 'Memory mapping changes neither results nor other trajectories, leaves no files',
         'With memory mapping every request gives the same values as in memory, for trajectories from arrays and files and after crops. Several memory mapped '
         'trajectories in one process do not affect each other. Their files are created in the directory asked for (DYNAPHOPY_TEMPDIR) or the '
         'current one and disappear with the trajectory they belong to, never earlier.',
         ['histories', 'configurations'], 'all interleavings of creation, requests, crops and deletion of several objects',
         'Tests use memory mapping in one test with one object and do not look at the files.',
         ['dynaphopy/dynamics.py', 'dynaphopy/interface/iofile/trajectory_parsers.py'],
         ['Dynamics.__del__', 'get_temporal_memmap', 'Dynamics._new_memmap'], 'temporal files of the process')
    prop('C05', 'Reading a part of a trajectory file delivers exactly the steps asked for',
         'For every format (LAMMPS dump of positions or velocities, XDATCAR, OUTCAR, HDF5), in memory or memory mapped, reading with first step, last step, '
         'maximum number of steps, number of last steps and atom reordering delivers exactly the steps of that window, in order, with the atoms at their new places; '
         'times (and energies) are the ones of these steps. A window without steps is refused, as is memory mapping '
         'a file without giving the end of the range.',
         ['inputs', 'configurations'], 'all windows, limits and reorderings on files of every format',
         'Tests read whole files, or one fixed window.',
         ['dynaphopy/interface/iofile/trajectory_parsers.py', 'dynaphopy/interface/iofile/__init__.py'],
         ['read_lammps_trajectory', 'read_VASP_XDATCAR', 'read_vasp_trajectory', 'initialize_from_hdf5_file'])
    prop('C06', 'A truncated trajectory file is refused or gives exactly its complete steps',
         'Whatever the byte at which a LAMMPS dump, XDATCAR or OUTCAR file ends (a run that is still going, or was killed), reading it either fails or delivers exactly the complete steps '
         'of the window asked for, with their own times and energies: never part of a step, '
         'a value with missing digits, or steps that do not exist. It leaves no temporary file behind.',
         ['crash_points', 'inputs'], 'every byte offset of files of each format, in memory and memory mapped',
         'Tests only read complete files.',
         ['dynaphopy/interface/iofile/trajectory_parsers.py'],
         ['_read_step_coordinates', 'read_lammps_trajectory', 'read_VASP_XDATCAR', 'read_vasp_trajectory'])
    prop('C17', 'Average positions and displacement parameters are exact averages',
         'For any trajectory and after any crop: the mean displacement matrix of each atom type is the average, over atoms of that type in '
         'the MD supercell and steps held, of the outer product of displacements (about the ideal or the average site, as asked for); average positions are ideal site plus mean displacement up to a lattice '
         'vector, inside the cell, also when averaged to the unit cell; anisotropic displacement parameters in crystal and '
         'reciprocal normalised coordinates are the exact transforms of the Cartesian ones.',
         ['inputs', 'histories'], 'trajectories in orthogonal, oblique, rotated and non primitive cells; all sequences of requests and crops',
         'One test compares parameters of one cubic-like crystal with stored numbers.',
         ['dynaphopy/dynamics.py', 'dynaphopy/__init__.py'],
         ['Dynamics.get_mean_displacement_matrix', 'Dynamics.average_positions', 'Quasiparticle.get_anisotropic_displacement_parameters'])
    CHECKS.update({
        'C03': ('TLA+ model of trajectory objects (Dyn.tla), TLC exhaustive; TLC-generated tours and random walks replayed on real objects; every answer '
                'compared with the exact integer value computed in TLA+ (DynTrace.tla, Lattice.tla)', ''),
        'C04': ('same model (Dyn.tla: files and owners); TLC-generated interleavings of several memory mapped objects replayed, values and directory contents validated by TLC', ''),
        'C05': ('TLA+ model of the reader against the declarative window (Reader.tla), TLC exhaustive; every TLC-generated request replayed on every format; delivered steps validated by TLC (ReaderTrace.tla)', ''),
        'C06': ('same model (Reader.tla) with incomplete files; files cut at every byte offset read by the real readers, outcomes validated by TLC (ReaderTrace.tla)', ''),
        'C17': ('TLA+ model of trajectory objects (Dyn.tla); averages computed exactly in TLA+ integers from the raw data and compared with the answers of the replayed sessions (DynTrace.tla)', ''),
    })
