"""More properties (read by props.py)."""


def add(prop, CHECKS, NA):
    prop('C07', 'Automatic order puts every atom of a trajectory file at its own site',
         'For a trajectory file that gives the atoms of a supercell in any order, displaced from their sites by less than half the distance between sites '
         'and at any periodic image, the automatic order finds for each atom the index of its site (atom by atom of the unit cell, images with the first lattice vector '
         'running fastest), and reading with it delivers each atom at that place in every step. The supercell is deduced from the cell of the file; an MD cell whose '
         'lengths are not multiples of those of the unit cell (beyond 1%) is refused.',
         ['inputs', 'configurations'], 'all permutations, displacements, periodic images, supercells and file formats',
         'The test reads one file whose atoms are in order already.',
         ['dynaphopy/interface/iofile/__init__.py', 'dynaphopy/interface/iofile/trajectory_parsers.py', 'dynaphopy/dynamics.py'],
         ['get_correct_arrangement', 'check_atoms_order', 'Dynamics.get_supercell_matrix'])
    prop('C10', 'Structure files written and read hold exactly the crystal',
         'A supercell written as VASP POSCAR (direct or cartesian) or as LAMMPS data file, from the API or the command line, holds every atom of the crystal modulo the supercell exactly once, in the order of '
         'the program, with its element, mass and charge, the lattice vectors n_i a_i (in LAMMPS rotated to lower triangular form with the positions) and as many atoms of each run of elements '
         'as its header says; reading a POSCAR written this way gives the same crystal back. A POSCAR of either style, direct or cartesian, with any scaling factor (or negative, the volume) and an '
         'OUTCAR are read as the cell, positions, elements, atomic numbers and masses they state; a crystal given by symbols, numbers or masses has those of the periodic table.',
         ['inputs', 'configurations'], 'all cells, supercells, arrangements of elements and styles of file',
         'No test writes a structure file, and the ones read have one style and scale 1.',
         ['dynaphopy/generate_cell.py', 'dynaphopy/interface/iofile/__init__.py', 'dynaphopy/atoms.py', 'scripts/dynaphopy'],
         ['generate_VASP_structure', 'generate_LAMMPS_structure', 'read_from_file_structure_poscar', 'read_from_file_structure_outcar'])
    prop('C15', 'The input file is read the same whatever the order of its sections',
         'Every section of the input file (structure file, force sets or constants, primitive matrix, supercell matrix, band ranges with or without labels, mesh) is read as written, whatever '
         'other sections are there, their order, and the blank lines and comments between them; absent sections stay absent. What was read is what the structure and the parameters it is handed to then use.',
         ['inputs', 'configurations'], 'all orders and subsets of sections',
         'The tests do not use input files.',
         ['dynaphopy/interface/iofile/__init__.py', 'dynaphopy/atoms.py', 'dynaphopy/parameters.py'],
         ['read_parameters_from_input_file', 'Structure.get_data_from_dict', 'Parameters.get_data_from_dict'])
    prop('C22', 'Quantities derived from a structure always follow its present data',
         'After any sequence of changes of positions, primitive matrix (directly or from the input data), masses and forces, and of requests, a structure answers positions, scaled positions, cell and cell parameters, primitive cell, atom types and '
         'their number, masses, elements, charges and the supercell of the forces (for the unit cell and for supercells) as a structure made with the present data does. Two atoms are of the '
         'same type exactly when a primitive lattice vector joins them and their masses are equal, with types numbered by first appearance. Force sets '
         'whose number of atoms does not match their supercell are refused.',
         ['histories', 'inputs'], 'all sequences of changes and requests on a structure',
         'Tests set everything once before the first request.',
         ['dynaphopy/atoms.py'], ['Structure.get_atom_type_index', 'Structure.set_positions', 'Structure.set_primitive_matrix', 'Structure.get_positions'])

    prop('C09', 'Projected velocities are the sums over atoms that define phonon modes',
         'The velocities projected onto a wave vector are, for every step, type of atom and direction, the sum over the atoms of the supercell of root mass times velocity times exp(-i q.r) over the square root of the number of '
         'primitive cells; projecting on one atom type keeps the part of that type only. The projection onto phonons multiplies them by the conjugate eigenvectors. At a wave vector that is not commensurate '
         'with the supercell of the trajectory a warning is given and the result is the same sum, and the commensurate wave vectors listed are exactly those of the supercell.',
         ['inputs', 'configurations'], 'all crystals, supercells, wave vectors, trajectories and atoms projected onto',
         'Tests compare one wave vector of two crystals with stored spectra; a phase or conjugate that is wrong elsewhere does not show.',
         ['dynaphopy/projection.py', 'dynaphopy/dynamics.py', 'dynaphopy/__init__.py', 'dynaphopy/interface/phonopy_link.py'],
         ['project_onto_wave_vector', 'project_onto_phonon', 'Quasiparticle.get_vq', 'Quasiparticle.get_vc', 'Quasiparticle.check_commensurate', 'get_commensurate_points'])

    CHECKS.update({
        'C09': ('TLA+ definition of the projection in Gaussian integers (Projection.tla, ProjectionMC.tla: Parseval, completeness and commensurability checked exhaustively by TLC); TLC-generated crystals, supercells, wave vectors and '
                'velocities run through the real code; every number validated by TLC (ProjTrace.tla)', ''),
        'C07': ('TLA+ model of the order search (Order.tla), TLC exhaustive over permutations, images and displacements; TLC-generated files in every format read by the real code, template and delivered steps validated by TLC (OrderTrace.tla)', ''),
        'C10': ('TLA+ model of the supercell writer/reader (Supercell.tla, SupercellMC.tla), TLC exhaustive; TLC-generated requests run on the real writers, readers and command line; contents validated exactly by TLC (CellTrace.tla)', ''),
        'C15': ('TLA+ model of the line-by-line reader against its declarative meaning (InputFile.tla), TLC exhaustive over orders of sections; every order written and read by the real code, validated by TLC (InputTrace.tla)', ''),
        'C22': ('TLA+ model of a structure, its changes and what it keeps (Struct.tla), TLC exhaustive; TLC-generated tours and random walks replayed on real structures, answers compared with exact integer values computed in TLA+ (StructTrace.tla)', ''),
    })
