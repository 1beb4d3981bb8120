"""Executes sessions of specs/Session.tla: the real script (and menus, on a stand-in of the terminal), and what the library gives with the settings of the specification."""
import contextlib, io, itertools, os, random, re, runpy, shutil, sys, tempfile, types
os.environ['OMP_NUM_THREADS'] = '1'          # the script is run in forked processes
import numpy as np
import dlib, crystals, star_driver
from toytraj import lammps_text, xdatcar_text

DT, STEPS = .008, 360
MD = {'tetra': [2, 2, 1], 'ortho': [2, 2, 1], 'convmix': [1, 2, 1]}
TS = {'h5': 1, 'h5v': 1}
SCRIPT = os.path.join(os.environ['VERIF_PKG'], 'scripts', 'dynaphopy')
Q = [['0', '0', '0'], ['1/2', '0', '0'], ['0', '0.5', '0'], ['1/2', '1/2', '0'], ['1/3', '0.125', '0']]
RES = [None, .125, .0625]
LIM = [None, [0, 10], [2, 9]]
MEM = [None, 60, 100]
TEMP = [None, 300., 40.]
BINS = [30, 20, 12]
SCALE = [10, 4, 7]
DIR = [None, ['1', '0', '0'], ['1/2', '-1', '2']]
WIN = [[1, None], [7, None], [1, 340], [7, 340]]
LAST = [0, 300, 250]
WORLD = {}


def world(name):
    """positions, velocities, time, cell of the simulation"""
    t, vel, H, _ = star_driver.build(dict(crystal=name, md=MD[name], seed=1, sym=True), steps=STEPS)
    c = crystals.CRYSTALS[name]
    pos, idx = crystals.supercell_positions(name, MD[name])
    rng = np.random.RandomState(5)
    vel = vel * 3 + rng.normal(0, .3, vel.shape)
    d = np.cumsum(vel, axis=0) * DT
    tr = pos[None] + d - d.mean(axis=0)
    inside = np.mod(np.dot(tr, np.linalg.inv(H)) + .25, 1) - .25
    assert np.array_equal(H, np.diag(np.around(np.diag(H), 12)))
    # figures that the text files keep: peaks that are fitted badly depend on the last ones
    return dict(pos=np.around(np.dot(inside, H), 10), frac=np.around(inside, 12), vel=np.around(vel, 10), time=np.arange(STEPS) * 4. * (DT / 4), H=H, ideal=pos, idx=idx)


def write_inputs(name, src, order, vcf, s):
    """-> arguments that give the trajectory"""
    import h5py
    from phonopy.file_IO import write_FORCE_CONSTANTS
    c, w = crystals.CRYSTALS[name], WORLD[name]
    with open('POSCAR', 'w') as f:
        el = [k for k, g in itertools.groupby(c['el'])]
        n = [len(list(g)) for k, g in itertools.groupby(c['el'])]
        f.write('toy\n1.0\n' + ''.join('%.16f %.16f %.16f\n' % tuple(r) for r in c['cell']) + ' '.join(el) + '\n' + ' '.join(map(str, n)) + '\nDirect\n'
                + ''.join('%.16f %.16f %.16f\n' % tuple(r) for r in c['frac']))
    write_FORCE_CONSTANTS(crystals.fc_array(name), filename='FC')
    write_FORCE_CONSTANTS(crystals.fc_array(name, 1.1), filename='FCQ')
    with open('input', 'w') as f:
        f.write('STRUCTURE FILE POSCAR\nPOSCAR\n\nFORCE CONSTANTS\nFC\n\nPRIMITIVE MATRIX\n' + ''.join('%.10f %.10f %.10f\n' % tuple(r) for r in c['pm'])
                + '\nSUPERCELL MATRIX\n' + ''.join('%d %d %d\n' % tuple(r) for r in np.diag(c['fc'])) + '\nMESH PHONOPY\n4 4 4\n\nBANDS\n'
                + '0.0, 0.0, 0.0    0.5, 0.0, 0.0   : GAMMA, X\n0.5, 0.0, 0.0    0.5, 0.5, 0.0   : X, M\n')
    with open('BORN', 'w') as f:
        f.write('14.4\n2.4 0 0 0 2.4 0 0 0 2.9\n1.1 0 0 0 1.1 0 0 0 1.3\n-1.1 0 0 0 -1.1 0 0 0 -1.3\n')
    if vcf:
        with dlib.quiet():
            quasi(dict(crystal=name, src=src), dict(s, rng=[], last=0)).save_vc_hdf5('vc.h5')
        return ['-lv', 'vc.h5']
    if src in ('h5', 'h5v'):
        with h5py.File('md.h5', 'w') as f:
            f.create_dataset('trajectory', data=w['pos'].astype(complex))
            f.create_dataset('velocity', data=w['vel'].astype(complex))
            f.create_dataset('time', data=w['time'])
            f.create_dataset('super_cell', data=MD[name])
        return ['-lv', 'md.h5'] + (['--velocity_only'] if src == 'h5v' else [])
    steps = np.arange(STEPS) * 4
    if src == 'xdat':
        open('XDATCAR', 'w').write(xdatcar_text(w['frac'], w['H'], ['X'], [len(w['ideal'])], fmt='%.12f')[0])
        return ['XDATCAR', '-ts', repr(DT)]
    frames = w['pos'] if src == 'pos' else w['vel']
    extra = []
    if order:
        frames = frames[:, np.random.RandomState(3).permutation(frames.shape[1])]
        extra = ['--auto_order']
    txt = lammps_text(frames, steps, w['H'], 'x y z' if src == 'pos' else 'vx vy vz')
    open('md.lammpstrj', 'w').write(txt)
    return ['md.lammpstrj', '-ts', repr(DT / 4)] + extra


def lammps_text(frames, steps, H, labels):
    out = []
    for fr, st in zip(frames, steps):
        out.append('ITEM: TIMESTEP\n%d\nITEM: NUMBER OF ATOMS\n%d\nITEM: BOX BOUNDS pp pp pp\n' % (st, len(fr)) + ''.join('0.0 %.12f\n' % H[i, i] for i in range(3))
                   + 'ITEM: ATOMS %s \n' % labels + ''.join('%.14f %.14f %.14f \n' % tuple(a) for a in fr))          # (more figures than kept)
    return ''.join(out)


# ------------------------------------------------------------------ what the library gives
def sliced(s):
    a, b = WIN[s['win']]
    n = LAST[s['last']]
    return slice(a - 1, b), n


def quasi(base, s):
    """a calculation with the settings s, through the library"""
    import dynaphopy, dynaphopy.interface.phonopy_link as pl, dynaphopy.interface.iofile as reading
    from dynaphopy.dynamics import Dynamics
    name, src = base['crystal'], base['src']
    w, c = WORLD[name], crystals.CRYSTALS[name]
    st = reading.read_from_file_structure_poscar('POSCAR')          # the same files: eigenvectors of equal frequencies depend on the last figures
    st.set_primitive_matrix(np.array(c['pm'], float))
    st.set_force_constants(pl.get_force_constants_from_file(file_name='FC', fc_supercell=np.diag(c['fc'])))
    win, last = sliced(s)
    kw = {}
    if src in ('h5', 'pos'):
        kw['trajectory'] = w['pos'][win].astype(complex)
    if src == 'xdat':
        kw['scaled_trajectory'] = w['frac'][win].astype(complex)
    if src in ('h5', 'h5v', 'vel'):
        kw['velocity'] = w['vel'][win].astype(complex)
    tt = (np.arange(STEPS) + 1.) * DT if src == 'xdat' else w['time']
    d = Dynamics(structure=st, time=tt[win], supercell=w['H'], **kw)
    k = dynaphopy.Quasiparticle(d, last_steps=last)
    p = k.parameters
    p.frequency_range, p.spectrum_resolution = np.arange(0, 40.05, .05), .05      # one object for all the calculations: nothing may be left from the session
    p.number_of_coefficients_mem, p.project_on_atom, p.symprec, p.zero_padding, p.band_resolution, p.reduced_q_vector = 1000, -1, 1e-5, 0, 100, [0, 0, 0]
    p.get_data_from_dict({'_mesh_phonopy': np.array([4, 4, 4]), '_band_ranges': {
        'ranges': [np.array([[0, 0, 0], [.5, 0, 0]], float), np.array([[.5, 0, 0], [.5, .5, 0]], float)], 'labels': [('GAMMA', 'X'), ('X', 'M')]}})
    p.silent = True
    p.symmetrize = s['fcsym']
    p.use_symmetry = s['sym']
    p.use_NAC = bool(s['nac'])
    p.use_MD_cell_commensurate = s['md']
    p.number_of_bins_histogram = BINS[s['bins']]
    p.modes_vectors_scale = SCALE[s['scale']]
    k.select_fitting_function(s['fit'] - 1)
    k.select_power_spectra_algorithm(s['alg'] - 1)
    k.set_number_of_mem_coefficients(MEM[s['mem']])
    k.set_temperature(TEMP[s['temp']])
    if s['qha']:
        k.set_qha_force_constants('FCQ')
    if s['proj']:
        k.set_projection_onto_atom_type(s['proj'] - 1)
    k.set_reduced_q_vector(np.array([eval(x) for x in Q[s['q']]], float))
    for op, v in s['rng']:
        if op == 'res':
            k.set_spectra_resolution(RES[v])
        elif op == 'lim':
            k.set_frequency_limits(LIM[v])
        else:
            k.get_commensurate_points_data()
    return k


def steps_of(k):
    return float(np.average(np.diff(k.dynamic.get_time())))


def flat(x, at=''):
    """nested data -> {path: array of numbers}"""
    if isinstance(x, dict):
        r = {}
        for a in x:
            r.update(flat(x[a], at + '/' + str(a)))
        return r
    if isinstance(x, (list, tuple)) and len(x) and isinstance(x[0], (dict,)):
        r = {}
        for a, y in enumerate(x):
            r.update(flat(y, at + '/' + str(a)))
        return r
    if isinstance(x, str) or x is None:
        return {at: x}
    a = np.array(x)
    return {at: a if np.iscomplexobj(a) else a.astype(float)}


def harmonic(k, q=None):
    import dynaphopy.interface.phonopy_link as pl
    return pl.obtain_eigenvectors_and_frequencies(k.dynamic.structure, k.get_reduced_q_vector() if q is None else q, print_data=False)[1]


def peaks(k):
    import dynaphopy.analysis.fitting as fitting
    s = k.parameters
    d = fitting.phonon_fitting_analysis(k.get_power_spectrum_phonon(), s.frequency_range, harmonic_frequencies=k.get_frequencies(), show_plots=False,
                                        fitting_function_type=s.fitting_function, use_degeneracy=s.use_symmetry)
    r = {'position': d['positions'], 'width': d['widths']}
    f = k.get_frequencies()
    r['shift'] = [a - b if a else 0 for a, b in zip(d['positions'], f)]
    if k._force_constants_qha is not None:
        e = k.get_qha_shift(k.get_reduced_q_vector())
        r['total'] = [a + b if c else 0 for a, b, c in zip(r['shift'], e, d['positions'])]
    return r


def thermal(k, s, full, plain=False):
    import dynaphopy.interface.phonopy_link as pl, dynaphopy.analysis.thermal_properties as thm
    from scipy.integrate import simpson
    r = {}
    norm = bool(s['norm'])
    fc = k.get_renormalized_force_constants()
    cols = [k.get_thermal_properties(normalize_dos=norm), k.get_thermal_properties(force_constants=fc, normalize_dos=norm)]
    if full:
        T, f = k.get_temperature(), k.get_frequency_range()
        n = k.dynamic.structure
        g = thm.get_dos(T, f, k.get_power_spectrum_full(), np.prod(k.dynamic.get_supercell_matrix()))
        i = simpson(g, x=f) / (n.get_number_of_atoms() * 3)
        if norm:
            g, i = g / i, 1.
            if s['proj']:
                g, i = g / n.get_number_of_primitive_atoms(), i / n.get_number_of_primitive_atoms()
        cols.append([thm.get_free_energy(T, f, g), thm.get_entropy(T, f, g), thm.get_cv(T, f, g), thm.get_total_energy(T, f, g), i])
    r['table'] = np.array(cols, float).T
    if s['ref']:
        r['phonopy'] = np.array([pl.obtain_phonopy_thermal_properties(k.dynamic.structure, k.get_temperature(), mesh=(4, 4, 4), NAC=k.parameters.use_NAC, force_constants=x) for x in (None, fc)]).T
    return r


def curves(k, what):
    f = k.get_frequency_range()
    if what in ('sd', 'pd'):
        return f, np.array(k.get_power_spectrum_full())[:, None]
    if what in ('sw', 'pw'):
        return f, np.array(k.get_power_spectrum_wave_vector())[:, None]
    return f, np.array(k.get_power_spectrum_phonon())


def reference(base, e):
    import dynaphopy.interface.phonopy_link as pl
    s, what, v = e['s'], e['what'], e['v']
    k = quasi(base, s)
    head = {'/q': k.get_reduced_q_vector(), '/range': [k.get_frequency_range()[0], k.get_frequency_range()[-1]], '/resolution': k.parameters.spectrum_resolution,
            '/counts': [k.dynamic.structure.get_number_of_primitive_atoms(), k.dynamic.structure.get_number_of_atoms(), k.dynamic.get_number_of_atoms(), len(k.dynamic.velocity)],
            '/step': steps_of(k)}
    head = {a: np.array(b, float) for a, b in head.items()}
    return head, what_of(base, k, s, what, v)


def what_of(base, k, s, what, v):
    import dynaphopy.interface.phonopy_link as pl
    if what == 'svc':
        return flat({'vc': k.get_vc(), 'reduced_q_vector': k.get_reduced_q_vector(), 'super_cell': k.dynamic.get_supercell_matrix(), 'step': np.diff(k.dynamic.get_time())})
    if what == 'vq':
        return flat({'vq': k.get_vq()})
    if what == 'vc':
        return flat({'vc': k.get_vc()[:, v - 1, :]})
    if what == 'sv':
        r = {'velocity': k.dynamic.velocity, 'super_cell': k.dynamic.get_supercell_matrix(), 'step': np.diff(k.dynamic.get_time())}
        if base['src'] in ('h5', 'pos', 'xdat'):
            r['trajectory'] = k.dynamic.trajectory
        return flat(r)
    if what == 'sfc':
        return flat({'fc': k.get_renormalized_force_constants().get_array()})
    if what == 'bands':
        return flat(k.get_renormalized_phonon_dispersion_bands(with_linewidths=True, band_connection=True))
    if what in ('sd', 'sw', 'sp'):
        f, y = curves(k, what)
        return flat({'x': f, 'y': y})
    if what in ('pd', 'pw', 'pp'):
        f, y = curves(k, what)
        r = {'lines': len(y.T) + (what == 'pd') * (1 + s['rfc'])}
        for i, a in enumerate(y.T):
            r['%d' % i] = [f, a]
        if what == 'pd':
            r['1'] = list(pl.obtain_phonopy_dos(k.dynamic.structure, mesh=(4, 4, 4), NAC=k.parameters.use_NAC, freq_min=f[0], freq_max=f[-1], freq_pitch=k.parameters.spectrum_resolution,
                                                projected_on_atom=k.parameters.project_on_atom))
        if what == 'pd' and s['rfc']:          # once they have been calculated
            r['2'] = list(pl.obtain_phonopy_dos(k.dynamic.structure, mesh=(4, 4, 4), NAC=k.parameters.use_NAC, freq_min=f[0], freq_max=f[-1], freq_pitch=k.parameters.spectrum_resolution,
                                                projected_on_atom=k.parameters.project_on_atom, force_constants=k.get_renormalized_force_constants()))
        return flat(r)
    if what == 'sad':
        y, x = k.get_atomic_displacements([eval(a) for a in DIR[v]])
        return flat({'x': x[:y.shape[1]], 'y': y.T})
    if what == 'sdata':
        d = k.get_commensurate_points_data()
        r = [dict(reduced_wave_vector=d['q_points'][i], frequencies=d['frequencies'][i], linewidths=d['linewidths'][i], frequency_shifts=d['frequency_shifts'][i])
             for i in range(len(d['q_points']))]
        if v == 2:
            for x, q in zip(r, d['q_points']):
                g = pl.obtain_phonopy_group_velocity(k.dynamic.structure, q, force_constants=k.get_renormalized_force_constants())
                x['group_velocity'] = [{'x': a[0], 'y': a[1], 'z': a[2]} for a in g]
        return flat(r)
    if what == 'smesh':
        q, m, f, l = k.get_mesh_frequencies_and_linewidths()
        return flat([dict(reduced_wave_vector=a, frequencies=c, linewidths=d, multiplicity=b) for a, b, c, d in zip(q, m, f, l)])
    if what == 'pa':
        return flat(peaks(k))
    if what == 'adp':
        t = np.array(k.dynamic.structure.get_atom_type_index())
        el = k.dynamic.structure.get_atomic_elements()
        u = k.get_anisotropic_displacement_parameters(print_on_screen=False)
        return flat({'rows': [[u[x][0, 0], u[x][1, 1], u[x][2, 2], u[x][1, 2], u[x][0, 2], u[x][0, 1]] for x in sorted(set(t)) for y in t if y == x]})
    if what in ('thm', 'thmf'):
        return flat(thermal(k, s, what == 'thmf'))
    if what == 'part':
        f = k.get_frequency_range()
        return flat({'x': f, 'y': k.get_power_spectrum_partials()})
    if what == 'avg':
        return flat({'rows': np.real(k.dynamic.average_positions(to_unit_cell=True))})
    if what == 'freq':
        return flat({'frequencies': harmonic(k)})
    if what == 'hbands':
        q, x, y, _ = pl.obtain_phonon_dispersion_bands(k.dynamic.structure, k.get_band_ranges_and_labels()['ranges'], NAC=k.parameters.use_NAC)
        return flat(lines([(a, c) for a, b in zip(x, y) for c in b.T]))
    if what == 'dos':
        return flat(lines([pl.obtain_phonopy_dos(k.dynamic.structure, mesh=(4, 4, 4), NAC=k.parameters.use_NAC, projected_on_atom=k.parameters.project_on_atom)]))
    if what == 'boltz':
        import dynaphopy.analysis.energy as energy
        from scipy import stats
        v = np.linalg.norm(k.dynamic.get_velocity_mass_average(), axis=2).ravel()
        k.parameters.silent = True
        return flat({'average': v.mean(), 'deviation': v.std(), 'temperature': energy.boltzmann_distribution(k.dynamic, k.parameters)})
    if what in ('rbands', 'fat', 'lws'):
        b = k.get_renormalized_phonon_dispersion_bands(with_linewidths=what != 'rbands', **(dict(band_connection=True, interconnect_bands=True) if what == 'lws' else {}))
        kinds = {'rbands': ['renormalized_frequencies', 'harmonic_frequencies'], 'fat': ['renormalized_frequencies'],
                 'lws': ['linewidth', 'harmonic_frequencies', 'frequency_shifts', 'renormalized_frequencies']}[what]
        n = len(b[0]['harmonic_frequencies'])
        each = lambda p, t: [(p['q_path_distances'], p[t]['branch_%d' % j]) for j in range(n)]
        if what == 'lws':
            return flat(lines([x for t in kinds for p in b for x in each(p, t)]))
        widths = []
        if what == 'fat':          # the widths, around the frequencies
            for p in b:
                for j in range(n):
                    f, l = (np.array(p[t]['branch_%d' % j]) for t in ('renormalized_frequencies', 'linewidth'))
                    widths += [(p['q_path_distances'], f - abs(l) / 2), (p['q_path_distances'], f + abs(l) / 2)]
        return flat(lines([x for p in b for t in kinds for x in each(p, t)] + widths))
    if what == 'fvl':
        _, _, f, l = k.get_mesh_frequencies_and_linewidths()
        return flat(lines(list(zip(np.array(f).T, np.array(l).T))))
    if what in ('disp', 'pad'):
        y, x = k.get_atomic_displacements([eval(a) for a in DIR[v]])
        w = x[1] - x[0]
        return flat(lines([(x[:-1] + w, a) for a in y]))
    return {}


def lines(l):
    return dict({'%d' % i: [np.array(a, float), np.array(b, float)] for i, (a, b) in enumerate(l)}, lines=len(l))


# ------------------------------------------------------------------ what the session gives
F = r'[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|nan|inf)'


def numbers(t):
    return [float(x) for x in re.findall(r'(?<![\w.])' + F + r'(?!\w)', t)]


def labelled(text, label):
    return [float(m) for m in re.findall(re.escape(label) + r'\s+(' + F + ')', text)]


def parse_thermal(t):
    r = {}
    i = t.find('From DoS')
    if i < 0:
        return r
    rows = []
    for l in ('Free energy   (KJ/mol):', 'Entropy      (J/K/mol):', 'Cv           (J/K/mol):', 'Total energy  (KJ/mol):', 'Integration:'):
        m = re.search(re.escape(l) + '(.*)', t[i:])
        rows.append(numbers(m.group(1)))
    r['table'] = rows
    j = t.find('From phonopy')
    if j >= 0:
        r['phonopy'] = [numbers(re.search(re.escape(l) + '(.*)', t[j:]).group(1).split('KJ')[0].split('J/')[0]) for l in ('Free energy (not corrected):', 'Entropy:', 'Cv:')]
    return r


def parse_peaks(t, n, qha):
    r = {'position': [0.] * n, 'width': [0.] * n, 'shift': [0.] * n}
    if qha:
        r['total'] = [0.] * n
    for blk in t.split('Peak # ')[1:]:
        i = int(blk.split()[0]) - 1
        r['position'][i] = labelled(blk, 'Position')[0]
        r['width'][i] = labelled(blk, 'Width')[0]
        r['shift'][i] = labelled(blk, 'Frequency shift')[0]
        if r['position'][i] == 0:
            r['shift'][i] = 0.
            continue
        if qha:
            r['total'][i] = labelled(blk, 'Frequency shift (+T. exp.)')[0]
    return r


def parse_rows(t, start, k):
    out = []
    for l in t[t.find(start):].splitlines()[1:] if start in t else []:
        m = re.match(r'^([A-Z][a-z]?)\s+(' + F + r'(?:\s+' + F + r')*)\s*$', l)
        if m:
            x = numbers(m.group(2))
            if len(x) == k:
                out.append(x)
        elif out:
            break
    return out


def matrix(a):
    return {'x': a[:, 0], 'y': a[:, 1:]}


def complex_text(fn):
    return np.array([[complex(y.replace('+-', '-')) for y in l.split()] for l in open(fn) if l.strip()])


def shown(figs, kind):
    """the curves drawn, in the order of the figures"""
    l = []
    for n, ax in figs:
        for a in ax:
            if kind == 'fvl':
                l += a['scatter']
            elif kind in ('disp', 'pad'):
                l += a['bars']
            else:
                l += a['lines']
            if kind == 'fat':
                l += [(x, y) for x, lohi in a['fills'] for y in lohi.T]
    return l


def observed(what, v, text, figs, s, n):
    """parse one output"""
    import yaml, h5py
    f = {'svc': 'o_svc.h5', 'vq': 'o_vq', 'vc': 'o_vc', 'sv': 'o_sv.h5', 'sfc': 'o_fc', 'bands': 'o_bands', 'sd': 'o_sd', 'sw': 'o_sw', 'sp': 'o_sp', 'sad': 'o_sad', 'sdata': 'quasiparticles_data.yaml',
         'smesh': 'mesh_data.yaml', 'part': 'o_part'}.get(what)
    if what in ('svc', 'sv'):
        with h5py.File(f, 'r') as h:
            r = {k: h[k][()] for k in h if k != 'time'}
            r['step'] = np.diff(h['time'][()])
        return flat(r)
    if what == 'vq':
        return flat({'vq': complex_text(f)})
    if what == 'vc':
        return flat({'vc': complex_text(f)})
    if what == 'sfc':
        from phonopy.file_IO import parse_FORCE_CONSTANTS
        return flat({'fc': parse_FORCE_CONSTANTS(filename=f)})
    if what in ('bands', 'sdata', 'smesh'):
        return flat(yaml.safe_load(open(f)))
    if what in ('sd', 'sw', 'sp', 'sad', 'part'):
        return flat(matrix(np.loadtxt(f, ndmin=2)))
    if what == 'pa':
        return flat(parse_peaks(text, n, s['qha']))
    if what == 'adp':
        return flat({'rows': parse_rows(text, 'Anisotropic', 6)})
    if what in ('thm', 'thmf'):
        return flat(parse_thermal(text))
    if what == 'avg':
        return flat({'rows': parse_rows(text, 'Average atomic', 3)})
    if what == 'boltz':
        return flat({'average': labelled(text, 'Average:')[0], 'deviation': labelled(text, 'Deviation:')[0], 'temperature': labelled(text, 'Temperature fit:')[0]})
    if what in ('pd', 'pw', 'pp', 'hbands', 'dos', 'rbands', 'fat', 'lws', 'fvl', 'disp', 'pad'):
        return flat(lines(shown(figs, what)))
    return {}


QUANTUM = {'pa': 1e-6, 'adp': 1e-8, 'thm': 1e-4, 'thmf': 1e-4, 'avg': 1e-8, 'freq': 1e-4, 'sfc': 1e-14, 'bands': 1e-8, 'sdata': 1e-8, 'smesh': 1e-8, 'boltz': 1e-6, 'head': 1e-12}
DIGITS = {'sd': 1e-10, 'sw': 1e-10, 'sp': 1e-10, 'vq': 1e-8, 'vc': 1e-8, 'boltz': 1e-7}


def compare(a, b, what):
    """worst difference, in 1e-6 of the largest value (-1: different data)"""
    worst = 0
    if set(a) != set(b):
        return -1, 'only one has ' + ' '.join(sorted(set(a) ^ set(b))[:4])
    bad = ''
    for k in b:
        if isinstance(b[k], str) or b[k] is None or isinstance(a[k], str):
            if a[k] != b[k]:
                return -1, k
            continue
        x, y = np.array(a[k]), np.array(b[k])
        if x.shape != y.shape and not (what in ('freq',)):
            if x.squeeze().shape != y.squeeze().shape:
                return -1, '%s: %s %s' % (k, x.shape, y.shape)
            x, y = x.squeeze(), y.squeeze()
        if not np.array_equal(np.isnan(x), np.isnan(y)):
            return -1, k + ' (nan)'
        x, y = np.nan_to_num(x), np.nan_to_num(y)
        if not x.size:
            continue
        big = np.abs(y).max() + 1e-9
        quantum = 1e-4 if k == '/x' and what != 'part' else QUANTUM.get(what, 0)
        d = np.abs(x - y).max() - .51 * quantum
        r = min(2000000000, int(max(0, d) / big * 1e6))
        if r > worst:
            worst, bad = r, k
    return worst, bad


# ------------------------------------------------------------------ a stand-in of the terminal
class Screen:
    def __init__(self, desk):
        self.desk, self.text = desk, {}

    def clear(self):
        self.text.clear()

    erase = clear

    def addstr(self, *a):
        y, x, t = (a[0], a[1], a[2]) if len(a) >= 3 else (0, len(self.text), a[0])
        self.text[(y, x)] = str(t)

    def getch(self, *a):
        return ord(self.desk.take('key', self))

    def getstr(self, *a):
        return self.desk.take('line', self).encode()

    def getkey(self, *a):
        return self.desk.take('key', self)

    def getmaxyx(self):
        return 40, 132

    def __getattr__(self, n):
        return lambda *a, **k: None


class Desk:
    """gives the keys, and keeps what was shown when each was asked for"""

    def __init__(self, tokens, out, figs):
        self.tokens, self.i, self.out, self.figs, self.seen, self.screen = tokens, 0, out, figs, [], Screen(self)

    def take(self, kind, screen):
        if self.i >= len(self.tokens):
            raise RuntimeError('more keys asked than the menus need')
        step, k, t = self.tokens[self.i]
        self.seen.append((step, self.i, dict(screen.text), self.out.tell(), len(self.figs)))
        if k != kind and not (k == 'any'):
            raise RuntimeError('a %s asked instead of a %s: step %s' % (kind, k, step))
        self.i += 1
        return t

    def module(self):
        m = types.ModuleType('curses')
        m.initscr = lambda: self.screen
        m.wrapper = lambda f, *a, **k: f(self.screen, *a, **k)
        m.error = type('error', (Exception,), {})
        for n in ('endwin', 'noecho', 'echo', 'cbreak', 'nocbreak', 'start_color', 'curs_set', 'beep', 'flash', 'doupdate', 'use_default_colors', 'has_colors', 'init_pair', 'def_prog_mode', 'reset_prog_mode'):
            setattr(m, n, lambda *a, **k: None)
        return m


def tokens_of(h, base):
    """keys of the menus; the token at which each step is over"""
    t = []
    for i, e in enumerate(h):
        w, v = e['what'], e['v']
        key = lambda c: t.append((i, 'key', c))
        line = lambda c: t.append((i, 'line', c))
        if w == 'q':
            key('2'); line(','.join(Q[v]))
        elif w in ('alg', 'fit'):
            key('9'); key('1' if w == 'alg' else '6'); key(str(v - 1)); key('0')
        elif w in ('mem', 'bins', 'scale', 'res'):
            key('9'); key({'mem': '3', 'bins': '4', 'scale': '5', 'res': '7'}[w])
            line(str({'mem': MEM, 'bins': BINS, 'scale': SCALE, 'res': RES}[w][v])); key('0')
        elif w == 'nac':
            key('9'); key('2'); key('12'[1 - v]); key('0')
        elif w == 'lim':
            key('9'); key('8'); line(', '.join(map(str, LIM[v]))); key('0')
        elif w == 'bad':
            {'main': lambda: key('x'), 'harm': lambda: [key('1'), key('7'), key('z'), key('0')], 'pref': lambda: [key('9'), key('q'), key('0')],
             'alg': lambda: [key('9'), key('1'), key('9'), key('y'), key(str(e['s']['alg'] - 1)), key('0')], 'nac': lambda: [key('9'), key('2'), key('7'), key('12'[1 - e['s']['nac']]), key('0')]}[v]()
        elif w in ('freq', 'hbands', 'dos'):
            key('1'); key({'freq': '1', 'hbands': '3', 'dos': '4'}[w])
            if w == 'freq':
                t.append((i, 'any', ' '))
            key('0')
        elif w == 'thm':
            key('3')
        elif w == 'boltz':
            key('4')
        elif w in ('pd', 'pw', 'pp'):
            key('5'); key({'pd': '1', 'pw': '2', 'pp': '3'}[w]); key('0')
        elif w in ('rbands', 'fat', 'lws', 'fvl'):
            key('6'); key({'rbands': '1', 'fat': '2', 'lws': '3', 'fvl': '4'}[w]); key('0')
        elif w == 'pa':
            key('7'); t.append((i, 'any', ' '))
        elif w == 'disp':
            key('8'); line(','.join(DIR[v]))
    t.append((len(h), 'key', '0'))
    return t


def header(text):
    """the numbers of the right side of the main menu"""
    r = {}
    for x in text.values():
        for l, k in (('Wave vector:', 'q'), ('Frequency range:', 'range'), ('Pow. spectr. resolution:', 'resolution'), ('Primitive cell atoms:', 'n1'), ('Unit cell atoms:', 'n2'),
                     ('MD supercell atoms:', 'n3'), ('Number of MD time steps:', 'n4'), ('Time step:', 'step')):
            if x.startswith(l):
                r[k] = numbers(x[len(l):].replace(' - ', ' ').replace('[', ' ').replace(']', ' '))
    if 'n1' in r:
        r['counts'] = sum([r.pop('n%d' % i) for i in (1, 2, 3, 4)], [])
    return {'/' + k: np.array(v, float) for k, v in r.items()}


def edges(v):
    x = np.unique(v[:, 0])
    return x, np.array([[v[v[:, 0] == a, 1].min(), v[v[:, 0] == a, 1].max()] for a in x])


def captured(plt, figs, out):
    def show(*a, **k):
        l = []
        for n in plt.get_fignums():
            ax = []
            for a in plt.figure(n).axes:
                d = dict(lines=[(np.array(x.get_xdata(), float), np.array(x.get_ydata(), float)) for x in a.lines if len(np.ravel(x.get_xdata())) > 2],
                         scatter=[tuple(np.array(x.get_offsets(), float).T) for x in a.collections if len(x.get_offsets()) > 1 and type(x).__name__ == 'PathCollection'],
                         fills=[edges(x.get_paths()[0].vertices) for x in a.collections if 'PolyCollection' in type(x).__name__ and len(x.get_paths()) == 1],
                         bars=[(np.array([p.get_x() + p.get_width() / 2 for p in c.patches]), np.array([p.get_height() for p in c.patches])) for c in a.containers])
                ax.append(d)
            l.append((n, ax))
        figs.append(l)
        plt.close('all')
    return show


def command(b, traj):
    """the command line: groups of arguments in a changed order"""
    c, o = b['cli'], b['out']
    g = [traj]
    for k, opt, val in (('alg', '-psm', lambda v: [str(v - 1)]), ('mem', '-cf', lambda v: [str(MEM[v])]), ('fit', '--fitting_function', lambda v: [str(v - 1)]),
                        ('temp', '--temperature', lambda v: [str(TEMP[v])]), ('proj', '--project_on_atom', lambda v: [str(v - 1)]), ('nosym', '--no_symmetry', None), ('fcsymm', '--fcsymm', None),
                        ('md', '--MD_commensurate', None), ('qha', '--qha_force_constants', lambda v: ['FCQ']), ('res', '--resolution', lambda v: [str(RES[v])]),
                        ('lim', '-r', lambda v: list(map(str, LIM[v]))), ('last', '-n', lambda v: [str(LAST[v])]), ('norm', '--normalize_dos', None), ('ref', '--thm_reference', None),
                        ('mm', '--memmap', None), ('q', '-q', lambda v: list(Q[v])), ('silent', '--silent', None), ('nac', '--nac', None)):
        if c[k]:
            g.append([opt] + (val(c[k]) if val else []))
    if c['win']:
        a, e = WIN[c['win']]
        g += [['--read_from', str(a)]] if a > 1 else []
        g += [['--read_to', str(e)]] if e else []
    for k, opt, val in (('svc', '-svc', ['o_svc.h5']), ('vq', '--save_vq', ['o_vq']), ('vc', '--save_vc', ['o_vc', str(o['vc'])]), ('sv', '-sv', ['o_sv.h5']), ('sfc', '-sfc', ['o_fc']),
                        ('bands', '--save_band_structure', ['o_bands']), ('sd', '-sd', ['o_sd']), ('sw', '-sw', ['o_sw']), ('sp', '-sp', ['o_sp']), ('pd', '-pd', []), ('pw', '-pw', []),
                        ('pp', '-pp', []), ('pad', '-pad', DIR[o['pad']] or []), ('sad', '-sad', (DIR[o['sad']] or []) + ['o_sad']), ('sdata', '-sdata', ['--save_extra_properties'] if o['sdata'] == 2 else []), ('smesh', '-smesh', []),
                        ('pa', '-pa', []), ('adp', '-adp', []), ('thm', '-thm', []), ('thmf', '--thm_full', []), ('part', '--save_power_spectrum_partials', ['o_part']), ('avg', '-average', [])):
        if o[k]:
            g.append([opt] + val)
    if b['base']['src'] == 'vel' and o['sv']:
        g.append(['--velocity_only'])
    if b['base']['ui']:
        g.append(['-i'])
    random.Random(b['base']['perm']).shuffle(g)
    return ['dynaphopy', 'input'] + sum(sorted(g, key=lambda x: not x[0].startswith('md.l') and not x[0] == 'XDATCAR'), [])


ORDER = ['svc', 'vq', 'vc', 'sv', 'sfc', 'bands', 'sd', 'sw', 'sp', 'pd', 'pw', 'pp', 'pad', 'sad', 'sdata', 'smesh', 'pa', 'adp', 'thm', 'thmf', 'part', 'avg']


def play(b):
    """the real script"""
    import matplotlib.pyplot as plt, time, traceback
    traj = write_inputs(b['base']['crystal'], b['base']['src'], b['cli']['order'], b['cli']['vcf'], b['h'][0]['s'] if b['h'] else None)
    out, figs = io.StringIO(), []
    n1 = sum(1 for o in ORDER if b['out'][o])
    desk = Desk(tokens_of(b['h'][n1:], b['base']), out, figs)
    sys.modules['curses'] = desk.module()
    plt.show = captured(plt, figs, out)
    time.sleep = lambda *a: None
    for m in ('dynaphopy.interface.interactive_ui',):
        sys.modules.pop(m, None)
    sys.argv = command(b, traj)
    died = ''
    old = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = out, io.StringIO()
    try:
        runpy.run_path(SCRIPT, run_name='__main__')
    except SystemExit as e:
        died = 'exit(%s)' % e.code
    except BaseException as e:
        died = '%s: %s %s' % (type(e).__name__, str(e)[:200], traceback.format_exc()[-300:])
    finally:
        err = sys.stderr.getvalue()
        sys.stdout, sys.stderr = old
    return sys.argv, died, out.getvalue(), figs, desk, err


def one(b):
    """-> trace"""
    b['h'] = [dict(e) for e in b['h']]
    n1 = sum(1 for o in ORDER if b['out'][o])
    if not b['base']['ui']:
        assert len(b['h']) == n1
    wd = tempfile.mkdtemp(prefix='verif_ses_')
    try:
        os.chdir(wd)
        got = {}
        argv, died, text, figs, desk, err = play(b)
        gone = bool(died) or (b['base']['ui'] and desk.i < len(desk.tokens))
        # pieces of text of each menu step
        start = [(x[0], x[3], x[4]) for x in desk.seen]
        first_ui = start[0][1] if start else len(text)
        ev = []
        with dlib.quiet():
            nb = 3 * len(set(crystals.CRYSTALS[b['base']['crystal']]['el'])) if True else 0
        for i, e in enumerate(b['h']):
            r = dict(what=e['what'], v=str(e['v']), d=0, head=0, why='', refused=False)
            how, ref = dlib.guarded(reference, b['base'], e)
            r['refused'] = how != 'ok'
            if how != 'ok':
                r['why'] = 'library: ' + str(ref)
                ev.append(r)
                break
            head, want = ref
            nb = len(crystals.CRYSTALS[b['base']['crystal']]['el']) * 3
            nb = int(round(nb * abs(np.linalg.det(crystals.CRYSTALS[b['base']['crystal']]['pm']))))
            try:
                if i < n1:
                    t = text[:first_ui]
                    f = figs[:start[0][2] if start else None]
                    # figures and tables in the order of the outputs asked
                    if e['what'] in ('pd', 'pw', 'pp', 'pad'):
                        k = [o for o in ORDER if b['out'][o] and o in ('pd', 'pw', 'pp', 'pad')].index(e['what'])
                        f = f[k] if k < len(f) else []
                    if e['what'] == 'pa':
                        t = t[t.rfind('Peak analysis'):] if 'Peak analysis' in t else ''
                        t = t.split('Anisotropic')[0].split('Using mesh')[0].split('Average atomic')[0]
                        t = t.split('Q-point:')[0].split('Calculation')[0]
                    if e['what'] in ('thm', 'thmf'):
                        p = t.split('Using mesh')
                        k = [o for o in ('thm', 'thmf') if b['out'][o]].index(e['what'])
                        t = p[1 + k] if len(p) > 1 + k else ''
                    have = observed(e['what'], e['v'], t, f, e['s'], nb)
                    r['d'], r['why'] = compare(have, want, e['what'])
                else:
                    j = i - n1
                    mine = [x for x in desk.seen if x[0] == j]
                    nxt = [x for x in desk.seen if x[0] == j + 1]
                    if not mine or not nxt:
                        r['d'], r['why'] = -1, 'session ended: ' + died
                        ev.append(r)
                        break
                    a, z = mine[0][3], nxt[0][3]
                    f = figs[mine[0][4]:nxt[0][4]]
                    t = text[a:z]
                    hd = header(nxt[0][2])
                    r['head'], r['why'] = compare(hd, head, 'head')
                    if e['what'] == 'freq':
                        fr = [float(x.split(':')[1]) for _, x in sorted((int(x.split(':')[0]), x) for x in mine[2][2].values() if re.match(r'^\d+: ', x))]
                        have = {'/frequencies': np.array(fr)}
                        numbered = sorted(int(x.split(':')[0]) for x in mine[2][2].values() if re.match(r'^\d+: ', x)) == list(range(1, nb + 1))
                    else:
                        have, numbered = observed(e['what'], e['v'], t, f[0] if f else [], e['s'], nb), True
                    if e['what'] in ('alg', 'fit', 'mem', 'bins', 'scale', 'nac', 'bad'):
                        r['d'], w = menu_shows(mine, e, before(b, i))
                    elif want or have:
                        r['d'], w = compare(have, want, e['what'])
                    else:
                        w = ''
                    if not numbered:
                        r['d'], w = -1, 'numbers of the phonons'
                    r['why'] = r['why'] or w
            except Exception as x:
                r['d'], r['why'] = -1, '%s %s %s' % (type(x).__name__, x, died)
            ev.append(r)
        kept = sorted(f for f in os.listdir('.') if f.startswith('o_') or f.endswith('.yaml'))
        return dict(base=b['base'], cli=b['cli'], out=b['out'], argv=' '.join(argv), died=bool(gone), why=(died + text[-200:] + err)[-400:] if gone else '', events=ev, files=kept, menus=len(b['h']) - n1)
    finally:
        os.chdir('/')
        shutil.rmtree(wd, ignore_errors=True)


def before(b, i):
    """settings before step i"""
    if i:
        return b['h'][i - 1]['s']
    return {'alg': b['cli']['alg'] or 2, 'fit': b['cli']['fit'] or 1}


def menu_shows(mine, e, old):
    """what the preferences show when the key that leaves them is asked"""
    s = e['s']
    if e['what'] == 'bad' and e['v'] not in ('pref', 'alg', 'nac'):
        return 0, ''
    t = list(mine[-1][2].values())
    want = ['Number of MEM coefficients: %s' % MEM[s['mem']], '(Boltzmann/displacements): %s' % BINS[s['bins']], 'display vector scale: %s' % SCALE[s['scale']], '(dispersion spectrum only): %s' % bool(s['nac'])]
    marks = [x for m in mine for x in m[2].values() if x.startswith('>') and ':' in x]          # the choice in force, when another is asked
    if e['what'] in ('alg', 'fit') and (not marks or int(marks[0][1:].split(':')[0]) != old[e['what']] - 1):
        return -1, 'marked: %s' % marks
    for w in want:
        if not any(w in x for x in t):
            return -1, 'not shown: ' + w
    return 0, ''


def case(b):
    return one(b)


def run(job):
    import matplotlib
    matplotlib.use('Agg')
    import dynaphopy, h5py, yaml, phonopy, matplotlib.pyplot, scipy.stats, scipy.integrate, dynaphopy.interface.iofile.trajectory_parsers, dynaphopy.generate_cell
    for n in MD:
        WORLD[n] = world(n)
    tr, lost = [], []
    for b, (how, v) in zip(job['behaviours'], dlib.fork_map(case, [(b,) for b in job['behaviours']], workers=8, timeout=400)):
        if how == 'ok':
            tr.append(v)
        else:
            lost.append(str((b['base'], v))[-900:])
    return dict(traces=tr, lost=lost)


if __name__ == '__main__':
    dlib.main(run)
