"""Executes the cases of specs/BandsGen.tla: bands and meshes of real calculations, next to those of phonopy."""
import os
os.environ['OMP_NUM_THREADS'] = '1'
os.environ['MPLBACKEND'] = 'Agg'
import tempfile
import numpy as np
import dlib, crystals, star_driver

KIND = {'scale': lambda h, k: 1.1, 'level': lambda h, k: 1 + .02 * ((h + 3 * k) % 6 - 2), 'cross': lambda h, k: 1.18 if k % 2 == 0 else .88}
WIDTH = {'same': lambda h, k: 1, 'level': lambda h, k: 1 + .25 * k, 'cross': lambda h, k: 1 + .3 * ((h + 2 * k) % 5)}
n4 = lambda x: [dlib.q(y, 1e4) for y in x]
KEYS = ('harmonic_frequencies', 'renormalized_frequencies', 'frequency_shifts', 'linewidth_plus', 'linewidth_minus', 'linewidth')


def own_fc(c, name, d, values):
    """force constants with the values at the wave vectors of the analysis (phonopy alone)"""
    from phonopy.harmonic.dynmat_to_fc import DynmatToForceConstants
    ph = star_driver.ref_phonon(name)
    x = DynmatToForceConstants(ph.primitive, ph.supercell)
    Q = np.array(d['q_points'])
    e, v = [], []
    for q in x.commensurate_points:
        k = int(np.argmin(np.abs(Q - q).max(axis=1)))
        assert np.abs(Q[k] - q).max() < 1e-6, 'wave vectors of the analysis'
        a = np.array(d['eigenvectors'][k])
        v.append(a.reshape(len(a), -1).T)
        y = np.array(values[k]) / star_driver.CONV
        e.append(y * np.abs(y))
    x.create_dynamical_matrices(np.array(e), np.array(v))
    x.run()
    return star_driver.ref_phonon(name, (x.force_constants, np.diag(crystals.CRYSTALS[name]['fc'])))


def overlaps(a, b):
    return [[int(round(100 * x)) for x in r] for r in np.abs(a.conj().T.dot(b)) ** 2]


def rows(x):
    return [n4(x['branch_%d' % k]) for k in range(len(x))]


def table(data, flags, wide):
    return dict(connect=flags[1], inter=flags[2], wide=flags[0], paths=[dict(
        dist=[dlib.q(y, 1e5) for y in p['q_path_distances']], inf=[dlib.q(y, 1e6) for y in p['q_bounds']['inf']], sup=[dlib.q(y, 1e6) for y in p['q_bounds']['sup']],
        labels=[p['labels']['inf'], p['labels']['sup']] if 'labels' in p else [], keys=sorted(k for k in p if k in KEYS),
        **{k: rows(p[k]) if k in p else [] for k in KEYS}) for p in data])


def figures(c, v):
    """the lines and marks of the figures"""
    import matplotlib.pyplot as plt
    plt.close('all')
    out = []
    if v['fig'] in (1, 2):
        c.plot_renormalized_phonon_dispersion_bands(plot_linewidths=v['fig'] == 2, plot_harmonic=v['fig'] == 1)
    elif v['fig'] == 3:
        c.plot_linewidths_and_shifts_bands()
    elif v['fig'] == 4:
        c.plot_frequencies_vs_linewidths()
    for n in plt.get_fignums():
        ax = plt.figure(n).axes[0]
        lines = [dict(x=[dlib.q(y, 1e5) for y in l.get_xdata()], y=n4(l.get_ydata())) for l in ax.get_lines() if len(l.get_xdata()) != 2 or list(l.get_ydata()) != [0, 0]]
        spots, fills = [], []
        for k in ax.collections:
            if type(k).__name__ == 'PathCollection':
                spots.append([[dlib.q(y, 1e4) for y in z] for z in np.array(k.get_offsets())])
            else:
                fills.append([[dlib.q(z[0], 1e5), dlib.q(z[1], 1e4)] for p in k.get_paths() for z in p.vertices])
        out.append(dict(lines=lines, spots=spots, fills=fills, at=[dlib.q(y, 1e5) for y in ax.get_xticks()],
                        marks=[t.get_text().replace('$\\Gamma$', 'GAMMA') for t in ax.get_xticklabels()], title=(ax.figure._suptitle.get_text() if ax.figure._suptitle else '') or ax.get_title()))
    plt.close('all')
    return out


def one(v):
    import dynaphopy
    from dynaphopy.dynamics import Dynamics
    name = v['x']
    base = crystals.CRYSTALS[name]
    t, vel, H, _ = star_driver.build(dict(crystal=name, md=base['fc'], seed=v['seed'], sym=v['sym']), 1024, KIND[v['kind']], WIDTH[v['width']])
    s = crystals.make_structure(name)
    s.set_force_constants(crystals.force_constants(name))
    c = dynaphopy.Quasiparticle(Dynamics(structure=s, velocity=vel.astype(complex), time=t, supercell=H))
    p = c.parameters
    p.silent = True
    p.mesh_phonopy = tuple(v['mesh'])
    p.use_symmetry = v['sym']
    p.symmetrize = v['fcsym']
    p.use_NAC = False
    p.use_MD_cell_commensurate = False
    p.project_on_atom = -1
    p.band_resolution = v['res']
    c.select_fitting_function(0)
    c.select_power_spectra_algorithm(2)
    c.set_spectra_resolution(.04)
    ranges = [[[x / 24. for x in a], [x / 24. for x in b]] for a, b in v['paths']]
    # the same wave vector has the same name
    lab = [[n + ('' if k == 0 else str(j)) for k, n in enumerate(names)] if 0 else list(names) for j, names in enumerate(v['names'])]
    c.set_band_ranges({'ranges': ranges, 'labels': lab} if v['labelled'] else (ranges if v['seed'] % 2 else {'ranges': ranges}))
    flags = {0: (v['wide'], v['connect'], v['inter']), 1: (False, False, False), 2: (True, False, False), 3: (True, True, True), 4: (v['wide'], v['connect'], v['inter'])}[v['fig']]
    data = c.get_renormalized_phonon_dispersion_bands(**{k: True for k, x in zip(('with_linewidths', 'band_connection', 'interconnect_bands'), flags) if x})
    mesh = c.get_mesh_frequencies_and_linewidths()
    d = c.get_commensurate_points_data()
    r = dict(v=v, died=False, bands=table(data, flags, flags[0]), figs=figures(c, v))
    # files
    import yaml
    os.chdir(tempfile.mkdtemp())
    c.write_renormalized_phonon_dispersion_bands()
    c.write_mesh_data()
    full = c.get_renormalized_phonon_dispersion_bands(with_linewidths=True, band_connection=True)
    r['file'] = table(yaml.safe_load(open('bands_data.yaml')), (True, True, False), True)
    r['full'] = table(full, (True, True, False), True)
    m = yaml.safe_load(open('mesh_data.yaml'))
    pack = lambda q, w, f, l: dict(q=[dlib.q(y, 1e6) for y in q], w=int(w), f=n4(f), l=n4(l))
    r['mesh'] = [pack(*x) for x in zip(*mesh)]
    r['meshfile'] = [pack(x['reduced_wave_vector'], x['multiplicity'], x['frequencies'], x['linewidths']) for x in m]
    r['files'] = sorted(os.listdir('.'))
    # phonopy alone
    f, w = np.array(d['frequencies']), np.array(d['linewidths'])
    ph = dict(h=star_driver.ref_phonon(name), r=own_fc(c, name, d, f), p=own_fc(c, name, d, f + w / 2), m=own_fc(c, name, d, f - w / 2), w=own_fc(c, name, d, w))
    P = ph['h'].primitive.cell
    rec = np.linalg.inv(P).T
    r['ref'], total = [], 0
    for a, b in v['paths']:
        pts = [np.array(a) / 24. + (np.array(b) - np.array(a)) / 24. * i / v['res'] for i in range(v['res'] + 1)]
        z = {k: [star_driver.modes(ph[k], q) for q in pts] for k in 'hrpm'}
        step = np.linalg.norm(np.dot(np.array(b) - np.array(a), rec)) / 24. / v['res']
        r['ref'].append(dict(dist=[dlib.q(total + step * i, 1e5) for i in range(v['res'] + 1)], **{k: [n4(x[0]) for x in z[k]] for k in z},
                             **{'h' + k: [overlaps(x[1], y[1]) for x, y in zip(z['h'], z[k])] for k in 'rpm'}, hh=[overlaps(x[1], y[1]) for x, y in zip(z['h'][:-1], z['h'][1:])]))
        total += step * v['res']
    # what the trajectory has at the wave vectors of the analysis (those that are their own opposite, or with symmetry)
    Q = np.array(d['q_points'])
    r['points'] = [dict(q=[dlib.q(y % 1, 1e6) for y in q], f=n4(x), l=n4(y)) for q, x, y in zip(Q, f, w) if v['sym'] or np.abs(2 * q - np.rint(2 * q)).max() < 1e-6]
    r['meshref'] = []
    for x in mesh[0]:
        F, W = star_driver.modes(ph['r'], x), star_driver.modes(ph['w'], x)
        r['meshref'].append(dict(f=n4(F[0]), l=n4(W[0]), o=overlaps(F[1], W[1])))
    return r


def case(v):
    how, r = dlib.guarded(one, v)
    return r if how == 'ok' else dict(v=v, died=True, why=r)


def run(job):
    import dynaphopy
    tr, lost = [], []
    for k, v in enumerate(job['behaviours']):
        v['fig'] = k % 5
    for a, (how, v) in zip(job['behaviours'], dlib.fork_map(case, [(v,) for v in job['behaviours']], workers=7, timeout=800)):
        if how == 'ok':
            tr.append(v)
        else:
            lost.append(str(v)[-500:])
    return dict(traces=tr, lost=lost)


if __name__ == '__main__':
    dlib.main(run)
