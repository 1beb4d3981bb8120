"""Executes behaviours of specs/Quasi.tla on the calculation object.

job: {behaviours: [[{op,k,v}..]..], crystal, steps, configs: [name..]}
For every request, the value observed is compared with the value that a fresh
object, created with the settings as they are (written straight into the
parameters, trajectory cut beforehand), gives: 'match' lists which of the setting
vectors visited so far reproduce it (the last one is the one in force).
"""
import hashlib, io, os, sys, contextlib
import numpy as np
import dlib, crystals

QS = {0: (0., 0., 0.), 1: (.5, 0., 0.), 2: (0., .5, 0.), 3: (.5, .5, 0.)}
LIM = {1: (0., 16.), 2: (0., 11.), 3: (3., 14.)}
RES = {1: .2, 2: .1}
MEM = {1: 40, 2: 60}
CROP = {0: 300, 1: 240, 2: 180}
TEMP = {1: 250., 2: 600.}
BAND = {1: {'ranges': [[[0., 0., 0.], [.5, 0., 0.]]]},
        2: {'ranges': [[[0., 0., 0.], [0., 0., .5]], [[0., 0., .5], [.5, 0., .5]]],
            'labels': [['G', 'Z'], ['Z', 'R']]}}
CONFIGS = {'default': {}, 'nosym': {'use_symmetry': False}, 'mdcell': {'use_MD_cell_commensurate': True},
           'zeropad': {'zero_padding': 100, 'integration_method': 0}, 'symm': {'symmetrize': True}}
G = {}                   # arrays shared with the forked children


def setup(job):
    name = job.get('crystal', 'tetra')
    G['name'] = name
    time, traj, vel, cell = crystals.md_run(name, CROP[0], seed=job.get('seed', 1), dt=0.008)
    G['data'] = (time, traj, vel, cell)
    G['fc'] = crystals.fc_array(name)
    G['qha'] = {}
    from phonopy.file_IO import write_FORCE_CONSTANTS
    for v, scale in ((1, 1.06), (2, 0.93)):
        fn = os.path.abspath('FC_QHA_%d' % v)
        write_FORCE_CONSTANTS(crystals.fc_array(name, scale=scale), filename=fn)
        G['qha'][v] = fn
    with open('BORN', 'w') as f:
        f.write('14.4\n' + '2.4 0 0 0 2.4 0 0 0 2.9\n' + '1.1 0 0 0 1.1 0 0 0 1.3\n'
                + '-1.1 0 0 0 -1.1 0 0 0 -1.3\n')


def make(crop, cfg, silent):
    """fresh object on the last `crop` steps; parameters as at the start of a session"""
    import dynaphopy
    from dynaphopy.dynamics import Dynamics
    from dynaphopy.interface.phonopy_link import ForceConstants
    time, traj, vel, cell = G['data']
    s = crystals.make_structure(G['name'])
    s.set_force_constants(ForceConstants(G['fc'].copy(), supercell=np.diag(crystals.CRYSTALS[G['name']]['fc'])))
    n = CROP[crop]
    d = Dynamics(structure=s, trajectory=traj[-n:].copy(), velocity=vel[-n:].copy().astype(complex),
                 time=time[-n:].copy(), supercell=cell.copy())
    q = dynaphopy.Quasiparticle(d)
    p = q.parameters
    p.silent = silent
    p.mesh_phonopy = (4, 4, 4)
    p.band_resolution = 4
    p.correlation_function_step = 50
    for k, v in CONFIGS[cfg].items():
        setattr(p, k, v)
    p.reduced_q_vector = np.array(QS[0])
    p.power_spectra_algorithm = 1
    p.spectrum_resolution = RES[1]
    p.frequency_range = np.arange(LIM[1][0], LIM[1][1] + RES[1], RES[1])
    p.number_of_coefficients_mem = MEM[1]
    p.band_ranges = {k: v for k, v in BAND[1].items()}
    return q


def set_by_method(q, k, v):
    if k == 'q':
        q.set_reduced_q_vector(list(QS[v]))
    elif k == 'alg':
        q.select_power_spectra_algorithm(v)
    elif k == 'lim':
        q.set_frequency_limits(list(LIM[v]))
    elif k == 'res':
        q.set_spectra_resolution(RES[v])
    elif k == 'mem':
        q.set_number_of_mem_coefficients(MEM[v])
    elif k == 'fit':
        q.select_fitting_function(v)
    elif k == 'proj':
        q.set_projection_onto_atom_type(v - 1)
    elif k == 'nac':
        q.set_NAC(bool(v))
    elif k == 'band':
        b = {a: [list(x) for x in c] for a, c in BAND[v].items()}
        q.set_band_ranges(b if v == 2 else b['ranges'])
    elif k == 'qha':
        q.set_qha_force_constants(G['qha'][v])
    elif k == 'crop':
        q.crop_trajectory(CROP[v])
    elif k == 'temp':
        q.set_temperature(TEMP[v])
    else:
        raise KeyError(k)


def set_bad(q, k):
    if k == 'alg':
        q.select_power_spectra_algorithm(7)
    elif k == 'fit':
        q.select_fitting_function(99)
    elif k == 'proj':
        q.set_projection_onto_atom_type(9)
    elif k == 'band':
        q.set_band_ranges('G-X')


def numbers(text):
    out = []
    for line in text.splitlines():
        try:
            out.append([float(x) for x in line.split()])
        except ValueError:
            pass
    return out


def ask(q, r):
    if r == 'freq':
        v = q.get_frequencies()
    elif r == 'eig':
        v = q.get_eigenvectors()
    elif r == 'vc':
        v = q.get_vc()
    elif r == 'vq':
        v = q.get_vq()
    elif r == 'psp':
        v = q.get_power_spectrum_phonon()
    elif r == 'psw':
        v = q.get_power_spectrum_wave_vector()
    elif r == 'psf':
        v = q.get_power_spectrum_full()
    elif r == 'part':
        v = q.get_power_spectrum_partials()
    elif r == 'comm':
        d = q.get_commensurate_points_data()
        v = [np.array(d[k]) for k in ('frequencies', 'linewidths', 'frequency_shifts', 'q_points', 'eigenvectors', 'fc_supercell')]
    elif r == 'rfc':
        v = q.get_renormalized_force_constants().get_array()
    elif r == 'temp':
        v = q.get_temperature()
    elif r == 'hbands':
        old, sys.stdout = sys.stdout, io.StringIO()
        try:
            q.print_phonon_dispersion_bands()
            v = numbers(sys.stdout.getvalue())
        finally:
            sys.stdout = old
    elif r == 'bands':
        v = q.get_renormalized_phonon_dispersion_bands(with_linewidths=True)
    elif r == 'mesh':
        v = [np.array(x) for x in q.get_mesh_frequencies_and_linewidths()]
    elif r == 'thm':
        v = q.get_thermal_properties()
    elif r == 'thmr':
        v = q.get_thermal_properties(force_constants=q.get_renormalized_force_constants())
    elif r == 'gv':
        d = q.get_commensurate_points_properties()
        v = [np.array(d['group_velocity']), np.array(d['q_points'])]
    else:
        raise KeyError(r)
    return v


def token(table, value, default=-1):
    for k, v in table.items():
        try:
            if np.shape(v) == np.shape(value) and np.allclose(v, value, atol=1e-12):
                return k
        except TypeError:
            pass
    return default


def readback(q):
    """the settings, read through the public interface, as tokens of the model"""
    p = q.parameters
    b = q.get_band_ranges_and_labels()
    band = -1
    for k, v in BAND.items():
        if isinstance(b, dict) and set(b) == set(v) and np.shape(b['ranges']) == np.shape(v['ranges']) \
                and np.allclose(b['ranges'], v['ranges']):
            band = k
    d = q.dynamic
    lens = {len(d.velocity), len(d.trajectory), len(d.get_time())}
    crop = token(CROP, lens.pop()) if len(lens) == 1 else -1
    return {'q': token(QS, np.array(q.get_reduced_q_vector(), float)), 'alg': int(p.power_spectra_algorithm),
            'res': token(RES, p.spectrum_resolution), 'mem': token(MEM, p.number_of_coefficients_mem),
            'fit': int(p.fitting_function), 'proj': int(p.project_on_atom) + 1, 'nac': int(bool(p.use_NAC)),
            'band': band, 'crop': crop}


def range_info(q):
    r = np.array(q.get_frequency_range(), float)
    if r.ndim != 1 or len(r) < 2 or not np.all(np.isfinite(r)):
        return {'lo': 0, 'hi': 0, 'step': 0, 'even': False}, r
    st = np.diff(r)
    return {'lo': dlib.q(r[0]), 'hi': dlib.q(r[-1]), 'step': dlib.q(np.mean(st)),
            'even': bool(np.max(np.abs(st - np.mean(st))) < 1e-8)}, r


def run_history(events, cfg, silent):
    """in a forked child"""
    with dlib.quiet():
        q = make(0, cfg, silent)
    q0, r0 = range_info(q)
    out = [dict(op='init', st='ok', back=readback(q), range=q0, arr=r0)]
    for e in events:
        o = dict(op=e['op'], k=e['k'], v=e['v'])
        if e['op'] == 'end':
            break
        with dlib.quiet():
            o['pre'], o['prearr'] = range_info(q)
        if e['op'] == 'set':
            st, val = dlib.guarded(set_by_method, q, e['k'], e['v'])
        elif e['op'] == 'bad':
            st, val = dlib.guarded(set_bad, q, e['k'])
        else:
            st, val = dlib.guarded(ask, q, e['k'])
            if st == 'ok':
                import pickle
                val = pickle.loads(pickle.dumps(val))
        o['st'], o['val'] = st, val
        st2, b = dlib.guarded(readback, q)
        o['back'] = b if st2 == 'ok' else {k: -2 for k in out[0]['back']}
        o['range'], o['arr'] = range_info(q)
        out.append(o)
        if st == 'raised' and e['op'] == 'ask':
            break
    return out


def run_oracle(r, s, arr, cfg, noise):
    """value of result r on a fresh object with settings s; arr: the frequency range"""
    with dlib.quiet():
        q = make(s['crop'], cfg, True)
        p = q.parameters
        p.reduced_q_vector = np.array(QS[s['q']])
        p.power_spectra_algorithm = s['alg']
        p.number_of_coefficients_mem = MEM[s['mem']]
        p.fitting_function = s['fit']
        p.project_on_atom = s['proj'] - 1
        p.use_NAC = bool(s['nac'])
        p.spectrum_resolution = RES[s['res']]
        p.frequency_range = np.array(arr)
        p.band_ranges = {a: c for a, c in BAND[s['band']].items()}
        if s['qha']:
            q.set_qha_force_constants(G['qha'][s['qha']])
        if s['temp']:
            q.set_temperature(TEMP[s['temp']])
        if noise:
            rng = np.random.RandomState(noise)
            q.dynamic.velocity = q.dynamic.velocity * (1 + 1e-12 * rng.randn(*q.dynamic.velocity.shape))
        if r == 'thm':
            q.get_temperature()
    st, val = dlib.guarded(ask, q, r)
    if st == 'ok' and r == 'comm':
        return st, val, range_info(q)[0]
    return st, val, None


def flat(x):
    """all numbers of a result in one array"""
    if isinstance(x, dict):
        return np.concatenate([flat(x[k]) for k in sorted(x)] or [np.zeros(0)])
    if isinstance(x, (list, tuple)):
        return np.concatenate([flat(y) for y in x] or [np.zeros(0)])
    if x is None or isinstance(x, str):
        return np.zeros(0)
    a = np.asarray(x)
    if a.dtype.kind not in 'fciub':
        return np.zeros(0)
    a = a.astype(complex).ravel()
    return np.concatenate([a.real, a.imag])


def close(a, b, rtol=1e-6, atol_rel=1e-8):
    x, y = flat(a), flat(b)
    if x.shape != y.shape:
        return False
    ref = max(np.nanmax(np.abs(x)) if x.size else 0, np.nanmax(np.abs(y)) if y.size else 0)
    bad = np.isnan(x) != np.isnan(y)
    d = np.abs(np.nan_to_num(x) - np.nan_to_num(y))
    return not bad.any() and bool(np.all(d <= rtol * np.maximum(np.abs(np.nan_to_num(x)), np.abs(np.nan_to_num(y))) + atol_rel * ref + 1e-12))


def close_but_unstable(obs, vals):
    """vals[0] the reference, the others with perturbed input: the elements that move
    under the perturbation are not compared"""
    x = [flat(v) for v in vals]
    o = flat(obs)
    if any(y.shape != o.shape for y in x):
        return False
    ref = np.nanmax(np.abs(x[0])) if o.size else 0
    spread = np.max([np.abs(np.nan_to_num(y) - np.nan_to_num(x[0])) for y in x[1:]], axis=0)
    steady = spread <= 1e-7 * np.abs(np.nan_to_num(x[0])) + 1e-9 * ref + 1e-12
    d = np.abs(np.nan_to_num(o) - np.nan_to_num(x[0]))
    return bool(np.all((d <= 1e-6 * np.abs(np.nan_to_num(x[0])) + 1e-8 * ref + 1e-12) | ~steady | (d <= 10 * spread)))


def ahash(a):
    return hashlib.md5(np.round(np.asarray(a, float), 9).tobytes()).hexdigest()[:12]


# ------------------------------------------------------- settings, as in the model
KEYS = ["q", "alg", "lim", "res", "mem", "fit", "proj", "nac", "band", "qha", "crop", "temp"]


def work(job):
    setup(job)
    cfgs = job.get('configs') or ['default']
    hs = job['behaviours']
    args = []
    for i, h in enumerate(hs):
        args.append((h['events'], h.get('cfg') or cfgs[i % len(cfgs)], i % 3 != 2))
    workers = job.get('workers', 7)
    res = dlib.fork_map(run_history, args, workers=workers, timeout=150)

    # the settings in force at each event, from the model's transition (sent along by
    # the checker: h['states'][i] after event i, with deps[r] the relevant keys)
    need = {}

    def okey(r, s, arr, cfg):
        d = job['deps'][r]
        key = [r, cfg, arr is not None and ('lim' in d) and r != 'comm' and ahash(arr)]
        for k in KEYS:
            if k in d:
                v = s[k]
                if k == 'mem' and s['alg'] != 1:
                    v = 0
                if k == 'crop' and r == 'temp' and s['temp'] != 0:
                    v = 0
                if k == 'lim' and (job['needcomm'][r] or True):
                    v = 0
                key.append((k, v))
            else:
                key.append((k, None))
        return tuple(map(str, key))

    plan = []
    for h, (ev, cfg, sil), rr in zip(hs, args, res):
        p = []
        if rr[0] == 'ok':
            obs = rr[1]
            for j, o in enumerate(obs):
                if o['op'] != 'ask':
                    continue
                cands = []
                for jj in range(j, -1, -1):            # states visited, latest first
                    s = h['states'][jj]
                    arr = obs[jj]['arr']
                    k = okey(o['k'], s, arr, cfg)
                    if k not in [c[0] for c in cands]:
                        cands.append((k, jj, s, arr))
                need.setdefault(cands[0][0], (o['k'], cands[0][2], cands[0][3], cfg))
                p.append((j, cands))
        plan.append(p)
    keys = list(need)
    vals = dict(zip(keys, dlib.fork_map(run_oracle, [need[k] + (0,) for k in keys], workers=workers, timeout=150)))

    def oracle(k, spec, noise=0):
        kk = (k, noise) if noise else k
        if kk not in vals:
            vals[kk] = dlib.fork_map(run_oracle, [spec + (noise,)], workers=1, timeout=150)[0]
        return vals[kk]

    out = []
    compared = 0
    for h, (ev, cfg, sil), rr, p in zip(hs, args, res, plan):
        t = {'cfg': cfg, 'died': rr[0] != 'ok', 'why': '' if rr[0] == 'ok' else str(rr[1])[-300:], 'events': []}
        if rr[0] == 'ok':
            pl = dict(p)
            for j, o in enumerate(rr[1]):
                e = {'op': o['op'], 'k': o.get('k', 'none'), 'v': o.get('v', 0), 'raised': o['st'] != 'ok',
                     'back': o['back'], 'range': o['range'], 'pre': o.get('pre', o['range']),
                     'why': '' if o['st'] == 'ok' else str(o['val']),
                     'oraised': False, 'fresh': True, 'asof': j, 'orange': o['range'], 'same_range': True}
                if 'prearr' in o:
                    e['same_range'] = o['prearr'].shape == o['arr'].shape and bool(np.allclose(o['prearr'], o['arr'], atol=1e-9, rtol=0))
                if o['op'] == 'ask':
                    cands = pl[j]
                    k0, jj, s, arr = cands[0]
                    orc = oracle(k0, (o['k'], s, arr, cfg))
                    if orc[0] != 'ok':
                        e['oraised'] = True
                        e['why'] += ' | oracle: ' + str(orc[1])[-200:]
                    else:
                        st, ov, orng = orc[1]
                        e['oraised'] = st != 'ok'
                        if st != 'ok':
                            e['why'] += ' | oracle: ' + str(ov)
                        if orng:
                            e['orange'] = orng
                        if st == 'ok' and o['st'] == 'ok':
                            compared += 1
                            ok = close(o['val'], ov)
                            if not ok:
                                pert = [oracle(k0, (o['k'], s, arr, cfg), n) for n in (1, 2, 3)]
                                pv = [x[1][1] for x in pert if x[0] == 'ok' and x[1][0] == 'ok']
                                ok = bool(pv) and close_but_unstable(o['val'], [ov] + pv)
                            e['fresh'] = ok
                            if not ok:
                                e['asof'] = -1
                                for (k, j2, s2, a2) in cands[1:]:
                                    w = oracle(k, (o['k'], s2, a2, cfg))
                                    if w[0] == 'ok' and w[1][0] == 'ok' and close(o['val'], w[1][1]):
                                        e['asof'] = j2
                                        break
                t['events'].append(e)
        out.append(t)
    return {'traces': out, 'oracles': len(vals), 'compared': compared}


if __name__ == '__main__':
    dlib.main(work)
