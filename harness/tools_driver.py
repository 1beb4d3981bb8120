"""Executes the cases of specs/ToolsGen.tla: the scripts rfc_calc, qha_extract and fitdata."""
import os
os.environ['OMP_NUM_THREADS'] = '1'
os.environ['MPLBACKEND'] = 'Agg'
import contextlib, io, itertools, re, runpy, sys, tempfile, warnings
import numpy as np
import dlib, crystals, star_driver

DEN = star_driver.DEN
PATHS = {1: ([[(0, 0, 0), (.5, 0, 0)], [(.5, 0, 0), (.5, .5, 0)]], '\nBANDS\n0.0, 0.0, 0.0   0.5, 0.0, 0.0\n0.5, 0.0, 0.0   0.5, 0.5, 0.0\n'),
         2: ([[(0, 0, 0), (0, .5, 0)]], '\nBANDS\n0.0, 0.0, 0.0   0.0, 0.5, 0.0 : G, Y\n')}


def script(name, *args):
    out = io.StringIO()
    sys.argv = [name] + [str(a) for a in args]
    with contextlib.redirect_stdout(out):
        try:
            runpy.run_path(os.path.join(os.environ['VERIF_PKG'], 'scripts', name), run_name='__main__')
        except SystemExit as e:
            if e.code:
                raise RuntimeError('exit: ' + out.getvalue()[-200:])
    return out.getvalue()


def write_inputs(name, extra='', fc=True):
    from phonopy.file_IO import write_FORCE_CONSTANTS
    c = crystals.CRYSTALS[name]
    el = [(k, len(list(g))) for k, g in itertools.groupby(c['el'])]
    with open('POSCAR', 'w') as f:
        f.write('toy\n1.0\n' + ''.join('%.16f %.16f %.16f\n' % tuple(r) for r in c['cell']) + ' '.join(e for e, _ in el) + '\n' + ' '.join(str(n) for _, n in el)
                + '\nDirect\n' + ''.join('%.16f %.16f %.16f\n' % tuple(r) for r in c['frac']))
    write_FORCE_CONSTANTS(crystals.fc_array(name), filename='FC')
    with open('input', 'w') as f:
        f.write('STRUCTURE FILE POSCAR\nPOSCAR\n' + ('\nFORCE CONSTANTS\nFC\n' if fc else '') + '\nPRIMITIVE MATRIX\n' + ''.join('%.10f %.10f %.10f\n' % tuple(r) for r in c['pm'])
                + '\nSUPERCELL MATRIX\n' + ''.join('%d %d %d\n' % tuple(r) for r in np.diag(c['fc'])) + extra)


def order(k, n, seed=0):
    return {0: list(range(n)), 1: list(range(n))[::-1], 2: list(np.roll(range(n), 1 + seed))}.get(k, [int(x) for x in np.random.RandomState(seed).permutation(n)])


def dims(v):
    return list(v['dim']) if v['dim'][0] else list(crystals.CRYSTALS[v['x']]['fc'])


def common(v):
    c = crystals.CRYSTALS[v['x']]
    return dict(v=v, died=False, fc=list(c['fc']), cell=len(c['el']), prim=int(round(1 / abs(np.linalg.det(np.array(c['pm'], float))))))


def rfc(v):
    import yaml
    from phonopy.file_IO import parse_FORCE_CONSTANTS
    import matplotlib.pyplot as plt
    name = v['x']
    md = dims(v)
    write_inputs(name, PATHS[v['plot']][1] if v['plot'] else '')
    ph = star_driver.ref_phonon(name)
    group = star_driver.ops(name)
    pts = star_driver.points(name, md)
    new, harm, rec = {}, {}, []
    for q in pts:
        f, e = star_driver.modes(ph, np.array(q) / DEN)
        g = star_driver.groups(f)
        s = star_driver.star(np.array(q) / DEN, group) if v['sym'] else min(q, tuple((-np.array(q)) % DEN))
        h = (s[0] * 5 + s[1] * 3 + s[2] * 7) // 2 + 31 * v['seed']
        n = np.array([f[g.index(k)] * (1 + .05 * ((h + 3 * k) % 6 - 2)) * (-1 if v['imag'] and k == 0 and h % 3 == 0 else 1) for k in g])
        if q == (0, 0, 0):
            n[:3] = 0
        new[q], harm[q] = n, (f, e, g)
    rng = np.random.RandomState(v['seed'])
    for i in order(v['order'], len(pts), v['seed']):
        z = [np.zeros(3), rng.randint(-1, 2, 3), -np.ones(3)][v['zone']]
        rec.append((list(np.array(pts[i]) / DEN + z), list(new[pts[i]])))
    with open('qp.yaml', 'w') as f:
        for k, (q, fr) in enumerate(rec):
            f.write('- ' if v['form'] == 'list' else 'point_%d:\n  ' % k)
            f.write('frequencies:\n' + ''.join('  - %.8f\n' % x for x in fr) + '  linewidths:\n' + '  - 0.1\n' * len(fr) + '  reduced_wave_vector:\n' + ''.join('  - %.8f\n' % x for x in q))
    args = ['input', 'qp.yaml', '-s', 'OUT'] + (['--fcsymm'] if v['sym'] else []) + (['-p'] if v['plot'] else []) + (['--dim'] + md if v['dim'][0] else [])
    script('rfc_calc', *args)
    arr = parse_FORCE_CONSTANTS('OUT')
    two = star_driver.ref_phonon(name, fc=(arr, np.diag(md)))
    r = common(v)
    r.update(natom=int(arr.shape[1]), q=[list(q) for q in pts], want=[], got=[], mixed=0, curves=0, ncurves=0, wantcurves=0)
    for q in pts:
        f2, e2 = star_driver.modes(two, np.array(q) / DEN)
        D = (e2 * (np.sign(f2) * f2 ** 2)).dot(e2.conj().T)
        f, e, g = harm[q]
        M = e.conj().T.dot(D).dot(e)
        own = np.real(np.diag(M))
        own = np.array([np.mean([own[j] for j in range(len(g)) if g[j] == k]) for k in g])
        got = np.sign(own) * np.sqrt(np.abs(own))
        if q == (0, 0, 0):
            got = np.where(np.abs(got) < .02, 0, got)
        r['want'].append([dlib.q(x, 1e4) for x in new[q]])
        r['got'].append([dlib.q(x, 1e4) for x in got])
        same = np.array(g)[:, None] == np.array(g)[None]
        r['mixed'] = max(r['mixed'], dlib.q(np.abs(np.where(same, 0, M)).max() / max(np.abs(M).max(), 1e-9), 1e5))
    if v['plot']:
        ranges = PATHS[v['plot']][0]
        lines = [l for a in plt.gcf().axes for l in a.get_lines() if len(l.get_xdata()) == 31]
        paths = [[np.array(a) + (np.array(b) - np.array(a)) * k / 30 for k in range(31)] for a, b in ranges]
        ref = {w: [np.array([star_driver.modes(p, q)[0] for q in path]) for path in paths] for w, p in (('b', ph), ('r', two))}
        for w in 'br':
            mine = [np.array(l.get_ydata()) for l in lines if l.get_color() == w]
            want = [x for m in ref[w] for x in m.T]
            r['ncurves'] += len(mine)
            r['wantcurves'] += len(want)
            if len(mine) == len(want):
                n = len(ph.primitive) * 3                 # as sets at each wave vector
                for k in range(len(ranges)):
                    a, b = np.sort(np.array(mine[k * n:(k + 1) * n]), axis=0), np.sort(np.array(want[k * n:(k + 1) * n]), axis=0)
                    r['curves'] = max(r['curves'], dlib.q(np.abs(np.sign(a) * a ** 2 - np.sign(b) * b ** 2).max() / max((b ** 2).max(), 1), 1e4))
    return r


def cp(v):
    write_inputs(v['x'])
    out = script('rfc_calc', 'input', '-cp', *(['--dim'] + list(v['dim']) if v['dim'][0] else []))
    q = [np.array([float(x) for x in m.split()]) * DEN for m in re.findall(r'\[([^\]]*)\]', out)]
    r = common(v)
    r.update(q=[[int(x) for x in np.rint(a) % DEN] if np.abs(a - np.rint(a)).max() < 1e-4 else [99, 99, 99] for a in q],
             points=[list(p) for p in star_driver.points(v['x'], dims(v))])
    return r


def qha(v):
    from phonopy.file_IO import write_FORCE_CONSTANTS, parse_FORCE_CONSTANTS
    from phonopy import PhonopyQHA
    from scipy.interpolate import interp1d
    name = v['x']
    write_inputs(name, fc=False)
    c = crystals.CRYSTALS[name]
    fc0 = crystals.fc_array(name)
    V0 = abs(np.linalg.det(np.array(c['cell'], float)))
    xs = np.linspace(-.05, .07, v['n'])
    ref = dict(V=[], E=[], F=[], S=[], C=[])
    lines = []
    ev = lambda x: v['stiff'] * (len(c['el']) * x * x)
    for k, i in enumerate(order(v['order'], v['n'], 2)):
        x = xs[i]
        arr = fc0 * (1 + v['a1'] / 10. * x + v['a2'] / 10. * x * x)
        write_FORCE_CONSTANTS(arr, filename='FC-%d' % k)
        ph = star_driver.ref_phonon(name, fc=(arr, np.diag(c['fc'])))
        ph.run_mesh([3, 3, 3])
        ph.run_thermal_properties(t_min=0, t_max=320, t_step=20, cutoff_frequency=.3)
        ph.write_yaml_thermal_properties(filename='tp-%d.yaml' % k)
        lines.append('%.8f %.8f\n' % (V0 * (1 + x), ev(x)))
    open('ev', 'w').writelines(lines)
    import yaml
    where = {i: k for k, i in enumerate(order(v['order'], v['n'], 2))}
    for i, x in enumerate(xs):                            # digit by digit what the files hold: fits of phonopy to other digits can end elsewhere
        d = yaml.safe_load(open('tp-%d.yaml' % where[i]))['thermal_properties']
        for key, w in (('F', 'free_energy'), ('S', 'entropy'), ('C', 'heat_capacity')):
            ref[key].append([m[w] for m in d])
        ref['V'].append(float(lines[where[i]].split()[0]))
        ref['E'].append(float(lines[where[i]].split()[1]))
        T = np.array([m['temperature'] for m in d])
    q = PhonopyQHA(np.array(ref['V']), np.array(ref['E']), eos='vinet', temperatures=T, free_energy=np.array(ref['F']).T, cv=np.array(ref['C']).T, entropy=np.array(ref['S']).T)
    vt = np.array(q.volume_temperature)
    smooth = np.abs(np.diff(vt, 2)).max() < 5e-5 * V0      # else a fit of phonopy has failed
    x = float(interp1d(T[:len(vt)], vt, kind='cubic')(v['T'])) / V0 - 1
    assert xs[0] < x < xs[-1], x
    fcs, tps = (['FC-*'], ['tp-*']) if v['glob'] else (['FC-%d' % k for k in range(v['n'])], ['tp-%d.yaml' % k for k in range(v['n'])])
    script('qha_extract', 'input', '-fc', *fcs, '-tp', *tps, '-ev', 'ev', '-t', v['T'], '-sfc', 'OUT')
    out = parse_FORCE_CONSTANTS('OUT')
    r = common(v)
    ratio = (out * fc0).sum() / (fc0 ** 2).sum()
    r.update(ratio=dlib.q(ratio, 1e5), rest=dlib.q(np.abs(out - ratio * fc0).max() / np.abs(fc0).max(), 1e5), x=dlib.q(x, 1e5), converged=bool(smooth))
    return r


def local_lines(x, y, f):
    """regression by straight lines with tricube weights"""
    n = len(x)
    r = int(np.ceil(f * n))
    out = np.zeros(n)
    for i in range(n):
        d = np.abs(x - x[i])
        w = (1 - np.clip(d / np.sort(d)[r], 0, 1) ** 3) ** 3
        k = w > 0
        out[i] = np.polyval(np.polyfit(x[k] - x[i], y[k], 1, w=np.sqrt(w[k])), 0)
    return out


def numbers(text):
    """position, width, area, base line, height and asymmetry printed for each peak (10^-3)"""
    fits = []
    for block in re.split(r'\nPeak # ', text)[1:]:
        block = block.split('Warning')[0]
        fits.append([dlib.q(float(m.group(1)), 1e3) for w in ('Width', 'Position', r'Area \(<K>\)    \(Total\)', 'Maximum height') for m in [re.search(w + r'\s+(-?[\d.]+)', block)] if m])
    return fits


def fit(v):
    from dynaphopy.analysis.fitting import fitting_functions
    rng = np.random.RandomState(v['seed'])
    f = np.arange(v['rows']) * .05
    n = v['cols']
    cols = []
    for k in range(n):
        if k == 0 and v['smooth']:
            y = 40 + 30 * f
        else:
            g, p = .15 + .1 * rng.rand(), .8 + rng.rand()
            y = 1e3 / (1 + ((f - p) / g) ** 2) + 5 * rng.rand(len(f)) + (300 if k == 0 else 0) * (f == 0)
        cols.append(np.rint(y * 1000).astype(int))
    cols = np.array(cols)
    with open('data', 'w') as o:
        for k in range(len(f)):
            o.write('%10.4f\t' % f[k] + ''.join('%.10e\t' % (c[k] / 1e3) for c in cols) + '\n')
    sets = {'all': [[k + 1] for k in range(n)], 'each': [[k + 1] for k in range(n)][::-1], 'last': [[n]],
            'pairs': [[1, 2], [3, 4], [2, 3, 4]] if n == 4 else [[1, 2, 3], [1]] if n == 3 else [[1, 2]] if n == 2 else [[1]]}[v['sets']]
    args = ['data', '--silent', '-s', 'OUT', '--fitting_function', v['fn']]
    if v['sets'] != 'all':
        args += ['-bi'] + ','.join(' '.join(str(x) for x in s) for s in sets).split(' ')
    if v['smooth']:
        args += ['-sm', '-f', v['smooth'] / 100.]
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        text = script('fitdata', *args)
        mean = [np.mean([cols[j - 1] / 1e3 for j in s], axis=0) for s in sets]
        if v['smooth']:
            mean = [local_lines(f, y, v['smooth'] / 100.) for y in mean]
        want = []
        for y in mean:
            F = fitting_functions.fitting_functions[v['fn']](f, y, guess_height=np.max(y), guess_position=f[np.argmax(y)])
            p = F.get_fitting()
            if p['all_good']:
                want.append([dlib.q(a, 1e3) for a in (p['width'], p['peak_position'], 0, p['maximum'])])
    fits = numbers(text)
    for a in fits:
        if len(a) == 4:
            a[2] = 0
    out = np.loadtxt('OUT', ndmin=2)
    return dict(v=v, died=False, f=[dlib.q(x, 1e4) for x in f], rows=[[int(x) for x in c] for c in cols.T], sets=sets,
                out=[[dlib.q(r[0], 1e4)] + [dlib.q(x, 12e3) for x in r[1:]] for r in out], ref=[[dlib.q(y[k], 12e3) for y in mean] for k in range(len(f))], fits=fits, wantfits=want)


def one(v):
    os.chdir(tempfile.mkdtemp())
    return dict(rfc=rfc, cp=cp, qha=qha, fit=fit)[v['tool']](v)


def case(v):
    how, r = dlib.guarded(one, v)
    return r if how == 'ok' else dict(v=v, died=True, why=r)


def run(job):
    import dynaphopy
    tr, lost = [], []
    for how, v in dlib.fork_map(case, [(v,) for v in job['behaviours']], workers=7, timeout=800):
        if how == 'ok':
            tr.append(v)
        else:
            lost.append(str(v)[-500:])
    return dict(traces=tr, lost=lost)


if __name__ == '__main__':
    dlib.main(run)
