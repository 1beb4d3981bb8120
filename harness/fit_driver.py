"""Executes behaviours of specs/Peaks.tla: the analysis of the peaks by the real code."""
import numpy as np
import dlib

GRIDS = {1: np.arange(401) * .05, 2: np.arange(451) * .025, 3: .2 + np.arange(180) * .08}
SHAPES = {1: (3.0, .10), 2: (5.2, .25), 3: (.9, .06), 4: (7.42, .40)}


def curve(x, peak, area, fn):
    a, b = SHAPES[peak]
    if fn == 2:
        return area * 2 * a ** 2 * 2 * b / np.pi / ((a ** 2 - x ** 2) ** 2 + (2 * b * x) ** 2)
    return area / (np.pi * b * (1 + ((x - a) / b) ** 2))


def analyse(modes, sym, fn, shifted, grid, base, scale):
    from dynaphopy.analysis import fitting
    x = GRIDS[grid].copy()
    f = 1 + np.cumsum([m[0] for m in modes]) * 1e-5
    ps = np.array([scale * (curve(x, m[1], m[2], fn) + base * m[2] * .02) for m in modes]).T
    r = fitting.phonon_fitting_analysis(ps, x, harmonic_frequencies=f,
                                        thermal_expansion_shift=np.array([.37 * (k + 1) - .6 for k in range(len(modes))]) if shifted else None,
                                        fitting_function_type=fn, show_plots=False, use_degeneracy=sym)
    return ([dlib.q(v) for v in r['positions']], [dlib.q(v) for v in r['widths']], [dlib.q(v, 1e4 / scale / 2) for v in r['dt_Q2']])


def one(beh, n):
    modes, sym, fn, shifted, grid, base = [], True, 0, False, 1, 0
    ev = []
    for e in beh + [dict(op='ask', v=[])]:
        e = dict(e, died=False, place=[], width=[], area=[])
        v = e['v']
        if e['op'] == 'add':
            modes = modes + [v]
        elif e['op'] == 'drop':
            modes = modes[:-1]
        elif e['op'] == 'sym':
            sym = not sym
        elif e['op'] == 'shift':
            shifted = not shifted
        elif e['op'] == 'fn':
            fn = v[0]
        elif e['op'] == 'grid':
            grid = v[0]
        elif e['op'] == 'base':
            base = 1 - base
        elif modes:
            how, r = dlib.guarded(analyse, modes, sym, fn, shifted, grid, base, [1., 1e-3, 50.][n % 3])
            if how == 'ok':
                e['place'], e['width'], e['area'] = r
            else:
                e['died'], e['why'] = True, r
        else:
            e['op'] = 'none'
        ev.append(e)
    return dict(events=ev)


def chunk(job, todo):
    return [one(job['behaviours'][n], n) for n in todo]


def run(job):
    from dynaphopy.analysis import fitting
    todo = list(range(len(job['behaviours'])))
    parts = [(job, todo[k::24]) for k in range(24)]
    tr, lost = [], []
    for a, (how, v) in zip(parts, dlib.fork_map(chunk, parts, workers=7, timeout=800)):
        if how == 'ok':
            tr += v
        else:
            lost.append(str(v)[-500:])
    return dict(traces=tr, lost=lost)


if __name__ == '__main__':
    dlib.main(run)
