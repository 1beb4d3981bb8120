"""Executes behaviours of specs/Thermo.tla: thermal properties by the real code."""
import numpy as np
import dlib

K = 8
kB, h, NA, e0 = 1.380649e-23, 6.62607015e-34, 6.02214076e23, 1.602176634e-19


def ask(g, gh, t, a, T0, n):
    from dynaphopy.analysis import thermal_properties as thm
    f0 = kB * T0 * np.log(2) / h * 1e-12
    f = np.arange(a, K + 1) * f0
    T = T0 / 2. ** t
    d, dh = np.array(g[a:], float), np.array(gh[a:], float)
    en = f0 / 3 * NA * kB
    P = d * kB * T0 / e0 * n / 3
    o = dict(energy=thm.get_total_energy(T, f, d) * 1000 / en / T0, free=thm.get_free_energy(T, f, d) * 1000 / en / T0,
             entropy=thm.get_entropy(T, f, d) / en, heat=thm.get_cv(T, f, d) / en,
             correction=thm.get_free_energy_correction_dos(T, f, dh, d) * 1000 / en / T0)
    o = {k: dlib.q(v) for k, v in o.items()}
    # (the alternative expression is for occupations that can be told from zero)
    o['entropy2'] = dlib.q(thm.get_entropy2(T, f, d) / en) if t == 0 else -1
    o['dos'] = [dlib.q(x) for x in thm.get_dos(T, f, P, n)]
    o['quantum'] = [dlib.q(x) for x in thm.get_dos(T, f, P, n, bose_einstein_statistics=True)]
    return o


def one(beh, n):
    g, gh, t, a = [0, 0, 1, 0, 0, 1, 0, 0, 0], [0] * (K + 1), 0, 0
    ev = []
    for e in beh + [dict(op='ask', v=[])]:
        e = dict(e, died=False, obs=0)
        v = e['v']
        if e['op'] == 'put':
            g = g[:v[0]] + [v[1]] + g[v[0] + 1:]
        elif e['op'] == 'keep':
            gh = g
        elif e['op'] == 'level':
            t = v[0]
        elif e['op'] == 'from':
            a = v[0]
        else:
            how, r = dlib.guarded(ask, g, gh, t, a, [300., 12.5, 2000.][n % 3], [1, 16, 216][n % 3])
            if how == 'ok':
                e['obs'] = r
            else:
                e['died'], e['why'] = True, r
        ev.append(e)
    return dict(events=ev)


def run(job):
    return dict(traces=[one(b, n) for n, b in enumerate(job['behaviours'])], lost=[])


if __name__ == '__main__':
    dlib.main(run)
