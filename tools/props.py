"""Writes properties.jsonl and MANIFEST.json (one place to edit both)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, state=None):
    a = {'files': files, 'mechanism': mech}
    if state:
        a['state'] = state
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=a))


prop('C01', 'Results always correspond to the settings in force',
     'Whatever sequence of setting changes and requests came before, every result that a calculation object returns '
     '(harmonic frequencies and eigenvectors, projected velocities, the four kinds of power spectra, quasiparticle data, '
     'renormalized force constants, band structures, mesh data, temperature, thermal properties, group velocities) equals the '
     'result of a fresh calculation made with the settings in force at that moment. Settings are the wave vector, spectrum '
     'algorithm, frequency limits, resolution, MEM coefficients, peak fitting function, atom projected onto, non-analytical '
     'correction, band path, QHA force constants, the number of steps kept and the temperature.',
     ['histories'], 'all sequences of setting changes, refused changes and requests',
     'The tests ask each result once or twice in one fixed order; staleness appears only for particular orders of changes and requests.',
     ['dynaphopy/__init__.py', 'dynaphopy/parameters.py', 'dynaphopy/dynamics.py'],
     ['Quasiparticle.full_clear', 'Quasiparticle.power_spectra_clear', 'Quasiparticle.force_constants_clear', 'Quasiparticle.set_*'])
prop('C02', 'Settings read back as set; requests and refused changes leave them alone',
     'Every accepted setting change is what is read back afterwards and touches no other setting; requesting results leaves all '
     'settings as they were (the analysis that visits other wave vectors puts the wave vector back), except that the quasiparticle '
     'analysis sets the frequency range to 0 - 1.2 times the highest harmonic frequency. The frequency range always starts at the lower '
     'limit asked for, has uniform steps of the chosen resolution and ends at the upper limit or less than one step after it. A change to a '
     'value that does not exist (algorithm, fitting function, atom, band path) is refused and changes nothing.',
     ['histories'], 'all sequences of setting changes, refused changes and requests',
     'Tests set options once before one request and never read them back after a request.',
     ['dynaphopy/__init__.py', 'dynaphopy/parameters.py'],
     ['Quasiparticle.set_*', 'Quasiparticle.get_commensurate_points_data', 'Quasiparticle.get_power_spectrum_phonon'])

CHECKS = {
    'C01': ('TLA+ model of settings and kept results (Quasi.tla), TLC exhaustive; every TLC-generated tour request/change/request and random '
            'walks replayed on the real object and compared with fresh objects; sessions validated by TLC (QuasiTrace.tla)', ''),
    'C02': ('TLA+ model of settings (Quasi.tla); TLC-generated sessions replayed on the real object; settings and frequency range read back after every '
            'operation validated by TLC (QuasiTrace.tla)', ''),
}
NA = {}
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props_part2
props_part2.add(prop, CHECKS, NA)
import props_part3
props_part3.add(prop, CHECKS, NA)
import props_part4
props_part4.add(prop, CHECKS, NA)

if __name__ == '__main__':
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(p) + '\n')
    m = {'version': 1, 'setup_cmd': 'python3 /verif/harness/setup_check.py',
         'checks': [{'property': k, 'quick_cmd': 'VERIF_TIER=quick python3 /verif/run.py %s quick' % k,
                     'thorough_cmd': 'VERIF_TIER=thorough python3 /verif/run.py %s thorough' % k,
                     'technique': t, 'level': 'model_checking', 'level_note': n or 'design exhaustively model checked; implementation bound by replayed/validated traces'}
                    for k, (t, n) in sorted(CHECKS.items())],
         'not_applicable': [{'property': k, 'reason': v} for k, v in sorted(NA.items())]}
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
