"""The checks, one function per property."""
import json, re
import vlib
from vlib import MachineryError

REGISTRY = {}


def check(pid):
    def deco(f):
        REGISTRY[pid] = f
        return f
    return deco


# ------------------------------------------------------------------ C01, C02: sessions
def q_behaviours(ctx, cfg, **kw):
    r = ctx.tlc('QuasiGen', cfg, **kw)
    beh, dep = [], None
    seen = set()
    for line in r['out'].splitlines():
        m = re.match(r'^"?(BEH|DEP) (.*?)"?$', line)
        if not m:
            continue
        if line in seen:
            continue
        seen.add(line)
        d = json.loads(m.group(2).replace('\\"', '"'))
        if m.group(1) == 'DEP':
            dep = d
        else:
            beh.append(d)
    if not beh or dep is None:
        raise MachineryError('no behaviours from QuasiGen/%s: %s' % (cfg, r['out'][-1500:]))
    return beh, dep


def q_sessions(ctx, pid, sets):
    env = ctx.driver_env(OMP_NUM_THREADS=1)
    """sets: [(behaviours, crystal, configs)]"""
    for n, (beh, dep, crystal, configs) in enumerate(sets):
        hs = [{'events': [dict(op=e['op'], k=e['k'], v=e['v']) for e in h],
               'states': [dep['init']] + [e['st'] for e in h]} for h in beh]
        job = dict(behaviours=hs, crystal=crystal, configs=configs, seed=ctx.seed,
                   deps=dep['deps'], needcomm=dep['needcomm'])
        obs, err = ctx.drive('q_driver.py', job, timeout=3000 if ctx.thorough else 600, name='q%d' % n, env=env)
        if err:
            ctx.fail('driver: session could not be run', why=err)
            continue
        if len(obs['traces']) != len(hs):
            raise MachineryError('observations missing')
        lim = {'1': [0, 16000000], '2': [0, 11000000], '3': [3000000, 14000000]}
        tf = {'traces': obs['traces'], 'lim': [lim['1'], lim['2'], lim['3']], 'res': [200000, 100000]}
        v = ctx.verdict('QuasiTrace', 'QuasiTrace.cfg', tf, timeout=1200)
        if v['traces'] != len(hs):
            raise MachineryError('verdict covers %s of %s traces' % (v['traces'], len(hs)))
        ctx.traces += len(hs)
        ctx.extra['results_compared_with_fresh_object'] = ctx.extra.get('results_compared_with_fresh_object', 0) + obs['compared']
        ctx.extra['fresh_objects'] = ctx.extra.get('fresh_objects', 0) + obs['oracles']
        if hs:
            ctx.sample({'behaviour': [[e['op'], e['k'], e['v']] for e in hs[0]['events']],
                        'observed': [{k: e[k] for k in ('raised', 'fresh', 'asof', 'range')} for e in obs['traces'][0]['events']]})
        for b in v['bad']:
            t = obs['traces'][b['trace'] - 1]
            h = hs[b['trace'] - 1]
            if b['prop'] == pid or b['clause'].startswith('session died'):
                ctx.fail(b['clause'], crystal=crystal, cfg=t['cfg'], at=b['at'],
                         history=[[e['op'], e['k'], e['v']] for e in h['events']],
                         why=t['why'] or t['events'][b['at'] - 1]['why'])


@check('C01')
def c01(ctx):
    ctx.model_check('Quasi', 'Quasi2.cfg' if ctx.thorough else 'Quasi.cfg', timeout=3000)
    tours, dep = q_behaviours(ctx, 'QuasiTour3.cfg')
    walks, _ = q_behaviours(ctx, 'QuasiWalk.cfg', simulate=600 if ctx.thorough else 60, depth=30)
    sets = [(tours, dep, 'tetra', ['default']),
            (walks, dep, 'tetra', ['default', 'nosym', 'mdcell', 'zeropad', 'symm'])]
    if ctx.thorough:
        t4, _ = q_behaviours(ctx, 'QuasiTour4.cfg')
        sets.append((t4, dep, 'tetra', ['default']))
    q_sessions(ctx, 'C01', sets)


@check('C02')
def c02(ctx):
    options(ctx)
    ctx.model_check('Quasi', 'Quasi2.cfg' if ctx.thorough else 'Quasi.cfg', timeout=3000)
    tours, dep = q_behaviours(ctx, 'QuasiTour3.cfg')
    walks, _ = q_behaviours(ctx, 'QuasiWalk.cfg', simulate=600 if ctx.thorough else 80, depth=30, seed=ctx.seed + 1000)
    if not ctx.thorough:
        tours = tours[::4]
    q_sessions(ctx, 'C02', [(tours, dep, 'tetra', ['default']),
                            (walks, dep, 'tetra', ['default', 'nosym', 'mdcell', 'zeropad', 'symm'])])


def options(ctx):
    beh = ctx.behaviours('Options', simulate=12 if ctx.thorough else 4, depth=70)
    obs, err = ctx.drive('opt_driver.py', {'behaviours': beh})
    if err or 'error' in obs:
        ctx.fail('driver: options could not be written', why=err or obs['error'])
        return
    v = ctx.verdict('OptTrace', 'OptTrace.cfg', obs['traces'])
    if v['traces'] != len(beh):
        raise MachineryError('verdict incomplete')
    ctx.traces += len(beh)
    for b in v['bad']:
        ctx.fail(b['clause'], at=b['at'])


# ------------------------------------------------------ C03, C04, C17: trajectory objects
def dyn_sessions(ctx, beh, keep, crystals=('A', 'B', 'C', 'D', 'E', 'I'), chunk=1500):
    ctx.package()
    for n in range(0, len(beh), chunk):
        part = beh[n:n + chunk]
        obs, err = ctx.drive('dyn_driver.py', dict(behaviours=part, crystals=list(crystals), steps=7, seed=ctx.seed * 17),
                             timeout=800, name='dyn%d' % n)
        if err:
            ctx.fail('driver: trajectories could not be used', why=err)
            return
        tr = obs['traces']
        if len(tr) != len(part):
            raise MachineryError('observations missing')
        why = [[e.get('why', '') for e in t['events']] for t in tr]
        for t in tr:
            for e in t['events']:
                e.pop('why', None)
        bad = ctx.verdict_split('DynTrace', 'DynTrace.cfg', tr, lambda t: {'crystals': obs['crystals'], 'traces': t}, timeout=800)
        ctx.traces += len(part)
        ctx.sample({'behaviour': [[e['op'], e['o'], e['k'], e['v']] for e in part[0]]})
        for b in bad:
            if not keep(b['clause']):
                continue
            h = part[b['trace'] - 1]
            j = b['at'] - 1
            w = why[b['trace'] - 1]
            ctx.fail(b['clause'], at=b['at'], history=[[e['op'], e['o'], e['k'], e['v']] for e in h],
                     why=w[j] if j < len(w) else tr[b['trace'] - 1].get('why', ''))


SERIES = {'time', 'step', 'traj', 'energy', 'rel', 'vel', 'vmass'}
MEANS = {'msd', 'msda', 'avg', 'avg1', 'avgu', 'adp'}


def dyn_part(ctx, pick, keep):
    ctx.model_check('Dyn', timeout=900)
    tours = [h for h in ctx.behaviours('DynGen', 'DynTour.cfg') if pick(h)]
    walks = ctx.behaviours('DynGen', 'DynWalk.cfg', simulate=1500 if ctx.thorough else 100, depth=40)
    if not ctx.thorough and len(tours) > 1100:
        tours = tours[ctx.seed % 2::2]
    if ctx.thorough:
        for rep in range(5):            # another crystal each time
            dyn_sessions(ctx, tours[rep:] + tours[:rep], keep)
    else:
        dyn_sessions(ctx, tours, keep)
    dyn_sessions(ctx, walks, keep)


def _clause(c):
    """(kind, what, mode) of a clause such as wrong:msd:cart:memmap"""
    p = c.split(':')
    return (p[0], p[1] if len(p) > 1 else '', p[-1])


@check('C03')
def c03(ctx):
    def keep(c):
        kind, what, mode = _clause(c)
        return c == 'session died' or mode == 'memory' and (what in SERIES or kind == 'failed')
    dyn_part(ctx, lambda h: h[0]['v'] == 0 and h[3]['k'] in SERIES, keep)


@check('C04')
def c04(ctx):
    def keep(c):
        kind, what, mode = _clause(c)
        return c == 'session died' or mode == 'memmap' or c.startswith('files')
    dyn_part(ctx, lambda h: h[0]['v'] == 1, keep)


@check('C17')
def c17(ctx):
    def keep(c):
        kind, what, mode = _clause(c)
        return c == 'session died' or mode == 'memory' and (what in MEANS or kind == 'failed')
    dyn_part(ctx, lambda h: h[0]['v'] == 0 and h[3]['k'] in MEANS, keep)


# ---------------------------------------------------------------- C05, C06: readers
def readers(ctx, job, keep):
    obs, err = ctx.drive('rd_driver.py', dict(job, seed=ctx.seed), timeout=1500)
    if err or obs['lost']:
        ctx.fail('driver: files could not be read', why=err or obs['lost'][0])
        if err:
            return
    tr = obs['traces']
    why = [t.pop('why') for t in tr]
    bad = ctx.verdict_split('ReaderTrace', 'ReaderTrace.cfg', tr, lambda t: {'files': obs['files'], 'traces': t},
                            timeout=1200)
    ctx.traces += len(tr)
    ctx.extra['requests'] = ctx.extra.get('requests', 0) + len(tr)
    ctx.extra['refused'] = ctx.extra.get('refused', 0) + sum(t['refused'] for t in tr)
    for k in (0, len(tr) // 2):
        if tr:
            ctx.sample({a: tr[k][a] for a in ('kind', 'a', 'b', 'lim', 'last', 'mm', 'cut', 'refused', 'time')})
    for b in bad:
        t = tr[b['trace'] - 1]
        if keep(b['clause']):
            ctx.fail(b['clause'], fmt=obs['files'][t['f'] - 1]['fmt'], why=why[b['trace'] - 1],
                     request={a: t[a] for a in ('a', 'b', 'lim', 'last', 'mm', 'cut', 'tpl')},
                     delivered=len(t['data']), time=t['time'])


@check('C05')
def c05(ctx):
    ctx.model_check('Reader')
    w = ctx.behaviours('ReaderGen', 'ReaderGen6.cfg' if ctx.thorough else 'ReaderGen.cfg')
    readers(ctx, dict(windows=w, crystals=['A', 'B', 'D', 'C', 'E'], cut_crystals=[], cut_steps=3, stride=1), lambda c: True)


@check('C06')
def c06(ctx):
    ctx.model_check('Reader')
    readers(ctx, dict(windows=[], crystals=[], cut_crystals=['A', 'B', 'C', 'D', 'E'] if ctx.thorough else ['A', 'D'],
                      cut_steps=5 if ctx.thorough else 3, stride=1), lambda c: True)


# --------------------------------------------------------------------- C22: structures
@check('C22')
def c22(ctx):
    ctx.model_check('StructMC')
    tours = ctx.behaviours('StructGen', 'StructTour.cfg')
    walks = ctx.behaviours('StructGen', 'StructWalk.cfg', simulate=3000 if ctx.thorough else 400, depth=40)
    if not ctx.thorough:
        tours = tours[ctx.seed % 8::8]
    for n, (beh, al) in enumerate(((tours, ctx.thorough), (walks, True))):
        for k in range(0, len(beh), 6000):
            part = beh[k:k + 6000]
            obs, err = ctx.drive('st_driver.py', dict(behaviours=part, all=al, seed=ctx.seed), timeout=800, name='st%d_%d' % (n, k))
            if err:
                ctx.fail('driver: structures could not be used', why=err)
                return
            tr = obs['traces']
            why = [[e.pop('why', '') for e in t['events']] for t in tr]
            died = [t.pop('why', '') for t in tr]
            bad = ctx.verdict_split('StructTrace', 'StructTrace.cfg', tr, timeout=800, parts=7,
                                    wrap=lambda t: {'crystals': obs['crystals'], 'supers': obs['supers'], 'traces': t})
            ctx.traces += len(tr)
            ctx.sample({'behaviour': [[e['op'], e['k'], e['v']] for e in part[0]]})
            for b in bad:
                t = tr[b['trace'] - 1]
                w = why[b['trace'] - 1]
                ctx.fail(b['clause'], at=b['at'], crystal=t['c'], history=[[e['op'], e['k'], e['v']] for e in t['events']][:b['at']],
                         why=w[b['at'] - 1] if b['at'] <= len(w) else died[b['trace'] - 1])


# ------------------------------------------------- checks on single requests (no sessions)
def cases(ctx, driver, trace, beh, job, wrap, parts=6, timeout=800, label=lambda t: t):
    """beh: TLC-generated requests; the driver answers each; TLC says which clauses fail"""
    obs, err = ctx.drive(driver, dict(job, behaviours=beh, seed=ctx.seed), timeout=timeout)
    if err:
        ctx.fail('driver: the code could not be used', why=err)
        return None
    if obs.get('lost'):
        ctx.fail('driver: the code could not be used', why=obs['lost'][0])
    tr = obs['traces']
    why = [t.pop('why', '') for t in tr]
    bad = ctx.verdict_split(trace, trace + '.cfg', tr, timeout=timeout, parts=parts, wrap=lambda t: wrap(obs, t))
    ctx.traces += len(tr)
    for b in bad:
        ctx.fail(b['clause'], case=label(tr[b['trace'] - 1]), why=why[b['trace'] - 1])
    if tr:
        ctx.sample({'case': beh[0]})
        ctx.sample({'case': beh[len(beh) // 2]})
    return obs


@check('C10')
def c10(ctx):
    ctx.model_check('SupercellMC')
    beh = ctx.behaviours('CellGen', 'CellGen4.cfg' if ctx.thorough else 'CellGen.cfg')
    cases(ctx, 'cell_driver.py', 'CellTrace', beh, {}, lambda o, t: {'crystals': o['crystals'], 'traces': t},
          label=lambda t: {k: t[k] for k in ('task', 'c', 'sc', 'frac', 'ch', 'new', 'mode', 'scale', 'fmt') if k in t})
    cases(ctx, 'el_driver.py', 'ElementsTrace', ctx.behaviours('Elements'), {}, lambda o, t: {'traces': t}, label=lambda t: t['v'], parts=2)


@check('C15')
def c15(ctx):
    ctx.model_check('InputFile')
    beh = ctx.behaviours('InputGen', 'InputGen4.cfg' if ctx.thorough else 'InputGen.cfg')
    cases(ctx, 'in_driver.py', 'InputTrace', beh, {}, lambda o, t: {'given': o['given'], 'traces': t},
          label=lambda t: {k: t[k] for k in ('order', 'filler', 'variant', 'read')})


@check('C07')
def c07(ctx):
    ctx.model_check('OrderMC')
    beh = ctx.behaviours('OrderGen', 'OrderGen12.cfg' if ctx.thorough else 'OrderGen.cfg')
    if not ctx.thorough:
        beh = [b for k, b in enumerate(beh) if b['task'] == 'cell' or k % 2 == ctx.seed % 2]
    cases(ctx, 'ord_driver.py', 'OrderTrace', beh, {}, lambda o, t: {'crystals': o['crystals'], 'traces': t},
          label=lambda t: {k: t[k] for k in ('task', 'c', 'sc', 'fmt', 'perm', 'wrap', 'dev', 'big', 'template') if k in t})


# ------------------------------------------------------- C09: projection onto wave vectors
@check('C09')
def c09(ctx):
    ctx.model_check('ProjectionMC')
    beh = ctx.behaviours('ProjGen', 'ProjGen8.cfg' if ctx.thorough else 'ProjGen.cfg')
    crys = [b['crystals'] for b in beh if 'crystals' in b][0]
    beh = [b for b in beh if 'crystals' not in b]
    if not ctx.thorough:
        beh = [b for k, b in enumerate(beh) if b['task'] == 'points' or k % 2 == ctx.seed % 2]
    for k in range(0, len(beh), 8000):
        if cases(ctx, 'proj_driver.py', 'ProjTrace', beh[k:k + 8000], dict(crystals=crys), lambda o, t: {'traces': t},
                 label=lambda t: {a: t[a] for a in ('task', 'c', 'sc', 'q', 'only')}) is None:
            return


# ---------------------------------------------------------------- C11: spectra
@check('C11')
def c11(ctx):
    ctx.model_check('SpectraMC')
    beh = ctx.behaviours('SpectraGen', 'SpectraGen2.cfg' if ctx.thorough else 'SpectraGen.cfg')
    crys = [b['crystals'] for b in beh if 'crystals' in b][0]
    beh = [b for b in beh if 'crystals' not in b]
    cases(ctx, 'spec_driver.py', 'SpectraTrace', beh, dict(crystals=crys), lambda o, t: {'traces': t}, parts=8,
          label=lambda t: {a: t[a] for a in t if a not in ('vel', 'obs', 'ev', 'died')})
    if ctx.vague * 3 > ctx.traces:
        ctx.fail('driver: too many spectra that cannot be decided', why=ctx.vague)


# ---------------------------------------------------------------- C12: spectra of several channels
@check('C12')
def c12(ctx):
    ctx.model_check('Channels', 'ChannelsLoop.cfg')
    ctx.model_check('Channels', 'ChannelsOps.cfg')
    beh = ctx.behaviours('ChannelsGen', 'ChannelsGen2.cfg')
    walks = ctx.behaviours('ChannelsGen', 'ChannelsWalk.cfg', simulate=1500 if ctx.thorough else 60, depth=20)
    beh.append([dict(op='dust', c=1, v=0)])
    obs, err = ctx.drive('chan_driver.py', dict(behaviours=beh + walks, seed=ctx.seed, every=1 if ctx.thorough else 2), timeout=900)
    if err or obs['lost']:
        ctx.fail('driver: the code could not be used', why=err or obs['lost'][0])
        return
    if not obs['threads']:
        raise MachineryError('the number of threads cannot be set')
    tr = obs['traces']
    bad = ctx.verdict_split('ChannelsTrace', 'ChannelsTrace.cfg', tr, timeout=800, parts=8, wrap=lambda t: {'base': obs['base'], 'traces': t})
    ctx.traces += len(tr)
    for b in bad:
        t = tr[b['trace'] - 1]
        ctx.fail(b['clause'], alg=t['alg'], history=[(e['op'], e['c'], e['v']) for e in t['events'][:b['at']]], why=t['events'][b['at'] - 1].get('why', ''))
    ctx.sample({'history': beh[len(beh) // 2]})
    ctx.sample({'history': walks[0]})


# ---------------------------------------------------------------- C16: trajectories kept in HDF5 files
@check('C16')
def c16(ctx):
    ctx.model_check('Store', 'StoreMC6.cfg' if ctx.thorough else 'StoreMC.cfg', timeout=800)
    beh = ctx.behaviours('StoreGen', 'StoreWalk.cfg', simulate=4000 if ctx.thorough else 250, depth=11)
    obs, err = ctx.drive('store_driver.py', dict(behaviours=beh, seed=ctx.seed), timeout=850)
    if err or obs['lost']:
        ctx.fail('driver: the code could not be used', why=err or obs['lost'][0])
        return
    tr = obs['traces']
    bad = ctx.verdict_split('StoreTrace', 'StoreTrace.cfg', tr, timeout=800, parts=8,
                            wrap=lambda t: {'table': obs['table'], 'start': 200, 'step': 5, 'traces': t})
    ctx.traces += len(tr)
    for b in bad:
        ev = tr[b['trace'] - 1]['events'][:b['at']]
        ctx.fail(b['clause'], history=[{k: v for k, v in e.items() if k not in ('obs', 'why', 'kept', 'died') and v not in ('', 0, False)} for e in ev],
                 why=ev[-1].get('why', ''))
    ctx.sample({'history': beh[len(beh) // 2]})


def walks(ctx, driver, trace, beh, wrap=None, job=None, parts=8):
    """replay behaviours by a driver that answers traces and lost; verdict of each event"""
    obs, err = ctx.drive(driver, dict(job or {}, behaviours=beh, seed=ctx.seed), timeout=850)
    if err or obs['lost']:
        ctx.fail('driver: the code could not be used', why=err or obs['lost'][0])
        return None
    tr = obs['traces']
    bad = ctx.verdict_split(trace, trace + '.cfg', tr, timeout=800, parts=parts, wrap=(lambda t: dict(wrap(obs), traces=t)) if wrap else (lambda t: {'traces': t}))
    ctx.traces += len(tr)
    for b in bad:
        ev = tr[b['trace'] - 1]['events'][:b['at']]
        ctx.fail(b['clause'], history=[(e['op'], e['v']) for e in ev], why=ev[-1].get('why', ''))
    ctx.sample({'history': beh[len(beh) // 2]})
    return obs


# ---------------------------------------------------------------- C13: analysis of the peaks of the phonons
@check('C13')
def c13(ctx):
    ctx.model_check('Peaks', 'Peaks5.cfg' if ctx.thorough else 'Peaks.cfg', timeout=800)
    beh = ctx.behaviours('PeaksGen', 'PeaksTour.cfg') + ctx.behaviours('PeaksGen', 'PeaksWalk.cfg', simulate=20000 if ctx.thorough else 800, depth=17)
    walks(ctx, 'fit_driver.py', 'PeaksTrace', beh)


# ---------------------------------------------------------------- C18: thermal properties
@check('C18')
def c18(ctx):
    ctx.model_check('Thermo', 'Thermo5.cfg' if ctx.thorough else 'Thermo.cfg', timeout=800)
    beh = ctx.behaviours('ThermoGen', 'ThermoWalk.cfg', simulate=6000 if ctx.thorough else 400, depth=15)
    walks(ctx, 'thm_driver.py', 'ThermoTrace', beh)
    obs, err = ctx.drive('thmq_driver.py', dict(behaviours=ctx.behaviours('ThermoQ', 'ThermoQ.cfg')), timeout=600)
    if err or obs['lost']:
        ctx.fail('driver: the code could not be used', why=err or obs['lost'][0])
        return
    for b in ctx.verdict_split('ThermoQTrace', 'ThermoQTrace.cfg', obs['traces'], timeout=600, parts=8, wrap=lambda t: {'traces': t}):
        t = obs['traces'][b['trace'] - 1]
        ctx.fail('calculation:' + b['clause'], case=t['v'], why=t.get('why', ''))
    ctx.traces += len(obs['traces'])


# ---------------------------------------------------------------- C08: displacements in periodic cells, their distribution
@check('C08')
def c08(ctx):
    ctx.model_check('WrapMC', 'WrapMC5.cfg' if ctx.thorough else 'WrapMC.cfg', timeout=800)
    beh = ctx.behaviours('WrapGen', 'WrapWalk.cfg', simulate=30000 if ctx.thorough else 1500, depth=27)
    walks(ctx, 'wrap_driver.py', 'WrapTrace', beh)
    ctx.model_check('SpreadMC', timeout=600)
    beh = ctx.behaviours('SpreadGen', 'SpreadWalk.cfg', simulate=3000 if ctx.thorough else 240, depth=12)
    walks(ctx, 'spread_driver.py', 'SpreadTrace', beh, wrap=lambda o: {'crystals': o['crystals']})


# ---------------------------------------------------------------- C14: phonons of the commensurate wave vectors, renormalized force constants
@check('C14')
def c14(ctx):
    ctx.model_check('StarsMC', 'StarsMC6.cfg' if ctx.thorough else 'StarsMC.cfg', timeout=800)
    if ctx.thorough:
        ctx.model_check('StarsMC', 'StarsAny.cfg', timeout=800)
    cases(ctx, 'star_driver.py', 'StarsTrace', ctx.behaviours('StarsGen', 'StarsGenBig.cfg' if ctx.thorough else 'StarsGen.cfg'), {}, lambda o, t: {'traces': t},
          label=lambda t: t['v'], parts=8)


# ---------------------------------------------------------------- C19, C20: command lines and menus
def sessions(ctx, beh):
    beh.sort(key=lambda b: b['cli']['alg'] != 1)          # the direct method takes long
    obs, err = ctx.drive('ses_driver.py', dict(behaviours=beh), timeout=860)
    if err or obs['lost']:
        ctx.fail('driver: the code could not be used', why=err or obs['lost'][0])
        return
    tr = obs['traces']
    for b in ctx.verdict_split('SessionTrace', 'SessionTrace.cfg', tr, timeout=600, parts=4, wrap=lambda t: {'traces': t}):
        t = tr[b['trace'] - 1]
        e = t['events'][b['at'] - 1] if b['at'] else {}
        ctx.fail(b['clause'], line=t['argv'], source=t['base'], steps=[(x['what'], x['v']) for x in t['events'][:b['at'] or None]], what=e.get('what', ''), why=e.get('why', '') or t['why'])
    ctx.traces += len(tr)
    ctx.sample({'line': tr[0]['argv'], 'steps': [(x['what'], x['v']) for x in tr[0]['events']]})
    ctx.sample({'line': tr[-1]['argv'], 'steps': [(x['what'], x['v']) for x in tr[-1]['events']]})


@check('C19')
def c19(ctx):
    ctx.model_check('SessionMC', 'SessionMC2.cfg' if ctx.thorough else 'SessionMC.cfg', timeout=800)
    sessions(ctx, ctx.behaviours('SessionGen', 'SessionTour.cfg') + ctx.behaviours('SessionGen', 'SessionCli.cfg', simulate=400 if ctx.thorough else 48, depth=40))


@check('C20')
def c20(ctx):
    ctx.model_check('SessionMC', 'SessionMC5.cfg' if ctx.thorough else 'SessionMC.cfg', timeout=800)
    sessions(ctx, ctx.behaviours('SessionGen', 'SessionUi.cfg', simulate=400 if ctx.thorough else 64, depth=40))


# ---------------------------------------------------------------- C21: bands and mesh
@check('C21')
def c21(ctx):
    ctx.model_check('BandsMC', 'BandsMC3.cfg' if ctx.thorough else 'BandsMC.cfg', timeout=800)
    beh = ctx.behaviours('BandsGen', 'BandsGenBig.cfg' if ctx.thorough else 'BandsGen.cfg', simulate=800 if ctx.thorough else 120, depth=10)
    cases(ctx, 'bands_driver.py', 'BandsTrace', beh, {}, lambda o, t: {'traces': t}, label=lambda t: t['v'], parts=8)


# ---------------------------------------------------------------- C23: generated trajectories
@check('C23')
def c23(ctx):
    ctx.model_check('HarmMC', 'HarmMC.cfg')
    ctx.model_check('HarmMC', 'HarmMC8.cfg' if ctx.thorough else 'HarmMC2.cfg', timeout=400)
    beh = ctx.behaviours('HarmGen', 'HarmGenBig.cfg' if ctx.thorough else 'HarmGen.cfg', simulate=500 if ctx.thorough else 60, depth=6)
    cases(ctx, 'harm_driver.py', 'HarmTrace', beh, {}, lambda o, t: {'traces': t}, label=lambda t: t['v'], parts=6)


@check('C24')
def c24(ctx):
    ctx.model_check('ToolsMC', 'ToolsMC6.cfg' if ctx.thorough else 'ToolsMC.cfg', timeout=400)
    beh = ctx.behaviours('ToolsGen', 'ToolsGen.cfg', simulate=1200 if ctx.thorough else 260, depth=6)
    cases(ctx, 'tools_driver.py', 'ToolsTrace', beh, {}, lambda o, t: {'traces': t}, label=lambda t: t['v'], parts=6)
