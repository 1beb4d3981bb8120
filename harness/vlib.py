"""Common machinery of the checks: scratch build of /repo, TLC, verdicts, evidence.

A check is a class with run(ctx); ctx collects what was explored and the clauses
that failed.  Only ctx.finish() prints the outcome, so that every check ends with
exit 0, or exit 1 and a VIOLATION line (exit 2: the machinery itself failed).
"""
import glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
VENV_PY = '/opt/venv/bin/python'
SPECS = os.path.join(VERIF, 'specs')
DRIVERS = os.path.join(VERIF, 'harness')
TLA_CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class MachineryError(Exception):
    pass


class Ctx:
    def __init__(self, pid, level='model_checking'):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        try:
            self.seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix='vcheck_%s_' % pid)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.extra = {}
        self.failures = []          # list of dicts {clause, case, ...}
        self.assumptions = []
        self._pkg = None

    @property
    def thorough(self):
        return self.tier == 'thorough'

    # ------------------------------------------------------------------ build
    def package(self):
        """Copy the tree of /repo and build its C extensions in scratch."""
        if self._pkg is not None:
            return self._pkg
        dst = os.path.join(self.scratch, 'pkg')
        os.makedirs(dst)
        for name in ('dynaphopy', 'c', 'scripts'):
            shutil.copytree(os.path.join(REPO, name), os.path.join(dst, name),
                            ignore=shutil.ignore_patterns('*.so', '__pycache__', '*.pyc', 'build'))
        for name in ('setup.py', 'pyproject.toml', 'README.md', 'LICENSE'):
            p = os.path.join(REPO, name)
            if os.path.exists(p):
                shutil.copy(p, dst)
        env = dict(os.environ)
        env['PYTHONDONTWRITEBYTECODE'] = '1'
        log = os.path.join(self.scratch, 'build.log')
        with open(log, 'w') as f:
            rc = subprocess.call([VENV_PY, 'setup.py', 'build_ext', '--inplace'], cwd=dst, env=env,
                                 stdout=f, stderr=subprocess.STDOUT)
        if rc != 0 or len(glob.glob(dst + '/dynaphopy/**/*.so', recursive=True)) < 3:
            raise MachineryError('build of the tree failed:\n' + open(log).read()[-3000:])
        shutil.rmtree(os.path.join(dst, 'build'), ignore_errors=True)
        self._pkg = dst
        return dst

    def driver_env(self, **kw):
        env = dict(os.environ)
        for k in ('PYTHONPATH', 'DYNAPHOPY_TEMPDIR'):
            env.pop(k, None)
        tmp = os.path.join(self.scratch, 'tmp')
        os.makedirs(tmp, exist_ok=True)
        env.update({'PYTHONPATH': self.package() + os.pathsep + DRIVERS,
                    'PYTHONDONTWRITEBYTECODE': '1',
                    'MPLBACKEND': 'Agg', 'MPLCONFIGDIR': os.path.join(self.scratch, 'mpl'),
                    'TMPDIR': tmp, 'PYTHONHASHSEED': '0',
                    'OMP_NUM_THREADS': '2', 'OPENBLAS_NUM_THREADS': '1', 'PYTHONWARNINGS': 'ignore',
                    'VERIF_SCRATCH': self.scratch, 'VERIF_PKG': self.package(),
                    'VERIF_REPO': REPO, 'VERIF_SEED': str(self.seed), 'VERIF_TIER': self.tier})
        os.makedirs(env['MPLCONFIGDIR'], exist_ok=True)
        env.update({k: str(v) for k, v in kw.items()})
        return env

    def drive(self, script, job, timeout=600, env=None, name=None):
        """Run a driver: job (json) in, observations (json) out.

        Returns (obs, error).  error is a text when the driver process died (signal,
        time-out, uncaught exception): drivers guard every call into the code, so that
        a death means that the code under test took the whole process down, or that
        something the driver relies on (an import, a public name) is gone.
        """
        name = name or os.path.basename(script).replace('.py', '')
        jf = os.path.join(self.scratch, name + '.job.json')
        of = os.path.join(self.scratch, name + '.obs.json')
        wd = os.path.join(self.scratch, name + '.wd')
        os.makedirs(wd, exist_ok=True)
        json.dump(job, open(jf, 'w'))
        if os.path.exists(of):
            os.remove(of)
        log = os.path.join(self.scratch, name + '.log')
        with open(log, 'w') as f:
            try:
                rc = subprocess.call([VENV_PY, os.path.join(DRIVERS, script), jf, of], cwd=wd,
                                     env=env or self.driver_env(), stdout=f, stderr=subprocess.STDOUT,
                                     stdin=subprocess.DEVNULL, timeout=timeout)
            except subprocess.TimeoutExpired:
                return None, 'driver timed out after %ss' % timeout
        if rc != 0 or not os.path.exists(of):
            tail = open(log, errors='replace').read()[-1500:]
            return None, 'driver ended with status %s: %s' % (rc, tail)
        self.mark('driver ' + name)
        return json.load(open(of)), None

    # -------------------------------------------------------------------- TLC
    def tlc(self, module, cfg, files=None, workers=1, simulate=None, depth=None, timeout=600, env=None,
            deadlock=False, expect_ok=True, count=True, heap='3g', coverage=False, seed=None):
        """Run TLC on specs/<module>.tla in a scratch copy. Returns a dict."""
        wd = tempfile.mkdtemp(prefix='tlc_', dir=self.scratch)
        for f in glob.glob(SPECS + '/*.tla') + glob.glob(SPECS + '/*.cfg'):
            shutil.copy(f, wd)
        for name, data in (files or {}).items():
            with open(os.path.join(wd, name), 'w') as f:
                f.write(data if isinstance(data, str) else json.dumps(data))
        cmd = ['java', '-Xmx' + heap, '-Xss16m', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=4', '-cp', TLA_CP, 'tlc2.TLC',
               '-workers', str(workers), '-metadir', os.path.join(wd, 'meta'), '-noGenerateSpecTE',
               '-config', cfg]
        if not deadlock:
            cmd.append('-deadlock')
        if coverage:
            cmd += ['-coverage', '1']
        if simulate:
            cmd += ['-simulate', 'num=%d' % simulate, '-depth', str(depth or 50),
                    '-seed', str(self.seed if seed is None else seed)]
        cmd.append(module + '.tla')
        e = dict(os.environ)
        e.pop('JAVA_TOOL_OPTIONS', None)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, cwd=wd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout, text=True, errors='replace')
        except subprocess.TimeoutExpired:
            raise MachineryError('TLC timed out on %s/%s' % (module, cfg))
        self.mark('TLC %s %s' % (module, cfg))
        out = p.stdout
        res = {'rc': p.returncode, 'out': out, 'wd': wd, 'states': 0, 'distinct': 0}
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
        if m:
            res['states'], res['distinct'] = int(m[-1][0]), int(m[-1][1])
        else:
            m = re.findall(r'The number of states generated: (\d+)', out)
            if m:
                res['states'] = res['distinct'] = int(m[-1])
        if count:
            self.states += res['distinct']
            self.transitions += res['states']
        if expect_ok and p.returncode != 0:
            raise MachineryError('TLC failed (%s) on %s/%s:\n%s' % (p.returncode, module, cfg, out[-4000:]))
        return res

    def model_check(self, module, cfg=None, **kw):
        """Exhaustive check of a design spec; a violated invariant here is a defect of
        the specification (it does not look at /repo), hence a machinery error."""
        r = self.tlc(module, cfg or module + '.cfg', workers=kw.pop('workers', 4), **kw)
        self.extra.setdefault('design_models', []).append(
            {'module': module, 'cfg': cfg or module + '.cfg', 'distinct_states': r['distinct'],
             'states_generated': r['states']})
        return r

    def behaviours(self, module, cfg=None, marker='BEH', **kw):
        """Behaviours (or cases) that TLC prints as  <marker> <json>."""
        r = self.tlc(module, cfg or module + '.cfg', **kw)
        res = []
        for line in r['out'].splitlines():
            m = re.match(r'^"?%s (.*?)"?$' % marker, line)
            if m:
                res.append(json.loads(m.group(1).replace('\\"', '"').replace('\\\\', '\\')))
        if not res:
            raise MachineryError('no behaviours out of %s: %s' % (module, r['out'][-2000:]))
        return res

    def verdict(self, module, cfg, traces, key='trace', **kw):
        """Feed observations to a verdict/trace spec. The spec reads traces.json and
        writes verdict.json: a sequence of records {id, ok, clause, at, info}."""
        r = self.tlc(module, cfg, files={'traces.json': traces}, expect_ok=False, **kw)
        if r['rc'] != 0:
            # numbers or shapes that no step of the specification can have (on the values of the unchanged code TLC evaluates all of it)
            m = re.search(r'(Overflow when computing[^\n]*|Attempted to [^\n]*|The error occurred when TLC was evaluating)', r['out'])
            if m is None or 'StackOverflow' in r['out'] or 'OutOfMemory' in r['out']:
                raise MachineryError('TLC failed (%s) on %s/%s:\n%s' % (r['rc'], module, cfg, r['out'][-4000:]))
            n = len(traces['traces'] if isinstance(traces, dict) and 'traces' in traces else traces)
            return {'bad': [dict(trace=1, at=1, clause='out of any range: ' + m.group(1)[:120])], 'traces': n}
        vf = os.path.join(r['wd'], 'verdict.json')
        if not os.path.exists(vf):
            raise MachineryError('verdict spec %s wrote no verdict:\n%s' % (module, r['out'][-3000:]))
        v = json.load(open(vf))
        return v

    def verdict_split(self, module, cfg, traces, wrap=lambda t: t, parts=6, **kw):
        """The verdict on parts of the traces, by several TLC processes side by side.
        Returns (list of bad records with trace numbers of the whole, number of traces seen)."""
        n = len(traces)
        step = max(1, (n + parts - 1) // parts)
        from concurrent.futures import ThreadPoolExecutor
        jobs = [(k, traces[k:k + step]) for k in range(0, n, step)]
        bad, seen = [], 0
        with ThreadPoolExecutor(parts) as ex:
            for (k, _), v in zip(jobs, ex.map(lambda j: self.verdict(module, cfg, wrap(j[1]), **kw), jobs)):
                seen += v['traces']
                self.vague = getattr(self, 'vague', 0) + v.get('vague', 0)
                for b in v['bad']:
                    b['trace'] += k
                    bad.append(b)
        if seen != n:
            raise MachineryError('verdict covers %s of %s traces' % (seen, n))
        return bad

    def mark(self, what):
        if os.environ.get('VERIF_TIMING'):
            print('[%6.1f] %s' % (time.time() - self.t0, what), flush=True)

    def fail(self, clause, **info):
        self.failures.append(dict(clause=clause, **info))

    def sample(self, obj, limit=6):
        if len(self.samples) < limit:
            self.samples.append(obj)

    # ---------------------------------------------------------------- results
    def known(self):
        p = os.path.join(VERIF, 'known_findings.jsonl')
        res = []
        if os.path.exists(p):
            for line in open(p):
                line = line.strip()
                if line and line.startswith('{'):
                    d = json.loads(line)
                    if d.get('property') == self.pid and d.get('status') == 'known':
                        res.append(d)
        return res

    def finish(self):
        new, seen = [], {}
        known = self.known()
        for f in self.failures:
            k = None
            for d in known:
                if all(f.get(a) == b for a, b in d['match'].items()):
                    k = d
                    break
            if k is None:
                new.append(f)
            else:
                seen.setdefault(k['id'], (k, []))[1].append(f)
        for d in known:
            # a listed finding is always reported, whether or not this run reached it
            print('KNOWN-FINDING: property=%s %s' % (self.pid, d['what']))
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.traces, 'samples': self.samples or ['none']}
        cov.update(self.extra)
        if known:
            cov['known_findings_seen'] = {i: len(v[1]) for i, v in seen.items()}
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': self.level,
              'coverage': cov, 'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2),
              'violations': len(new)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w'), indent=1, default=str)
        rc = 0
        if new:
            d = os.path.join(VERIF, 'evidence', 'replay')
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, '%s-%s.json' % (self.pid, self.seed))
            json.dump(new[:50], open(path, 'w'), indent=1, default=str)
            clauses = sorted(set(str(f['clause']) for f in new))
            print('%d failing observations; clauses: %s' % (len(new), ', '.join(clauses)))
            for f in new[:5]:
                print('  ' + json.dumps(f, default=str)[:600])
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
            rc = 1
        else:
            print('%s: held (%d states, %d transitions, %d implementation traces, %.1fs)' %
                  (self.pid, self.states, self.transitions, self.traces, time.time() - self.t0))
        return rc

    def cleanup(self):
        if os.environ.get('VERIF_KEEP'):
            print('scratch kept: ' + self.scratch)
            return
        shutil.rmtree(self.scratch, ignore_errors=True)


def main(argv, registry):
    pid = argv[1]
    if len(argv) > 2:
        os.environ['VERIF_TIER'] = argv[2]
    if pid not in registry:
        print('unknown property ' + pid)
        return 2
    ctx = Ctx(pid)
    try:
        registry[pid](ctx)
        rc = ctx.finish()
    except MachineryError as e:
        print('MACHINERY ERROR: ' + str(e))
        rc = 2
    finally:
        ctx.cleanup()
    return rc
