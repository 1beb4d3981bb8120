"""Make and try planted bugs.  python3 tools/seed.py [ids...] : (re)writes /verif/seeded/<id> from
tools/seeds/*.py and, in a scratch copy of /repo, runs the demo without and with the patch and the
check of the property with it (VERIF_REPO).   -n: do not run the check."""
import glob, json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS, TOY = {}, ''
for f in sorted(glob.glob(V + '/tools/seeds/*.py')):
    ns = {'TOY': TOY}
    exec(open(f).read(), ns)
    SEEDS.update(ns['SEEDS'])
    TOY = ns['TOY']

args = sys.argv[1:]
nocheck, stable = '-n' in args, '-t' in args
args = [a for a in args if a not in ('-n', '-t')]


def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


for sid in args or sorted(SEEDS):
    s = SEEDS[sid]
    d = os.path.join(V, 'seeded', sid)
    t = tempfile.mkdtemp(prefix='seed_', dir='/tmp')
    try:
        r = os.path.join(t, 'repo')
        subprocess.check_call(['cp', '-a', '/repo', r])
        run(['git', 'checkout', '-q', '--', '.'], r)
        os.makedirs(d, exist_ok=True)
        open(d + '/demo.py', 'w').write(s['demo'])
        open(d + '/demo.sh', 'w').write('#!/bin/bash\n# exits 0 when the property holds\nexport MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=2\n'
                                        'export PYTHONPATH="$PWD"\nD=$(cd "$(dirname "$0")" && pwd)\nW=$(mktemp -d)\ntrap \'rm -rf "$W"\' EXIT\n'
                                        'export REPO="$PWD"\ncd "$W"\n/opt/venv/bin/python "$D/demo.py" > "$W/log" 2>&1\nrc=$?\ntail -5 "$W/log"\nexit $rc\n')
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['what']}, open(d + '/meta.json', 'w'), indent=1)
        a = run(['bash', d + '/demo.sh'], r)
        rebuild = False
        for f, old, new in s['edits']:
            p = os.path.join(r, f)
            x = open(p).read()
            assert x.count(old) >= 1, (sid, f, old)
            if x.count(old) > 1:
                print('  note: %d places match, first one changed' % x.count(old))
            open(p, 'w').write(x.replace(old, new, 1))
            rebuild |= f.endswith('.c') or f.endswith('.h')
        open(d + '/patch.diff', 'w').write(run(['git', 'diff'], r).stdout)
        if rebuild:
            b = run(['/opt/venv/bin/python', 'setup.py', 'build_ext', '--inplace', '--force'], r)
            assert b.returncode == 0, b.stdout[-1000:]
        # lines of the original repository only
        for f in sorted({e[0] for e in s['edits']}):
            hunks = re.findall(r'^@@ -(\d+)(?:,(\d+))?', run(['git', 'diff', '-U0', f], r).stdout, re.M)
            for l, n in hunks:
                if n == '0':
                    print('  note: only adds lines at %s:%s' % (f, l))
                    continue
                w = run(['git', 'blame', '-s', '-L', '%s,+%s' % (l, n or 1), 'HEAD', '--', f], r).stdout.splitlines()
                if any('44c2eae' not in x.split()[0] for x in w):
                    print('  <<<<<< NOT ORIGINAL: ' + ' | '.join(w))
        if stable:
            g = run(['bash', V + '/tools/stable.sh', r], '/')
            print('  stable tests: ' + (g.stdout.splitlines() or ['?'])[-1])
        b = run(['bash', d + '/demo.sh'], r)
        print('%s demo clean %d, patched %d %s' % (sid, a.returncode, b.returncode, '' if a.returncode == 0 and b.returncode != 0 else '<<<<<< NO GOOD\n' + a.stdout[-600:] + '\n--\n' + b.stdout[-600:]))
        if not nocheck:
            e = dict(os.environ, VERIF_REPO=r)
            c = run(['python3', V + '/run.py', s['property']], '/', env=e)
            caught = c.returncode == 1 and 'VIOLATION property=%s ' % s['property'] in c.stdout
            print('   %s rc %d %s | %s' % (s['property'], c.returncode, 'CAUGHT' if caught else '<<<<<< MISSED', c.stdout.splitlines()[0][:200] if c.stdout else ''))
    finally:
        shutil.rmtree(t)
