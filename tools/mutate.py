"""Try checks on a changed copy: python3 mutate.py 'C01,C02' file 'old' 'new' [file old new ...]
   or: python3 mutate.py C01 --patch x.diff"""
import os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = tempfile.mkdtemp(prefix='mut_', dir='/tmp')
try:
    for n in ('dynaphopy', 'c', 'scripts', 'setup.py', 'README.md', 'unittest'):
        s = os.path.join('/repo', n)
        (shutil.copytree if os.path.isdir(s) else shutil.copy)(s, os.path.join(d, n))
    a = sys.argv[2:]
    if a[0] == '--patch':
        subprocess.check_call(['git', 'apply', '--unsafe-paths', '--directory=' + d, os.path.abspath(a[1])], cwd='/')
    else:
        for f, old, new in zip(a[::3], a[1::3], a[2::3]):
            p = os.path.join(d, f)
            t = open(p).read()
            assert old in t, (f, old)
            open(p, 'w').write(t.replace(old, new, 1))
    for c in sys.argv[1].split(','):
        e = dict(os.environ, VERIF_REPO=d)
        r = subprocess.run(['python3', V + '/run.py', c], env=e, stdout=subprocess.PIPE, text=True)
        print(c, 'rc', r.returncode, '|', '\n'.join(x[:400] for x in r.stdout.splitlines()[:4]))
finally:
    shutil.rmtree(d)
