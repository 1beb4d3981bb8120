#!/usr/bin/env python3
"""Random one-place changes of the python code, each tried on the checks of its file until one reports it.
Usage: tools/mutants.py SEED COUNT [file substring];  survivors are printed with their line."""
import warnings; warnings.simplefilter("ignore")
import ast, os, random, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {'dynaphopy/__init__.py': 'C02 C01 C14 C21 C19 C20 C18 C08 C17', 'dynaphopy/dynamics.py': 'C03 C04 C08 C17 C09 C07', 'dynaphopy/atoms.py': 'C22 C17 C09 C10 C14 C15',
          'dynaphopy/parameters.py': 'C15 C02 C01 C19', 'dynaphopy/interface/iofile/__init__.py': 'C15 C10 C05 C07 C23 C16 C21 C19 C13', 'dynaphopy/interface/iofile/trajectory_parsers.py': 'C05 C06 C07 C04',
          'dynaphopy/interface/phonopy_link.py': 'C14 C22 C21 C24 C18 C09 C01', 'dynaphopy/power_spectrum/__init__.py': 'C11 C12 C01', 'dynaphopy/projection.py': 'C09 C11', 'dynaphopy/analysis/energy.py': 'C08 C13 C18 C19 C20',
          'dynaphopy/analysis/thermal_properties.py': 'C18', 'dynaphopy/analysis/peaksearch.py': 'C13', 'dynaphopy/analysis/coordinates.py': 'C08 C17', 'dynaphopy/analysis/fitting/': 'C13 C24 C14',
          'dynaphopy/generate_cell.py': 'C10', 'dynaphopy/interface/interactive_ui.py': 'C20', 'scripts/dynaphopy': 'C19 C16 C10 C23', 'scripts/rfc_calc': 'C24', 'scripts/fitdata': 'C24', 'scripts/qha_extract': 'C24', 'scripts/concath5': 'C16',
          'dynaphopy/analysis/modes.py': 'C19 C20'}
SWAP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.And: 'or', ast.Or: 'and', ast.FloorDiv: '/', ast.Mod: '//', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in'}


def places(src):
    tree = ast.parse(src)
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Call):
            name = ast.unparse(n.func)
            if name.split('.')[-1] in ('print', 'add_argument', 'addstr', 'warn', 'xlabel', 'ylabel', 'suptitle', 'title', 'legend', 'figure', 'exit', 'show', 'Exception', 'rc', 'write', 'flush', '_progress_bar', 'ArgumentParser', 'axvline'):
                skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, (ast.Raise, ast.Import, ast.ImportFrom)):
            skip.update(id(x) for x in ast.walk(n))
    off = [0]
    for l in src.splitlines(True):
        off.append(off[-1] + len(l.encode()))
    b = src.encode()
    at = lambda l, c: off[l - 1] + c
    span = lambda n: (at(n.lineno, n.col_offset), at(n.end_lineno, n.end_col_offset))
    out = []
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, (ast.BinOp, ast.Compare)):
            l, r = (n.left, n.right) if isinstance(n, ast.BinOp) else (n.left, n.comparators[0])
            op = n.op if isinstance(n, ast.BinOp) else n.ops[0]
            if type(op) in SWAP and not isinstance(l, ast.Constant | ast.JoinedStr):
                out.append((span(l)[1], span(r)[0], lambda t, op=op: None, op))
        elif isinstance(n, ast.BoolOp):
            out.append((span(n.values[0])[1], span(n.values[1])[0], None, n.op))
        elif isinstance(n, ast.Constant) and isinstance(n.value, (bool, int)):
            out.append((*span(n), str(not n.value) if isinstance(n.value, bool) else str(n.value + 1), None))
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)) or isinstance(n, (ast.Expr, ast.AugAssign)) and not isinstance(getattr(n, 'value', None), ast.Constant):
            out.append((*span(n), 'pass', None))
        elif isinstance(n, ast.If) and not isinstance(n.test, ast.Compare):
            a, z = span(n.test)
            out.append((a, z, 'not (' + b[a:z].decode() + ')', None))
        elif isinstance(n, ast.keyword) and n.arg and n.arg not in ('color', 'label', 'silent', 'figsize'):
            a, z = span(n)
            z2 = z
            while b[z2:z2 + 1].isspace():
                z2 += 1
            if b[z2:z2 + 1] == b',':
                out.append((a, z2 + 1, '', None))
    res = []
    for a, z, new, op in out:
        if op is not None:
            old = b[a:z].decode()
            sym = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!=', ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.And: 'and', ast.Or: 'or', ast.FloorDiv: '//', ast.Mod: '%', ast.Is: 'is', ast.IsNot: 'is not', ast.In: 'in'}[type(op)]
            new = old.replace(sym, SWAP[type(op)], 1)
        t = (b[:a] + new.encode() + b[z:]).decode()
        try:
            compile(t, 'x', 'exec')
        except SyntaxError:
            continue
        res.append((b[:a].count(b'\n') + 1, t))
    return res


def main():
    rnd = random.Random(int(sys.argv[1]))
    pool = []
    for k in CHECKS:
        p = os.path.join('/repo', k)
        for f in ([k] if os.path.isfile(p) else [k + x for x in sorted(os.listdir(p)) if x.endswith('.py')]):
            if len(sys.argv) < 4 or sys.argv[3] in f:
                pool += [(f, CHECKS[k], l, t) for l, t in places(open(os.path.join('/repo', f)).read())]
    print(len(pool), 'places', flush=True)
    for f, checks, line, text in rnd.sample(pool, min(len(pool), int(sys.argv[2]))):
        old = open(os.path.join('/repo', f)).read().split('\n')
        new = text.split('\n')
        diff = [(a, c) for a, c in zip(old, new) if a != c][:1]
        d = tempfile.mkdtemp(prefix='mut_', dir='/tmp')
        try:
            for n in ('dynaphopy', 'c', 'scripts', 'setup.py', 'README.md', 'unittest'):
                s = os.path.join('/repo', n)
                (shutil.copytree if os.path.isdir(s) else shutil.copy)(s, os.path.join(d, n))
            open(os.path.join(d, f), 'w').write(text)
            for c in checks.split():
                r = subprocess.run(['python3', V + '/run.py', c], env=dict(os.environ, VERIF_REPO=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if r.returncode:
                    print('caught %s rc %d %s:%d' % (c, r.returncode, f, line), flush=True)
                    break
            else:
                print('SURVIVED %s:%d\n   - %s\n   + %s' % (f, line, diff[0][0].strip(), diff[0][1].strip()), flush=True)
        finally:
            shutil.rmtree(d)


if __name__ == "__main__":
    main()
