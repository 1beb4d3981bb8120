#!/usr/bin/env python3
"""Makes a copy of /repo whose python code does the same but is written otherwise (locals renamed,
conditions turned round, results and iterables named, bodies moved to helpers, comments dropped).
Usage: tools/refactor.py DEST [seed];  then VERIF_REPO=DEST python3 run.py Cxx must hold."""
import ast, os, random, shutil, subprocess, sys


class Locals(ast.NodeVisitor):
    """names bound in a function and nowhere declared global/nonlocal, parameters excluded"""
    def __init__(self):
        self.bound, self.not_mine, self.params = set(), set(), set()

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.bound.add(n.id)

    def visit_Global(self, n):
        self.not_mine.update(n.names)
    visit_Nonlocal = visit_Global

    def visit_arg(self, n):
        self.params.add(n.arg)

    def visit_FunctionDef(self, n):
        self.not_mine.add(n.name)
        self.generic_visit(n)

    def visit_Import(self, n):
        self.not_mine.update((a.asname or a.name).split('.')[0] for a in n.names)
    visit_ImportFrom = visit_Import

    def visit_ExceptHandler(self, n):
        if n.name:
            self.not_mine.add(n.name)
        self.generic_visit(n)


class Rename(ast.NodeTransformer):
    def __init__(self, names):
        self.names = names

    def visit_Name(self, n):
        if n.id in self.names:
            n.id = n.id + '_v'
        return n


class Rewrite(ast.NodeTransformer):
    def __init__(self, rnd):
        self.rnd, self.k, self.inside = rnd, 0, 0

    def name(self):
        self.k += 1
        return '_t%d' % self.k

    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and self.rnd.random() < .7:
            return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        return ast.IfExp(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)

    def visit_Return(self, n):
        self.generic_visit(n)
        if n.value is None:
            return n
        t = self.name()
        return [ast.Assign([ast.Name(t, ast.Store())], n.value), ast.Return(ast.Name(t, ast.Load()))]

    def visit_For(self, n):
        self.generic_visit(n)
        t = self.name()
        first = ast.Assign([ast.Name(t, ast.Store())], n.iter)
        n.iter = ast.Name(t, ast.Load())
        return [first, n]

    def visit_Assign(self, n):
        self.generic_visit(n)
        if len(n.targets) == 1 and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)) and self.rnd.random() < .5:
            t = self.name()
            return [ast.Assign([ast.Name(t, ast.Store())], n.value), ast.Assign(n.targets, ast.Name(t, ast.Load()))]
        return n

    def split(self, n, method):
        """def f(a, b=1): body  ->  def _do_f(a, b): body;  def f(a, b=1): return _do_f(a, b)"""
        a = n.args
        if n.decorator_list or n.name.startswith('__') or a.posonlyargs or a.kwonlyargs or any(isinstance(x, (ast.Global, ast.Nonlocal)) for x in ast.walk(n)):
            return n
        if any(isinstance(x, ast.Name) and x.id in ('locals', 'super') for x in ast.walk(n)):
            return n
        inner = ast.FunctionDef('_do_' + n.name, ast.arguments([], [ast.arg(x.arg) for x in a.args], a.vararg and ast.arg(a.vararg.arg), [], [], a.kwarg and ast.arg(a.kwarg.arg), []), n.body, [], None)
        args = [ast.Name(x.arg, ast.Load()) for x in a.args]
        if method:
            if not a.args or a.args[0].arg != 'self':
                return n
            f, args = ast.Attribute(args[0], inner.name, ast.Load()), args[1:]
        else:
            f = ast.Name(inner.name, ast.Load())
        if a.vararg:
            args.append(ast.Starred(ast.Name(a.vararg.arg, ast.Load()), ast.Load()))
        call = ast.Call(f, args, [ast.keyword(None, ast.Name(a.kwarg.arg, ast.Load()))] if a.kwarg else [])
        n.body = [ast.Return(call)]
        return [inner, n]


def rewrite(src, rnd):
    tree = ast.parse(src)
    w = Rewrite(rnd)
    for f in [x for x in ast.walk(tree) if isinstance(x, ast.FunctionDef)]:
        f._top = False
    tops = [(f, False) for f in tree.body if isinstance(f, ast.FunctionDef)] + \
           [(f, True) for c in tree.body if isinstance(c, ast.ClassDef) for f in c.body if isinstance(f, ast.FunctionDef)]
    for f, _ in tops:
        v = Locals()
        for b in f.body:
            v.visit(b)
        names = v.bound - v.not_mine - v.params - {x.arg for x in ast.walk(f.args) if isinstance(x, ast.arg)}
        if not any(isinstance(x, ast.Name) and x.id in ('locals', 'exec', 'eval') for x in ast.walk(f)):
            for b in f.body:
                Rename(names).visit(b)
        new = []
        for b in f.body:
            r = w.visit(b)
            new += r if isinstance(r, list) else [r]
        f.body = new

    def spread(body, method):
        out = []
        for f in body:
            r = w.split(f, method) if isinstance(f, ast.FunctionDef) and rnd.random() < .6 else f
            out += r if isinstance(r, list) else [r]
        return out
    for c in tree.body:
        if isinstance(c, ast.ClassDef):
            c.body = spread(c.body, True)
    tree.body = spread(tree.body, False)
    if '__main__' in src or True:
        new = []
        for b in tree.body:                               # top of scripts
            if isinstance(b, (ast.If, ast.For, ast.While, ast.With, ast.Try, ast.Assign)):
                r = w.visit(b)
                new += r if isinstance(r, list) else [r]
            else:
                new.append(b)
        tree.body = new
    out = ast.unparse(ast.fix_missing_locations(tree)) + '\n'
    first = src.split('\n', 1)[0]
    return (first + '\n' if first.startswith('#!') else '') + out


def main():
    dest, seed = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 1
    subprocess.check_call(['cp', '-a', '/repo', dest])
    n = 0
    for base in ('dynaphopy', 'scripts'):
        for d, _, files in os.walk(os.path.join(dest, base)):
            for f in files:
                p = os.path.join(d, f)
                try:
                    src = open(p).read()
                except UnicodeDecodeError:
                    continue
                if f.endswith('.py') or src.startswith('#!') and 'python' in src.split('\n', 1)[0]:
                    new = rewrite(src, random.Random(seed * 1000 + n))
                    compile(new, p, 'exec')
                    open(p, 'w').write(new)
                    n += 1
    print(n, 'files rewritten')


if __name__ == '__main__':
    main()
