"""Development helper: rewrites a copy of the package without changing what it does, to see whether checks stay quiet.

  refactor.py DIR MODE [seed]     MODE: extract | invert | rename | hoist | loops | all  (in place in DIR/coniii)
Nothing here is used by a check."""
import ast, copy, glob, os, random, sys


def jitted(f):
    return any('jit' in ast.unparse(d) for d in f.decorator_list)


class Parents(ast.NodeVisitor):
    pass


def has(node, *types, skip_nested=True):
    for n in ast.iter_child_nodes(node):
        if isinstance(n, types):
            return True
        if skip_nested and isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        if has(n, *types):
            return True
    return False


def docless(body):
    if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
        return body[:1], body[1:]
    return [], body


class Extract(ast.NodeTransformer):
    """Moves the body of every method to a private one."""
    def visit_ClassDef(self, c):
        out = []
        for f in c.body:
            if isinstance(f, ast.FunctionDef) and not f.decorator_list and not has(f, ast.Yield, ast.YieldFrom) \
                    and f.args.args and f.args.args[0].arg == 'self' and 'super()' not in ast.unparse(f) and not f.name.startswith('__'):
                g = copy.deepcopy(f)
                g.name = '_do_' + f.name
                doc, body = docless(f.body)
                a = f.args
                call = ast.Call(ast.Attribute(ast.Name('self', ast.Load()), g.name, ast.Load()),
                                [ast.Name(x.arg, ast.Load()) for x in a.args[1:]] + ([ast.Starred(ast.Name(a.vararg.arg, ast.Load()), ast.Load())] if a.vararg else []),
                                [ast.keyword(x.arg, ast.Name(x.arg, ast.Load())) for x in a.kwonlyargs] + ([ast.keyword(None, ast.Name(a.kwarg.arg, ast.Load()))] if a.kwarg else []))
                f.body = doc + [ast.Return(call)]
                g.args.defaults = []
                out += [f, g]
            else:
                out.append(f)
        c.body = out
        return c


class Invert(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)) and not isinstance(n.test, ast.NamedExpr):
            n.test, n.body, n.orelse = ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body
        return n


class Hoist(ast.NodeTransformer):
    def visit_Return(self, n):
        if n.value is None or isinstance(n.value, ast.Name):
            return n
        return [ast.Assign([ast.Name('result_', ast.Store())], n.value), ast.Return(ast.Name('result_', ast.Load()))]

    def visit_Lambda(self, n):
        return n

    def visit_FunctionDef(self, f):
        # several returns of different types would not compile
        if jitted(f) and sum(isinstance(x, ast.Return) for x in ast.walk(f)) > 1:
            return f
        return self.generic_visit(f)


class Loops(ast.NodeTransformer):
    k = 0

    def visit_For(self, n):
        self.generic_visit(n)
        if (isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == 'range' and len(n.iter.args) in (1, 2)
                and isinstance(n.target, ast.Name) and not n.orelse and not has(n, ast.Continue)):
            Loops.k += 1
            v, e = 'it_%d' % Loops.k, 'end_%d' % Loops.k
            lo = n.iter.args[0] if len(n.iter.args) == 2 else ast.Constant(0)
            hi = n.iter.args[-1]
            return [ast.Assign([ast.Name(v, ast.Store())], lo), ast.Assign([ast.Name(e, ast.Store())], hi),
                    ast.While(ast.Compare(ast.Name(v, ast.Load()), [ast.Lt()], [ast.Name(e, ast.Load())]),
                              [ast.Assign([n.target], ast.Name(v, ast.Load()))] + n.body + [ast.AugAssign(ast.Name(v, ast.Store()), ast.Add(), ast.Constant(1))], [])]
        return n


class Rename(ast.NodeTransformer):
    """New names for the local variables of functions without nested ones."""
    def visit_FunctionDef(self, f):
        if has(f, ast.FunctionDef, ast.Lambda, ast.Global, ast.Nonlocal, ast.ClassDef, ast.Import, ast.ImportFrom) or 'locals()' in ast.unparse(f):
            return self.generic_visit(f)
        params = {a.arg for a in f.args.args + f.args.kwonlyargs} | {a.arg for a in (f.args.vararg, f.args.kwarg) if a}
        names = {n.id for n in ast.walk(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} - params
        for n in ast.walk(f):
            if isinstance(n, ast.Name) and n.id in names:
                n.id = n.id + '_r'
        return f


MODES = {'extract': [Extract], 'invert': [Invert], 'rename': [Rename], 'hoist': [Hoist], 'loops': [Loops],
         'all': [Rename, Invert, Hoist, Loops, Extract]}
if __name__ == '__main__':
    d, mode = sys.argv[1:3]
    for p in sorted(glob.glob(d + '/coniii/*.py') + glob.glob(d + '/coniii/ising/*.py')):
        if 'test_' in p:
            continue
        t = ast.parse(open(p).read())
        for m in MODES[mode]:
            t = ast.fix_missing_locations(m().visit(t))
        open(p, 'w').write(ast.unparse(t) + '\n')
