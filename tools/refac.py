"""refac.py OUTDIR [kinds]: copy of /repo whose numpy package is rewritten mechanically without changing its behaviour (checks must stay quiet on it)"""
import ast, os, shutil, sys
KINDS = ('dot', 'sq', 'while', 'ifelse', 'ret', 'comp', 'method', 'and', 'expand', 'chain')
KINDS2 = ('helper', 'swap', 'rename')
USE = KINDS
STR = {}
NOSYM = 0


def npcall(n, *names):
    return isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == 'np' and n.func.attr in names


class T(ast.NodeTransformer):
    def __init__(self):
        self.k = 0
        self.gen = [False]
        self.stores = []

    def tmp(self):
        self.k += 1
        return '_rf%d' % self.k

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        return n

    def body(self, stmts):
        out = []
        for s in stmts:
            r = self.stmt(s)
            out.extend(r)
        return out

    def stmt(self, s):
        pre = []
        if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)) and 'ret' in USE:
            t = self.tmp()
            return [ast.Assign([ast.Name(t, ast.Store())], s.value), ast.Return(ast.Name(t, ast.Load()))]
        if isinstance(s, ast.If) and s.orelse and 'ifelse' in USE:
            return [ast.If(ast.UnaryOp(ast.Not(), s.test), s.orelse, s.body)]
        if (isinstance(s, ast.For) and 'while' in USE and isinstance(s.target, ast.Name) and not s.orelse and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name)
                and s.iter.func.id in ('xrange', 'range') and len(s.iter.args) == 1 and not any(isinstance(x, (ast.Continue,)) for x in ast.walk(s))):
            t, u = self.tmp(), self.tmp()
            return [ast.Assign([ast.Name(t, ast.Store())], s.iter.args[0]), ast.Assign([ast.Name(u, ast.Store())], ast.Constant(0)),
                    ast.While(ast.Compare(ast.Name(u, ast.Load()), [ast.Lt()], [ast.Name(t, ast.Load())]),
                              [ast.Assign([ast.Name(s.target.id, ast.Store())], ast.Name(u, ast.Load())), ast.AugAssign(ast.Name(u, ast.Store()), ast.Add(), ast.Constant(1))] + s.body, [])]
        if (isinstance(s, ast.Assign) and 'comp' in USE and isinstance(s.value, ast.ListComp) and len(s.value.generators) == 1 and isinstance(s.targets[0], ast.Name)
                and isinstance(s.value.generators[0].target, ast.Name) and s.value.generators[0].target.id not in self.locals):
            g = s.value.generators[0]
            t = self.tmp()
            b = [ast.Expr(ast.Call(ast.Attribute(ast.Name(t, ast.Load()), 'append', ast.Load()), [s.value.elt], []))]
            for c in g.ifs:
                b = [ast.If(c, b, [])]
            return [ast.Assign([ast.Name(t, ast.Store())], ast.List([], ast.Load())), ast.For(g.target, g.iter, b, []), ast.Assign(s.targets, ast.Name(t, ast.Load()))]
        return [s]

    def generic_visit(self, n):
        if isinstance(n, ast.FunctionDef):
            # names the function uses outside of comprehensions
            old = getattr(self, 'locals', set())
            comps = set()
            for c in ast.walk(n):
                if isinstance(c, ast.comprehension):
                    comps |= {id(x) for x in ast.walk(c.target)}
            self.locals = {a.arg for a in ast.walk(n) if isinstance(a, ast.arg)} | {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and id(x) not in comps}
        super().generic_visit(n)
        for f in ('body', 'orelse', 'finalbody'):
            v = getattr(n, f, None)
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt) and not isinstance(n, (ast.ClassDef, ast.Module)):
                setattr(n, f, self.body(v))
        if isinstance(n, ast.FunctionDef):
            self.locals = old
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if npcall(n, 'dot') and len(n.args) == 2 and 'dot' in USE:
            return ast.Call(ast.Attribute(ast.Call(ast.Attribute(ast.Name('np', ast.Load()), 'asarray', ast.Load()), [n.args[0]], []), 'dot', ast.Load()), [n.args[1]], [])
        if npcall(n, 'sum', 'mean', 'max', 'argsort', 'cumsum', 'min', 'argmax', 'std', 'any', 'all') and n.args and 'method' in USE and not isinstance(n.args[0], (ast.List, ast.ListComp, ast.GeneratorExp, ast.Tuple)) \
                and not any(isinstance(a, ast.Constant) and isinstance(a.value, str) for a in n.args):
            return ast.Call(ast.Attribute(ast.Call(ast.Attribute(ast.Name('np', ast.Load()), 'asarray', ast.Load()), [n.args[0]], []), n.func.attr, ast.Load()), n.args[1:], n.keywords)
        if npcall(n, 'logical_and', 'logical_or') and len(n.args) == 2 and not n.keywords and 'and' in USE:
            return ast.BinOp(n.args[0], ast.BitAnd() if n.func.attr == 'logical_and' else ast.BitOr(), n.args[1])
        if npcall(n, 'expand_dims') and n.args and 'expand' in USE and len(n.keywords) == 1 and n.keywords[0].arg == 'axis' and isinstance(n.keywords[0].value, ast.UnaryOp):
            if ast.unparse(n.keywords[0].value) == '-1':
                return ast.Subscript(ast.Call(ast.Attribute(ast.Name('np', ast.Load()), 'asarray', ast.Load()), [n.args[0]], []), ast.Tuple([ast.Constant(Ellipsis), ast.Constant(None)], ast.Load()), ast.Load())
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if 'sq' in USE and isinstance(n.op, ast.Pow) and isinstance(n.right, ast.Constant) and n.right.value == 2 and isinstance(n.left, (ast.Name, ast.Attribute)):
            return ast.BinOp(n.left, ast.Mult(), n.left)
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        flip = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
        if 'chain' in USE and len(n.ops) == 1 and type(n.ops[0]) in flip:
            return ast.Compare(n.comparators[0], [flip[type(n.ops[0])]()], [n.left])
        return n


PURE = (ast.Name, ast.Constant, ast.Attribute, ast.BinOp, ast.Subscript, ast.UnaryOp, ast.Compare, ast.Tuple, ast.Slice, ast.operator, ast.unaryop, ast.cmpop, ast.expr_context)


def pure(e):
    for x in ast.walk(e):
        if isinstance(x, ast.Call):
            if not (isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == 'np') or any(k.arg in ('out',) for k in x.keywords) or x.func.attr in ('fill_diagonal', 'put'):
                return False
        elif not isinstance(x, PURE + (ast.keyword,)):
            return False
    return True


def names(e):
    return {x.id for x in ast.walk(e) if isinstance(x, ast.Name)}


def swap(stmts):
    i = 0
    while i + 1 < len(stmts):
        a, b = stmts[i], stmts[i + 1]
        if all(isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and pure(s.value) for s in (a, b)):
            x, y = a.targets[0].id, b.targets[0].id
            if x != y and x not in names(b.value) and y not in names(a.value):
                stmts[i], stmts[i + 1] = b, a
                i += 1
        i += 1
    for s in stmts:
        for f in ('body', 'orelse', 'finalbody'):
            v = getattr(s, f, None)
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt) and not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                swap(v)


def rename(fn):
    if any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.Global, ast.Nonlocal, ast.Delete)) for x in ast.walk(fn) if x is not fn) or any(isinstance(x, ast.Name) and x.id in ('locals', 'eval', 'exec') for x in ast.walk(fn)):
        return
    args = {a.arg for a in ast.walk(fn) if isinstance(a, ast.arg)}
    loc = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - args
    exc = {h.name for h in ast.walk(fn) if isinstance(h, ast.ExceptHandler)}
    imp = {(a.asname or a.name).split('.')[0] for x in ast.walk(fn) if isinstance(x, (ast.Import, ast.ImportFrom)) for a in x.names}
    for x in ast.walk(fn):
        if isinstance(x, ast.Name) and x.id in loc - exc - imp:
            x.id = x.id + '_v'


def split_helper(fn, cls):
    # the body moves to a helper with the same arguments
    a = fn.args
    if fn.decorator_list or fn.name.startswith('__') or a.posonlyargs or any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Nonlocal, ast.Global)) for x in ast.walk(fn)) or len(fn.body) < 3:
        return [fn]
    if any(isinstance(x, ast.Name) and x.id in ('super', 'locals', '__class__') for x in ast.walk(fn)) or any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'super' for x in ast.walk(fn)):
        return [fn]
    if any(isinstance(x, ast.Attribute) and x.attr.startswith('__') and not x.attr.endswith('__') for x in ast.walk(fn)):
        return [fn]
    ar = [x.arg for x in a.args]
    if cls and (not ar or ar[0] != 'self'):
        return [fn]
    nm = '_impl_' + fn.name
    plain = ast.arguments([], [ast.arg(x) for x in ar], a.vararg, [ast.arg(x.arg) for x in a.kwonlyargs], [None] * len(a.kwonlyargs), a.kwarg, [])
    helper = ast.FunctionDef(nm, plain, fn.body, [], None, None)
    L = lambda n: ast.Name(n, ast.Load())
    f = ast.Attribute(L('self'), nm, ast.Load()) if cls else L(nm)
    pos = [L(x) for x in (ar[1:] if cls else ar)] + ([ast.Starred(L(a.vararg.arg), ast.Load())] if a.vararg else [])
    kw = [ast.keyword(x.arg, L(x.arg)) for x in a.kwonlyargs] + ([ast.keyword(None, L(a.kwarg.arg))] if a.kwarg else [])
    helper.type_params = []
    new = ast.FunctionDef(fn.name, a, [ast.Return(ast.Call(f, pos, kw))], [], fn.returns, None)
    new.type_params = []
    if cls and sum(1 for c in cls.body if isinstance(c, ast.FunctionDef) and c.name == fn.name) > 1:
        return [fn]
    return [helper, new]


def second(tree):
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef):
            if 'swap' in USE:
                swap(n.body)
            if 'rename' in USE:
                rename(n)
    if 'helper' in USE:
        for n in [tree] + [x for x in ast.walk(tree) if isinstance(x, ast.ClassDef)]:
            n.body = [y for x in n.body for y in (split_helper(x, n if isinstance(n, ast.ClassDef) else None) if isinstance(x, ast.FunctionDef) else [x])]
    return tree


def main():
    global USE
    out = sys.argv[1]
    if len(sys.argv) > 2:
        USE = KINDS2 if sys.argv[2] == '2' else sys.argv[2].split(',')
    shutil.rmtree(out, ignore_errors=True)
    shutil.copytree('/repo', out, ignore=shutil.ignore_patterns('.git', 'data_out', '__pycache__'))
    for r, _, fs in os.walk(out + '/hyperion'):
        if any(x in r for x in ('keras', 'torch', 'deprec', '/tf')):
            continue
        for f in fs:
            p = os.path.join(r, f)
            if f.endswith('.py') and f != '__init__.py':
                try:
                    t = ast.parse(open(p).read())
                except SyntaxError:
                    continue
                t = ast.fix_missing_locations(second(T().visit(t)))
                s = ast.unparse(t)
                compile(s, p, 'exec')
                open(p, 'w').write(s + '\n')
main()
