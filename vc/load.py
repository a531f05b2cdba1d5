"""Loads the modules of /repo into CPython with a mechanical instrumentation.

What the instrumentation changes (and nothing else): type annotations and docstrings are dropped; for and while
statements, comprehensions, list/dict displays and calls of built-ins on collections go through rtl.py, which behaves
as Python does on ordinary values and covers collections of any size on symbolic ones; a bare `except` or
`except BaseException` lets the control exceptions of the engine pass.
"""
import ast, builtins, importlib.abc, importlib.machinery, os, sys, types, hashlib
import rtl, fakes

REPO = os.environ.get('VERIF_REPO', '/repo')
CTORS = {'list': 'list_', 'dict': 'dict_', 'tuple': 'tuple_', 'set': 'set_', 'int': 'int_', 'float': 'float_', 'bool': 'bool_'}
LOADED = {}


def N(n):
    return ast.Name(n, ast.Load())


def rt(n):
    return ast.Attribute(N('__vc__'), n, ast.Load())


def call(f, *a):
    return ast.Call(f, list(a), [])


def C(v):
    return ast.Constant(v)


def stores(nodes):
    """Names assigned in statements (not inside nested functions)."""
    out = []

    class W(ast.NodeVisitor):
        def visit_FunctionDef(self, n): pass
        visit_AsyncFunctionDef = visit_Lambda = visit_ClassDef = visit_FunctionDef

        def visit_Name(self, n):
            if isinstance(n.ctx, ast.Store) and n.id not in out:
                out.append(n.id)

        def visit_ListComp(self, n): pass
        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp
    for n in nodes:
        W().visit(n)
    return [n for n in out if not n.startswith('__vc')]


def has(nodes, kinds, into_loops=True):
    class W(ast.NodeVisitor):
        found = False

        def visit_FunctionDef(self, n): pass
        visit_AsyncFunctionDef = visit_Lambda = visit_ClassDef = visit_FunctionDef

        def generic_visit(self, n):
            if isinstance(n, kinds):
                self.found = True
            super().generic_visit(n)

        def visit_For(self, n):
            if into_loops:
                self.generic_visit(n)
            else:
                for x in ast.walk(n):
                    if isinstance(x, ast.Return):
                        self.found = self.found or ast.Return in (kinds if isinstance(kinds, tuple) else (kinds,))
        visit_While = visit_For
    w = W()
    for n in nodes:
        w.visit(n)
    return w.found


def counted(n):
    """The counter of a loop 'while i < bound: ... i += 1 ...' that is a counted one, or None."""
    t = n.test
    if n.orelse or not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.Lt) and isinstance(t.left, ast.Name)):
        return None
    i = t.left.id
    step = None
    for k, s in enumerate(n.body):
        one = isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and s.target.id == i and isinstance(s.op, ast.Add) and isinstance(s.value, ast.Constant) and s.value.value == 1
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == i and ast.unparse(s.value) in (f'{i} + 1', f'1 + {i}'):
            one = True
        if one:
            if step is not None:
                return None
            step = k
        elif i in stores([s]):
            return None
    if step is None or has(n.body[:step], ast.Continue, into_loops=False) or has(n.body, (ast.Nonlocal, ast.Global)):
        return None
    # the bound is the same each time: its names are neither assigned nor changed by a method in the body, and it calls nothing but len
    names = {x.id for x in ast.walk(t.comparators[0]) if isinstance(x, ast.Name)}
    if i in names or names & set(stores(n.body)):
        return None
    for x in ast.walk(t.comparators[0]):
        if isinstance(x, ast.Call) and not (isinstance(x.func, ast.Name) and x.func.id == 'len') or isinstance(x, (ast.NamedExpr, ast.Lambda)):
            return None
    for s in n.body:
        for x in ast.walk(s):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and any(isinstance(y, ast.Name) and y.id in names - {'self'} for y in ast.walk(x.func.value)):
                return None
            if isinstance(x, (ast.Delete, ast.FunctionDef, ast.Lambda)) or isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                return None
            if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and any(isinstance(y, ast.Name) and y.id in names for y in ast.walk(x.value)):
                return None
    return i


class Rewriter(ast.NodeTransformer):
    def __init__(self, name):
        self.name, self.n, self.depth, self.gen = name, 0, 0, False

    def lid(self, node):
        self.n += 1
        return f'{self.name}#{self.n}'

    # ------------------------------------------------------------ functions, annotations
    def visit_FunctionDef(self, n):
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.returns = None
        a = n.args
        for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
            x.annotation = None
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [d and self.visit(d) for d in a.kw_defaults]
        outer = self.depth, self.gen
        self.depth, self.gen = self.depth + 1, has(n.body, (ast.Yield, ast.YieldFrom))
        n.body = self.body(n.body)
        self.depth, self.gen = outer
        return n

    def body(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if isinstance(r, list):
                out += r
            elif r is not None:
                out.append(r)
        return out or [ast.Pass()]

    def visit_AnnAssign(self, n):
        if self.depth == 0 and isinstance(n.target, ast.Name):
            n.annotation = N('object')
            if n.value is not None:
                n.value = self.visit(n.value)
            return n
        if n.value is None:
            return None
        return self.visit(ast.copy_location(ast.Assign([n.target], n.value), n))

    def visit_Assign(self, n):
        t = n.targets[0]
        if self.depth and len(n.targets) == 1 and isinstance(t, (ast.Tuple, ast.List)) and sum(isinstance(e, ast.Starred) for e in t.elts) == 1:
            i = next(i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred))
            n.value = call(rt('star'), self.visit(n.value), C(i), C(len(t.elts) - 1 - i))
            n.targets = [ast.Tuple([e.value if isinstance(e, ast.Starred) else e for e in t.elts], ast.Store())]
            return ast.fix_missing_locations(n)
        return self.generic_visit(n)

    def visit_ClassDef(self, n):
        outer = self.depth
        self.depth = 0
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.body = self.body(n.body)
        self.depth = outer
        return n

    def visit_Lambda(self, n):
        outer = self.depth
        self.depth += 1
        self.generic_visit(n)
        self.depth = outer
        return n

    def visit_ExceptHandler(self, n):
        if n.type is None or isinstance(n.type, ast.Name) and n.type.id == 'BaseException':
            n.type = N('Exception')
        return self.generic_visit(n)

    # ------------------------------------------------------------ loops
    def visit_For(self, n):
        if not self.depth or self.gen:
            return self.generic_visit(n)
        lid = self.lid(n)
        targets = stores([n.target])
        assigned = [x for x in stores(n.body) if x not in targets and x != getattr(n, 'counter', None)]
        lp = f'__vc_lp{self.n}'
        it = self.visit(n.iter)
        body = self.body(n.body)
        orelse = self.body(n.orelse) if n.orelse else []

        def hook(kind, names):
            return [ast.If(ast.Compare(C(x), [ast.In()], [call(N('__vc_locals__'))]),
                           [ast.Assign([ast.Name(x, ast.Store())], call(ast.Attribute(N(lp), kind, ast.Load()), C(x), N(x)))], []) for x in names]
        mk = ast.Assign([ast.Name(lp, ast.Store())], call(rt('Loop'), C(lid), it, ast.Tuple([C(x) for x in assigned], ast.Load())))
        loop = ast.For(n.target, N(lp), hook('head', assigned) + body,
                       [ast.Expr(call(ast.Attribute(N(lp), 'done', ast.Load())))] + orelse)
        tr = ast.Try([loop], [], [], [ast.Expr(call(ast.Attribute(N(lp), 'end', ast.Load())))])
        out = [mk, tr, ast.Expr(call(ast.Attribute(N(lp), 'exit', ast.Load())))] + hook('after', assigned + targets)
        return [ast.fix_missing_locations(ast.copy_location(s, n)) for s in out]

    def visit_While(self, n):
        if not self.depth or self.gen:
            return self.generic_visit(n)
        c = counted(n)
        if c is not None:
            self.n += 1
            k = f'__vc_i{self.n}'
            first, bound = ast.Name(f'__vc_from{self.n}', ast.Store()), ast.Name(f'__vc_to{self.n}', ast.Store())
            setup = [ast.Assign([first], N(c)), ast.Assign([bound], n.test.comparators[0])]
            body = [ast.Assign([ast.Name(c, ast.Store())], N(k))] + n.body
            loop = ast.For(ast.Name(k, ast.Store()), call(N('range'), N(first.id), N(bound.id)), body,
                           [ast.Assign([ast.Name(c, ast.Store())], call(N('max'), N(first.id), N(bound.id)))])
            loop.counter = c
            setup = [self.visit(ast.fix_missing_locations(ast.copy_location(x, n))) for x in setup]
            return setup + self.visit_For(ast.fix_missing_locations(ast.copy_location(loop, n)))
        if n.orelse or has(n.body, (ast.Return, ast.Break, ast.Continue, ast.Nonlocal, ast.Global), into_loops=False) or has([n.test], ast.NamedExpr):
            n.test = call(rt('concrete_test'), self.visit(n.test))
            n.body = self.body(n.body)
            n.orelse = self.body(n.orelse) if n.orelse else []
            return ast.fix_missing_locations(n)
        lid = self.lid(n)
        names = stores(n.body)
        k = self.n
        test = self.visit(n.test)
        body = self.body(n.body)

        def loads():
            return [ast.If(ast.Compare(C(x), [ast.In()], [N('__vc_s')]),
                           [ast.Assign([ast.Name(x, ast.Store())], ast.Subscript(N('__vc_s'), C(x), ast.Load()))], []) for x in names]

        def fdef(nm, stmts):
            a = ast.arguments([], [ast.arg('__vc_s')], None, [], [], None, [])
            f = ast.FunctionDef(nm, a, stmts, [], None)
            f.type_params = []
            return f
        sel = lambda: call(rt('pick'), call(N('__vc_locals__')), ast.Tuple([C(x) for x in names], ast.Load()))
        c = fdef(f'__vc_c{k}', loads() + [ast.Return(test)])
        b = fdef(f'__vc_b{k}', loads() + body + [ast.Return(sel())])
        run = ast.Assign([ast.Name(f'__vc_st{k}', ast.Store())], call(rt('while_'), C(lid), N(f'__vc_c{k}'), N(f'__vc_b{k}'),
                                                                    ast.Tuple([C(x) for x in names], ast.Load()), sel()))
        back = [ast.If(ast.Compare(C(x), [ast.In()], [N(f'__vc_st{k}')]),
                       [ast.Assign([ast.Name(x, ast.Store())], ast.Subscript(N(f'__vc_st{k}'), C(x), ast.Load()))], []) for x in names]
        return [ast.fix_missing_locations(ast.copy_location(s, n)) for s in [c, b, run] + back]

    # ------------------------------------------------------------ comprehensions
    def _lam(self, target, expr):
        names, pat = [], None

        def p(t):
            if isinstance(t, ast.Name):
                names.append(t.id)
                return C(None)
            if isinstance(t, (ast.Tuple, ast.List)) and not any(isinstance(e, ast.Starred) for e in t.elts):
                return ast.Tuple([p(e) for e in t.elts], ast.Load())
            raise ValueError
        pat = p(target)
        args = lambda ns: ast.arguments([], [ast.arg(x) for x in ns], None, [], [], None, [])
        inner = ast.Lambda(args(names), expr)
        if isinstance(target, ast.Name):
            return inner
        return ast.Lambda(args(['__vc_t']), ast.Call(inner, [ast.Starred(call(rt('flat'), N('__vc_t'), pat), ast.Load())], []))

    def _comp(self, n, fn, *exprs):
        if not self.depth or len(n.generators) != 1 or has([n], ast.NamedExpr) or n.generators[0].is_async:
            return self.generic_visit(n)
        g = n.generators[0]
        lid = self.lid(n)
        try:
            it = self.visit(g.iter)
            fs = [self._lam(g.target, self.visit(e)) for e in exprs]
            conds = ast.Tuple([self._lam(g.target, self.visit(i)) for i in g.ifs], ast.Load())
        except ValueError:
            return n
        return ast.fix_missing_locations(ast.copy_location(call(rt(fn), C(lid), *fs, it, conds), n))

    def visit_ListComp(self, n):
        return self._comp(n, 'listcomp', n.elt)

    def visit_GeneratorExp(self, n):
        return self._comp(n, 'genexp', n.elt)

    def visit_DictComp(self, n):
        return self._comp(n, 'dictcomp', n.key, n.value)

    # ------------------------------------------------------------ displays, constructors
    def _parts(self, elts):
        return [ast.Tuple([C('s'), self.visit(e.value)], ast.Load()) if isinstance(e, ast.Starred) else ast.Tuple([C('v'), self.visit(e)], ast.Load())
                for e in elts]

    def visit_List(self, n):
        if not self.depth or not isinstance(n.ctx, ast.Load):
            return self.generic_visit(n)
        return ast.fix_missing_locations(ast.copy_location(call(rt('displays_list'), *self._parts(n.elts)), n))

    def visit_Tuple(self, n):
        if not self.depth or not isinstance(n.ctx, ast.Load) or not any(isinstance(e, ast.Starred) for e in n.elts):
            return self.generic_visit(n)
        return ast.fix_missing_locations(ast.copy_location(call(rt('displays_tuple'), *self._parts(n.elts)), n))

    def visit_Dict(self, n):
        if not self.depth:
            return self.generic_visit(n)
        parts = [ast.Tuple([rt('STAR') if k is None else self.visit(k), self.visit(v)], ast.Load()) for k, v in zip(n.keys, n.values)]
        return ast.fix_missing_locations(ast.copy_location(call(rt('displays_dict'), *parts), n))

    def visit_Compare(self, n):
        self.generic_visit(n)
        if self.depth and len(n.ops) == 1 and isinstance(n.ops[0], (ast.Is, ast.IsNot)) and not (isinstance(n.comparators[0], ast.Constant) and n.comparators[0].value is not None):
            r = call(rt('is_'), n.left, n.comparators[0])
            return ast.fix_missing_locations(ast.copy_location(r if isinstance(n.ops[0], ast.Is) else ast.UnaryOp(ast.Not(), r), n))
        if self.depth and len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            r = call(rt('in_'), n.left, n.comparators[0])
            return ast.fix_missing_locations(ast.copy_location(r if isinstance(n.ops[0], ast.In) else ast.UnaryOp(ast.Not(), r), n))
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if self.depth:
            if isinstance(f, ast.Name) and f.id in CTORS:
                n.func = ast.copy_location(rt(CTORS[f.id]), f)
            elif isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == 'dict' and f.attr == 'fromkeys':
                n.func = ast.copy_location(rt('dict_fromkeys'), f)
            elif isinstance(f, ast.Attribute) and f.attr in ('__setattr__', '__delattr__') or isinstance(f, ast.Name) and f.id in ('setattr', 'delattr', 'hasattr', 'getattr'):
                n = ast.copy_location(call(rt('attr_'), f, *n.args) if not n.keywords else n, n)
        return ast.fix_missing_locations(n)


def transform(src, name):
    tree = ast.parse(src)
    tree = Rewriter(name).visit(tree)
    ast.fix_missing_locations(tree)
    return tree


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path, target=None):
        if name != 'src' and not name.startswith('src.'):
            return None
        base = os.path.join(REPO, *name.split('.'))
        if os.path.isdir(base):
            p = os.path.join(base, '__init__.py')
            spec = importlib.machinery.ModuleSpec(name, self, is_package=True)
            spec.submodule_search_locations = [base]
            spec.loader_state = p if os.path.exists(p) else None
            return spec
        if os.path.exists(base + '.py'):
            spec = importlib.machinery.ModuleSpec(name, self)
            spec.loader_state = base + '.py'
            return spec
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        p = module.__spec__.loader_state
        module.__file__ = p
        if not p:
            return
        src = open(p, encoding='utf-8').read()
        rel = os.path.relpath(p, REPO)
        LOADED[rel] = hashlib.sha256(src.encode()).hexdigest()[:16]
        code = compile(transform(src, rel), '<vc>' + rel, 'exec')
        b = dict(vars(builtins))
        b.update(rtl.BUILTINS)
        b['__vc_locals__'] = builtins.locals
        module.__dict__['__builtins__'] = b
        module.__dict__['__vc__'] = rtl
        exec(code, module.__dict__)


def install():
    fakes.install()
    sys.meta_path.insert(0, Finder())
    sys.setrecursionlimit(4000)
    import warnings
    warnings.simplefilter('ignore')
