"""Mechanical extraction of the code under verification.

Every run parses the current source of /repo/toffee (and scripts/) and compiles it again with the
following rewriting, which touches control flow hooks only; names, expressions, statements, classes
and their order stay as they are, and the result is executed by CPython itself:

  for / while loops        a loop object is asked for every iteration, so that a loop over a
                           sequence of symbolic length can be cut (see rt.Loop); `break` and
                           `return` inside a loop announce themselves first
  comprehensions           single-clause comprehensions become calls that take the clause as lambdas
  is, is not, in, not in,  go through functions that also accept symbolic values
  not, f-strings
  [..] and {..} displays   build list/dict subclasses that can hold symbolic contents
  f(*xs)                   a symbolic xs is passed as one marker element
  sep.join(xs)             through a function that accepts symbolic texts (other objects: unchanged)
  yield from xs            as a statement: for x in xs: yield x (nothing is sent to the generators)
  len, range, all, ...     builtins that insist on concrete values are called through rt
  function entry           is recorded (for the evidence)

Dropped: nothing.  Not modelled exactly: the types of list/dict displays (subclasses), and a
generator that contains a cut loop is run to its end before its consumer starts.
"""
import ast, re, importlib.abc, importlib.machinery, importlib.util, os, sys

REPO = os.environ.get("VERIF_REPO", "/repo")
BUILTINS = {"len", "range", "all", "any", "sum", "min", "max", "sorted", "enumerate", "zip", "list", "tuple", "dict", "set", "str", "int", "bool", "next", "iter", "abs", "reversed", "getattr", "hasattr", "isinstance", "callable", "setattr", "dir", "delattr", "type"}


def N(name, ctx=None):
    return ast.Name(name, ctx or ast.Load())


def rt_attr(name):
    return ast.Attribute(N("_vrt"), name, ast.Load())


def call(name, *args):
    return ast.Call(rt_attr(name), list(args), [])


class Assigned(ast.NodeVisitor):
    """names assigned in a block of the current scope"""

    def __init__(self):
        self.names = []

    def add(self, n):
        if n not in self.names and not re.fullmatch(r"_vl(y?)\d+x?", n):
            self.names.append(n)

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.add(n.id)

    def visit_FunctionDef(self, n):
        self.add(n.name)
        for d in n.args.defaults + n.args.kw_defaults + n.decorator_list:
            if d is not None:
                self.visit(d)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        self.add(n.name)

    def visit_Lambda(self, n):
        pass

    def visit_ListComp(self, n):
        for w in ast.walk(n):
            if isinstance(w, ast.NamedExpr):
                self.add(w.target.id)

    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

    def visit_ExceptHandler(self, n):
        if n.name:
            self.add(n.name)
        self.generic_visit(n)

    def visit_Import(self, n):
        for a in n.names:
            self.add((a.asname or a.name).split(".")[0])

    visit_ImportFrom = visit_Import


def has(node, kinds):
    for w in ast.walk(node):
        if isinstance(w, kinds):
            return True
    return False


class Hoist(ast.NodeTransformer):
    """Comprehensions with several `for` or with `await` become calls of a local function with the
    loops written out, defined right before the statement (a definition has no other effect)."""

    def __init__(self):
        self.n, self.stack, self.closed = 0, [], 0

    def block(self, body):
        out = []
        for s in body:
            self.stack.append([])
            s = self.visit(s)
            out += self.stack.pop() + [s]
        return out

    def generic_visit(self, node):
        for f, v in ast.iter_fields(node):
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                setattr(node, f, self.block(v))
            elif isinstance(v, list):
                v[:] = [self.visit(x) if isinstance(x, ast.AST) else x for x in v]
            elif isinstance(v, ast.AST):
                setattr(node, f, self.visit(v))
        return node

    def shut(self, node):
        # names of a lambda or of a comprehension are not visible before the statement
        self.closed += 1
        node = self.generic_visit(node)
        self.closed -= 1
        return node

    visit_Lambda = shut

    def visit_ClassDef(self, node):
        return self.shut(node)

    def visit_FunctionDef(self, node):
        old, self.closed = self.closed, 0
        node = self.generic_visit(node)
        self.closed = old
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ListComp(self, node):
        g = node.generators
        waits = has(node, ast.Await)
        if self.closed or not self.stack or any(x.is_async for x in g) or has(node, (ast.Yield, ast.YieldFrom, ast.NamedExpr)) or not (waits or len(g) > 1):
            return self.shut(node)
        if isinstance(node, ast.GeneratorExp) and waits:
            return self.shut(node)
        first = self.visit(g[0].iter)
        self.n += 1
        f, it, out = f"_vc{self.n}", f"_hci{self.n}", f"_hco{self.n}"
        put = lambda attr, *a: ast.Expr(ast.Call(ast.Attribute(N(out), attr, ast.Load()), list(a), []))
        if isinstance(node, ast.DictComp):
            start, leaf = ast.Dict([], []), ast.Assign([ast.Subscript(N(out), node.key, ast.Store())], node.value)
        elif isinstance(node, ast.SetComp):
            start, leaf = ast.Call(N("set"), [], []), put("add", node.elt)
        elif isinstance(node, ast.GeneratorExp):
            start, leaf = None, ast.Expr(ast.Yield(node.elt))
        else:
            start, leaf = ast.List([], ast.Load()), put("append", node.elt)
        body = [leaf]
        for k in range(len(g) - 1, -1, -1):
            for c in reversed(g[k].ifs):
                body = [ast.If(c, body, [])]
            body = [ast.For(g[k].target, g[k].iter if k else N(it), body, [])]
        if start is not None:
            body = [ast.Assign([N(out, ast.Store())], start)] + body + [ast.Return(N(out))]
        cls = ast.AsyncFunctionDef if waits and has(ast.Module([x for x in body], []), ast.Await) else ast.FunctionDef
        d = cls(f, ast.arguments([], [ast.arg(it)], None, [], [], None, []), body, [], type_params=[])
        ast.copy_location(d, node)
        for x in ast.walk(d):
            if not hasattr(x, "lineno"):
                ast.copy_location(x, node)
        d = self.visit(ast.fix_missing_locations(d))
        self.stack[-1].append(d)
        c = ast.Call(N(f), [first], [])
        return ast.copy_location(ast.Await(c) if cls is ast.AsyncFunctionDef else c, node)

    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

    def visit_Call(self, node):
        """next(generator expression): a loop that returns"""
        a = node.args
        ok = isinstance(node.func, ast.Name) and node.func.id == "next" and len(a) in (1, 2) and not node.keywords and isinstance(a[0], ast.GeneratorExp)
        if not ok or self.closed or not self.stack or any(x.is_async for x in a[0].generators) or has(a[0], (ast.Await, ast.Yield, ast.YieldFrom, ast.NamedExpr)):
            return self.generic_visit(node)
        g = a[0].generators
        args = [self.visit(g[0].iter)] + [self.visit(x) for x in a[1:]]
        self.n += 1
        f, it, d = f"_vc{self.n}", f"_hci{self.n}", f"_hcd{self.n}"
        body = [ast.Return(a[0].elt)]
        for k in range(len(g) - 1, -1, -1):
            for c in reversed(g[k].ifs):
                body = [ast.If(c, body, [])]
            body = [ast.For(g[k].target, g[k].iter if k else N(it), body, [])]
        body.append(ast.Return(N(d)) if len(a) == 2 else ast.Raise(N("StopIteration"), None))
        fn = ast.FunctionDef(f, ast.arguments([], [ast.arg(it)] + ([ast.arg(d)] if len(a) == 2 else []), None, [], [], None, []), body, [], type_params=[])
        ast.copy_location(fn, node)
        for x in ast.walk(fn):
            if not hasattr(x, "lineno"):
                ast.copy_location(x, node)
        self.stack[-1].append(self.visit(ast.fix_missing_locations(fn)))
        return ast.copy_location(ast.Call(N(f), args, []), node)


class Transform(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.loops = []  # stack of loop names in the current function (None = function boundary)
        self.n = 0
        self.scope = []
        self.params = []

    # -- scopes
    def _func(self, node, name):
        self.scope.append(name)
        self.loops.append(None)
        node = self.generic_visit(node)
        self.loops.pop()
        q = ".".join([self.mod] + self.scope)
        self.scope.pop()
        if not isinstance(node, ast.Lambda):
            doc = []
            if node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant) and isinstance(node.body[0].value.value, str):
                doc, node.body = [node.body[0]], node.body[1:]
            i = 0
            pre = [s for s in node.body if isinstance(s, (ast.Global, ast.Nonlocal))]
            rest = [s for s in node.body if not isinstance(s, (ast.Global, ast.Nonlocal))]
            node.body = doc + pre + [ast.Expr(call("enter", ast.Constant(q)))] + rest
        return node

    def visit_FunctionDef(self, node):
        return self._func(node, node.name)

    def visit_AsyncFunctionDef(self, node):
        return self._func(node, node.name)

    def visit_Lambda(self, node):
        self.loops.append(None)
        node = self.generic_visit(node)
        self.loops.pop()
        return node

    def visit_ClassDef(self, node):
        self.scope.append(node.name)
        self.loops.append(None)
        node = self.generic_visit(node)
        self.loops.pop()
        self.scope.pop()
        return node

    # -- loops
    def _enter_loop(self, node):
        self.n += 1
        lv = f"_vl{self.n}"
        where = ".".join([self.mod] + self.scope) + f":{node.lineno}"
        a = Assigned()
        if isinstance(node, (ast.For, ast.AsyncFor)):
            a.visit(node.target)
        for s in node.body:
            a.visit(s)
        if isinstance(node, ast.While):
            a.visit(node.test)
        glob = getattr(self, "_globals", set())
        return lv, where, [n for n in a.names if n not in glob]

    def _havoc(self, lv, names, meth):
        c = ast.Call(ast.Attribute(N(lv), meth, ast.Load()), [], [])
        if not names:
            return ast.Expr(c)
        return ast.Assign([ast.Tuple([N(n, ast.Store()) for n in names], ast.Store())], c)

    def visit_For(self, node):
        lv, where, names = self._enter_loop(node)
        target_names = Assigned()
        target_names.visit(node.target)
        it = self.visit(node.iter)
        self.loops.append(lv)
        body = [x for s in node.body for x in self._stmts(self.visit(s))]
        self.loops.pop()
        orelse = [x for s in node.orelse for x in self._stmts(self.visit(s))]
        mk = ast.Assign([N(lv, ast.Store())], call("loop", ast.Constant(where), ast.Constant(tuple(names)), it))
        # the target is assigned after the state of the iteration has been set up
        tv = lv + "x"
        loop = ast.For(N(tv, ast.Store()), N(lv), [self._havoc(lv, names, "pre"), ast.Assign([self.visit(node.target)], N(tv))] + body, [self._havoc(lv, names, "exit")] + orelse)
        return [mk, loop]

    def visit_While(self, node):
        lv, where, names = self._enter_loop(node)
        self.loops.append(None)
        test = self.visit(node.test)
        self.loops.pop()
        self.loops.append(lv)
        body = [x for s in node.body for x in self._stmts(self.visit(s))]
        self.loops.pop()
        orelse = [x for s in node.orelse for x in self._stmts(self.visit(s))]
        mk = ast.Assign([N(lv, ast.Store())], call("wloop", ast.Constant(where), ast.Constant(tuple(names))))
        done = ast.Expr(ast.Call(ast.Attribute(N(lv), "cond_false", ast.Load()), [], []))
        stop = ast.If(ast.UnaryOp(ast.Not(), test), [done, ast.Break()] if not orelse else [done] + orelse + [ast.Break()], [])
        loop = ast.For(N(lv + "x", ast.Store()), N(lv), [self._havoc(lv, names, "pre"), stop] + body, [])
        return [mk, loop]

    @staticmethod
    def _stmts(x):
        return x if isinstance(x, list) else [x] if x is not None else []

    def visit_Expr(self, node):
        if isinstance(node.value, ast.YieldFrom):  # the value of the statement is not used
            self.n += 1
            y = f"_vly{self.n}"
            f = ast.For(N(y, ast.Store()), node.value.value, [ast.Expr(ast.Yield(N(y)))], [])
            return self.visit(ast.fix_missing_locations(ast.copy_location(f, node)))
        return self.generic_visit(node)

    def visit_Break(self, node):
        lv = self.loops[-1]
        return [ast.Expr(ast.Call(ast.Attribute(N(lv), "brk", ast.Load()), [], [])), node]

    def visit_Return(self, node):
        node = self.generic_visit(node)
        lvs = []
        for l in reversed(self.loops):
            if l is None:
                break
            lvs.append(l)
        if not lvs:
            return node
        self.n += 1
        tmp = f"_vr{self.n}"
        out = [ast.Assign([N(tmp, ast.Store())], node.value or ast.Constant(None))]
        out += [ast.Expr(ast.Call(ast.Attribute(N(l), "ret", ast.Load()), [], [])) for l in lvs]
        return out + [ast.Return(N(tmp))]

    def visit_Global(self, node):
        return node

    # -- comprehensions
    def _comp(self, node, kind, elts):
        g = node.generators
        if len(g) != 1 or g[0].is_async or has(node, (ast.Await, ast.Yield, ast.YieldFrom, ast.NamedExpr)) or (self.scope and self._in_class()):
            return self.generic_visit(node)
        t = g[0].target
        it = self.visit(g[0].iter)
        args = []
        if isinstance(t, ast.Name):
            params = ast.arguments([], [ast.arg(t.id)], None, [], [], None, [])
            mk = lambda e: ast.Lambda(params, e)
        else:
            # tuple targets: nested lambda over the unpacked element
            names = [w.id for w in ast.walk(t) if isinstance(w, ast.Name)]
            if any(isinstance(w, ast.Starred) for w in ast.walk(t)) or any(not isinstance(e, ast.Name) for e in t.elts):
                return self.generic_visit(node)
            params = ast.arguments([], [ast.arg(n) for n in names], None, [], [], None, [])
            mk = lambda e: ast.Call(rt_attr("unpacking"), [ast.Constant(len(names)), ast.Lambda(params, e)], [])
        self.loops.append(None)
        conds = ast.Tuple([mk(self.visit(c)) for c in g[0].ifs], ast.Load())
        es = [mk(self.visit(e)) for e in elts]
        self.loops.pop()
        where = ".".join([self.mod] + self.scope) + f":{node.lineno}"
        return ast.copy_location(call(kind, ast.Constant(where), it, conds, *es), node)

    def _in_class(self):
        return False

    def visit_ListComp(self, n):
        return self._comp(n, "listcomp", [n.elt])

    def visit_SetComp(self, n):
        return self._comp(n, "setcomp", [n.elt])

    def visit_GeneratorExp(self, n):
        return self._comp(n, "genexp", [n.elt])

    def visit_DictComp(self, n):
        return self._comp(n, "dictcomp", [n.key, n.value])

    # -- operators and displays
    def visit_Compare(self, node):
        node = self.generic_visit(node)
        if len(node.ops) == 1:
            op = {ast.Is: "is_", ast.IsNot: "is_not", ast.In: "in_", ast.NotIn: "not_in"}.get(type(node.ops[0]))
            if op:
                return ast.copy_location(call(op, node.left, node.comparators[0]), node)
        return node

    def visit_BinOp(self, node):
        node = self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.left, ast.Constant) and isinstance(node.left.value, str):
            return ast.copy_location(call("modfmt", node.left, node.right), node)
        return node

    def visit_UnaryOp(self, node):
        node = self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return ast.copy_location(call("not_", node.operand), node)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                e = self.visit(v.value)
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant("")
                parts.append(ast.Tuple([e, ast.Constant(v.conversion), spec], ast.Load()))
        return ast.copy_location(call("fstr", *parts), node)

    def visit_List(self, node):
        node = self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return ast.copy_location(call("mklist", ast.List([self._star(e) for e in node.elts], ast.Load())), node)
        return node

    def visit_Dict(self, node):
        node = self.generic_visit(node)
        if any(k is None for k in node.keys):
            parts = [ast.Tuple([ast.Constant(None) if k is None else ast.Constant(1), ast.Constant(None) if k is None else k, v], ast.Load()) for k, v in zip(node.keys, node.values)]
            return ast.copy_location(call("mergedict", *parts), node)
        return ast.copy_location(call("mkdict", *[ast.Tuple([k, v], ast.Load()) for k, v in zip(node.keys, node.values)]), node)

    def _star(self, a):
        if isinstance(a, ast.Starred):
            return ast.Starred(call("star", a.value), ast.Load())
        return a

    def visit_Call(self, node):
        node = self.generic_visit(node)
        node.args = [self._star(a) for a in node.args]
        if isinstance(node.func, ast.Name) and node.func.id in BUILTINS:
            node.func = call("bi", ast.Constant(node.func.id), node.func)
        elif isinstance(node.func, ast.Attribute) and node.func.attr == "join" and len(node.args) == 1 and not node.keywords:
            return ast.copy_location(call("join", node.func.value, node.args[0]), node)
        elif isinstance(node.func, ast.Attribute) and node.func.attr == "fromkeys" and not node.keywords and 1 <= len(node.args) <= 2:
            return ast.copy_location(call("fromkeys", node.func.value, *node.args), node)
        return node


def strip(tree):
    """keep `from __future__` first and remember the globals of functions"""
    return tree


def instrument(src, filename, modname):
    tree = ast.parse(src, filename)
    tree = ast.fix_missing_locations(Hoist().visit(tree))
    t = Transform(modname)
    tree = t.visit(tree)
    imp = ast.parse("import vc.rt as _vrt").body
    i = 0
    while i < len(tree.body) and ((isinstance(tree.body[i], ast.ImportFrom) and tree.body[i].module == "__future__") or (isinstance(tree.body[i], ast.Expr) and isinstance(tree.body[i].value, ast.Constant))):
        i += 1
    tree.body[i:i] = imp
    ast.fix_missing_locations(tree)
    return tree


class Loader(importlib.machinery.SourceFileLoader):
    def source_to_code(self, data, path, *, _optimize=-1):
        return compile(instrument(data, path, self.name), path, "exec", dont_inherit=True)

    def get_code(self, fullname):  # never use cached bytecode
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        if name == "toffee" or name.startswith("toffee."):
            p = os.path.join(REPO, *name.split("."))
            if os.path.isdir(p):
                f = os.path.join(p, "__init__.py")
                return importlib.util.spec_from_file_location(name, f, loader=Loader(name, f), submodule_search_locations=[p])
            f = p + ".py"
            if os.path.exists(f):
                return importlib.util.spec_from_file_location(name, f, loader=Loader(name, f))
        return None


def install():
    sys.dont_write_bytecode = True
    if not any(isinstance(f, Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, Finder())


def load_file(path, modname):
    spec = importlib.util.spec_from_file_location(modname, path, loader=Loader(modname, path))
    m = importlib.util.module_from_spec(spec)
    sys.modules[modname] = m
    spec.loader.exec_module(m)
    return m
