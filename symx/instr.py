"""
symx.instr - rewrites Python source so that operations which CPython performs inside C
code on exact builtin types (calls, subscripts, membership, f-strings, displays, identity
with True/False) go through the symbolic runtime; and an import hook which loads
/repo's mabel package (current working tree) and some pure Python stdlib modules that way.
"""
import ast
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

SKIP_CALLS = {"super", "locals", "globals", "vars", "eval", "exec", "dir", "breakpoint"}

# stdlib modules which instrumented code imports as instrumented copies of the pure Python source
STD_MAP = {
    "datetime": "symx_std._pydatetime",
    "pathlib": "symx_std.pathlib",
    "textwrap": "symx_std.textwrap",
}
STD_SRC = {
    "symx_std._pydatetime": "_pydatetime",
    "symx_std.pathlib": "pathlib",
    "symx_std.textwrap": "textwrap",
}


SETOPS = (ast.Sub, ast.BitAnd, ast.BitOr, ast.BitXor)


def _name(n):
    return ast.Name(id=n, ctx=ast.Load())


def _call(fn, *args):
    return ast.Call(func=_name(fn), args=list(args), keywords=[])


class Rewriter(ast.NodeTransformer):
    def __init__(self, module):
        self.module = module
        self.classes = []
        self.scope = []
        self.tmp = 0

    def _deco(self, d):
        if isinstance(d, ast.Call):
            return self.visit(d)
        return _call("_sx_deco", self.visit(d))

    # ---- scopes
    def _mangle(self, attr):
        if self.classes and attr.startswith("__") and not attr.endswith("__"):
            return "_" + self.classes[-1].lstrip("_") + attr
        return attr

    def visit_ClassDef(self, node):
        node.decorator_list = [self._deco(d) for d in node.decorator_list]
        node.bases = [self.visit(b) for b in node.bases]
        node.keywords = [ast.keyword(arg=k.arg, value=self.visit(k.value)) for k in node.keywords]
        self.classes.append(node.name)
        self.scope.append(node.name)
        node.body = self._body(node.body)
        self.scope.pop()
        self.classes.pop()
        return node

    def _body(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out

    def _func(self, node):
        if node.name == "__del__" and self.classes:
            node.name = "_sx_del"
        node.decorator_list = [self._deco(d) for d in node.decorator_list]
        a = node.args
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [self.visit(d) if d is not None else None for d in a.kw_defaults]
        for arg in a.posonlyargs + a.args + a.kwonlyargs + [x for x in (a.vararg, a.kwarg) if x]:
            arg.annotation = None
        node.returns = None
        self.scope.append(node.name)
        qual = ".".join(self.scope)
        body = node.body
        doc = []
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
            doc, body = body[:1], body[1:]
        body = self._body(body)
        enter = ast.Expr(_call("_sx_enter", ast.Constant(self.module + ":" + qual)))
        node.body = doc + [enter] + body
        self.scope.pop()
        return node

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_Lambda(self, node):
        a = node.args
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [self.visit(d) if d is not None else None for d in a.kw_defaults]
        node.body = self.visit(node.body)
        return node

    # ---- imports
    def visit_Import(self, node):
        out = []
        for al in node.names:
            if al.name in STD_MAP:
                tgt = STD_MAP[al.name]
                out.append(ast.Import(names=[ast.alias(name=tgt, asname=al.asname or al.name)]))
            else:
                out.append(ast.Import(names=[al]))
        return [ast.copy_location(o, node) for o in out]

    def visit_ImportFrom(self, node):
        if node.level == 0 and node.module in STD_MAP:
            node.module = STD_MAP[node.module]
        return node

    # ---- annotations are not evaluated
    def visit_AnnAssign(self, node):
        if node.value is None:
            node.annotation = ast.Constant(None)
            return node
        if isinstance(node.target, ast.Name) and self.classes and len(self.scope) and self.scope[-1] == self.classes[-1]:
            # class level: keep the annotation (dataclasses, enums)
            node.value = self.visit(node.value)
            return node
        new = ast.Assign(targets=[node.target], value=node.value)
        return self.visit(ast.copy_location(new, node))

    # ---- calls
    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Name) and f.id in SKIP_CALLS:
            self.generic_visit(node)
            return node
        args = [self.visit(a) for a in node.args]
        kws = [ast.keyword(arg=k.arg, value=self.visit(k.value)) for k in node.keywords]
        if isinstance(f, ast.Attribute):
            obj = self.visit(f.value)
            new = ast.Call(func=_name("_sx_m"), args=[obj, ast.Constant(self._mangle(f.attr))] + args, keywords=kws)
        else:
            new = ast.Call(func=_name("_sx_c"), args=[self.visit(f)] + args, keywords=kws)
        return ast.copy_location(new, node)

    # ---- subscripts
    def visit_Subscript(self, node):
        if isinstance(node.ctx, ast.Load):
            return ast.copy_location(_call("_sx_gi", self.visit(node.value), self._index(node.slice)), node)
        node.value = self.visit(node.value)
        node.slice = self.visit(node.slice)
        return node

    def _index(self, s):
        if isinstance(s, ast.Slice):
            return _call("slice", *[self.visit(x) if x is not None else ast.Constant(None)
                                    for x in (s.lower, s.upper, s.step)])
        return self.visit(s)

    def _fresh(self):
        self.tmp += 1
        return "_sx_t%d" % self.tmp

    def _has_sub(self, t):
        if isinstance(t, ast.Subscript):
            return True
        if isinstance(t, (ast.Tuple, ast.List)):
            return any(self._has_sub(e) for e in t.elts)
        if isinstance(t, ast.Starred):
            return self._has_sub(t.value)
        return False

    def _assign_to(self, target, value, out):
        """emit statements assigning the (already rewritten) value expression to target"""
        if isinstance(target, ast.Subscript):
            out.append(ast.Expr(_call("_sx_si", self.visit(target.value), self._index(target.slice), value)))
        elif isinstance(target, (ast.Tuple, ast.List)) and self._has_sub(target):
            names, elts = [], []
            for e in target.elts:
                n = self._fresh()
                inner = e.value if isinstance(e, ast.Starred) else e
                nm = ast.Name(id=n, ctx=ast.Store())
                elts.append(ast.Starred(value=nm, ctx=ast.Store()) if isinstance(e, ast.Starred) else nm)
                names.append((inner, n))
            out.append(ast.Assign(targets=[ast.Tuple(elts=elts, ctx=ast.Store())], value=value))
            for inner, n in names:
                self._assign_to(inner, _name(n), out)
        else:
            out.append(ast.Assign(targets=[self.visit(target)], value=value))

    def visit_Assign(self, node):
        value = self.visit(node.value)
        if not any(self._has_sub(t) for t in node.targets):
            node.value = value
            node.targets = [self.visit(t) for t in node.targets]
            return node
        out = []
        if len(node.targets) == 1:
            self._assign_to(node.targets[0], value, out)
        else:
            n = self._fresh()
            out.append(ast.Assign(targets=[ast.Name(id=n, ctx=ast.Store())], value=value))
            for t in node.targets:
                self._assign_to(t, _name(n), out)
        return [ast.copy_location(o, node) for o in out]

    def visit_AugAssign(self, node):
        op = type(node.op).__name__
        if isinstance(node.target, ast.Subscript):
            new = ast.Expr(_call("_sx_aug", self.visit(node.target.value), self._index(node.target.slice),
                                 ast.Constant(op), self.visit(node.value)))
            return ast.copy_location(new, node)
        node.value = self.visit(node.value)
        t = node.target
        if isinstance(node.op, SETOPS + (ast.Mod,)) and (isinstance(t, ast.Name) or isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name)):
            if isinstance(t, ast.Name):
                load = _name(t.id)
            else:
                load = ast.Attribute(value=_name(t.value.id), attr=t.attr, ctx=ast.Load())
            new = ast.Assign(targets=[t], value=_call("_sx_aug2", ast.Constant(op), load, node.value))
            return ast.copy_location(new, node)
        if isinstance(t, ast.Attribute):
            t.value = self.visit(t.value)
        return node

    def visit_Delete(self, node):
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript):
                out.append(ast.Expr(_call("_sx_di", self.visit(t.value), self._index(t.slice))))
            else:
                out.append(ast.Delete(targets=[self.visit(t)]))
        return [ast.copy_location(o, node) for o in out]

    def visit_Try(self, node):
        """bare / BaseException handlers must not swallow the engine's own control flow"""
        self.generic_visit_body(node)
        guard = ast.ExceptHandler(type=_name("_sx_Steer"), name=None, body=[ast.Raise()])
        for i, h in enumerate(node.handlers):
            if h.type is None or any(isinstance(x, ast.Name) and x.id == "BaseException" for x in ast.walk(h.type)):
                node.handlers.insert(i, guard)
                break
        return node

    visit_TryStar = visit_Try

    def generic_visit_body(self, node):
        node.body = self._body(node.body)
        for h in node.handlers:
            if h.type is not None:
                h.type = self.visit(h.type)
            h.body = self._body(h.body)
        node.orelse = self._body(node.orelse)
        node.finalbody = self._body(node.finalbody)

    def visit_For(self, node):
        node.iter = _call("_sx_it", self.visit(node.iter))
        body = []
        if self._has_sub(node.target):
            n = self._fresh()
            self._assign_to(node.target, _name(n), body)
            node.target = ast.Name(id=n, ctx=ast.Store())
        else:
            node.target = self.visit(node.target)
        node.body = [ast.Expr(_call("_sx_tick"))] + body + self._body(node.body)
        node.orelse = self._body(node.orelse)
        return node

    def visit_While(self, node):
        node.test = self.visit(node.test)
        node.body = [ast.Expr(_call("_sx_tick"))] + self._body(node.body)
        node.orelse = self._body(node.orelse)
        return node

    # ---- operators
    def visit_Compare(self, node):
        names = {ast.In: "_sx_in", ast.NotIn: "_sx_nin", ast.Is: "_sx_is", ast.IsNot: "_sx_isn"}
        operands = [node.left] + node.comparators

        def one(op, l, r):
            if type(op) in names:
                return _call(names[type(op)], l, r)
            return _call("_sx_cmp", ast.Constant(type(op).__name__), l, r)
        if len(node.ops) == 1:
            op = node.ops[0]
            if isinstance(op, (ast.Is, ast.IsNot)) and any(
                    isinstance(x, ast.Constant) and x.value is None for x in operands):
                self.generic_visit(node)
                return node
            return ast.copy_location(one(op, self.visit(operands[0]), self.visit(operands[1])), node)
        # chain: evaluate operands once, left to right, short circuit
        vis = [self.visit(o) for o in operands]
        tmps = [self._fresh() for _ in vis]
        parts = []
        for i, op in enumerate(node.ops):
            if i == 0:
                l = ast.NamedExpr(target=ast.Name(id=tmps[0], ctx=ast.Store()), value=vis[0])
            else:
                l = _name(tmps[i])
            r = ast.NamedExpr(target=ast.Name(id=tmps[i + 1], ctx=ast.Store()), value=vis[i + 1])
            parts.append(one(op, l, r))
        return ast.copy_location(ast.BoolOp(op=ast.And(), values=parts), node)

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return ast.copy_location(_call("_sx_not", node.operand), node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(_call("_sx_mod", node.left, node.right), node)
        if isinstance(node.op, SETOPS):
            return ast.copy_location(_call("_sx_bin", ast.Constant(type(node.op).__name__), node.left, node.right), node)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant("")
                parts.append(ast.Tuple(elts=[self.visit(v.value), ast.Constant(v.conversion), spec], ctx=ast.Load()))
        return ast.copy_location(_call("_sx_fs", *parts), node)

    # ---- displays
    def visit_Set(self, node):
        self.generic_visit(node)
        if all(isinstance(e, ast.Constant) for e in node.elts):
            return node
        return ast.copy_location(_call("_sx_set", ast.List(elts=node.elts, ctx=ast.Load())), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        new = ast.ListComp(elt=node.elt, generators=node.generators)
        return ast.copy_location(_call("_sx_set", new), node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        new = ast.ListComp(elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()), generators=node.generators)
        return ast.copy_location(_call("_sx_dict", new), node)

    def visit_Dict(self, node):
        self.generic_visit(node)
        if all(k is not None and isinstance(k, ast.Constant) for k in node.keys):
            return node
        elts = []
        for k, v in zip(node.keys, node.values):
            if k is None:
                elts.append(ast.Tuple(elts=[v], ctx=ast.Load()))
            else:
                elts.append(ast.Tuple(elts=[k, v], ctx=ast.Load()))
        return ast.copy_location(_call("_sx_dict", ast.List(elts=elts, ctx=ast.Load())), node)

    def visit_comprehension(self, node):
        self.generic_visit(node)
        node.iter = _call("_sx_it", node.iter)
        return node

    def visit_YieldFrom(self, node):
        self.generic_visit(node)
        node.value = _call("_sx_it", node.value)
        return node

    def visit_Starred(self, node):
        self.generic_visit(node)
        return node

    # patterns in match statements keep native semantics
    def visit_MatchValue(self, node):
        return node


def instrument(source, filename, module):
    tree = ast.parse(source, filename)
    # `from __future__` must stay first: insert nothing at module level
    tree = Rewriter(module).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)


class _Loader(importlib.abc.Loader):
    def __init__(self, fullname, path, is_pkg):
        self.fullname, self.path, self.is_pkg = fullname, path, is_pkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        from . import rt
        with open(self.path, encoding="utf-8") as f:
            src = f.read()
        code = instrument(src, self.path, self.fullname)
        module.__dict__.update(rt.INJECT)
        module.__dict__["__symx__"] = True
        exec(code, module.__dict__)
        rt.post_import(module)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, repo, extra=()):
        self.repo = repo
        self.extra = dict(extra)  # package prefix -> directory

    def find_spec(self, fullname, path=None, target=None):
        if fullname in STD_SRC:
            src = importlib.util.find_spec(STD_SRC[fullname]).origin
            return importlib.machinery.ModuleSpec(fullname, _Loader(fullname, src, False), origin=src)
        if fullname == "symx_std":
            spec = importlib.machinery.ModuleSpec(fullname, None, is_package=True)
            spec.submodule_search_locations = []
            return spec
        top = fullname.split(".")[0]
        if top == "mabel":
            base = self.repo
        elif top in self.extra:
            base = self.extra[top]
        else:
            return None
        rel = os.path.join(base, *fullname.split("."))
        for p, pkg in ((os.path.join(rel, "__init__.py"), True), (rel + ".py", False)):
            if os.path.isfile(p):
                spec = importlib.machinery.ModuleSpec(fullname, _Loader(fullname, p, pkg), origin=p, is_package=pkg)
                spec.has_location = True
                if pkg:
                    spec.submodule_search_locations = [rel]
                return spec
        if os.path.isdir(rel):
            spec = importlib.machinery.ModuleSpec(fullname, None, is_package=True)
            spec.submodule_search_locations = [rel]
            return spec
        return None
