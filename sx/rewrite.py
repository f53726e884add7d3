"""AST instrumentation and import hook.

Modules of the package under analysis are read from the working tree on every
run, rewritten so that the operations which CPython performs in C on exact
builtin types (calls of builtins, `in`, `is`, subscripts, `%`, f-strings,
dict/set displays, isinstance ...) go through the symbolic models, compiled
and executed.  Control flow, data flow and function bodies are untouched: what
runs is the real code."""
import ast
import sys
import importlib.abc
import importlib.machinery
import importlib.util
import os

PREFIX = "_sx_"
NO_REWRITE_CALL = {"super", "locals", "globals", "vars", "dir", "eval", "exec", "__import__"}


class Rewriter(ast.NodeTransformer):
    def __init__(self):
        self.tmp = 0

    def name(self, n):
        return ast.Name(id=PREFIX + n, ctx=ast.Load())

    def call(self, fn, args, node, keywords=()):
        c = ast.Call(func=self.name(fn), args=args, keywords=list(keywords))
        return ast.copy_location(ast.fix_missing_locations(ast.copy_location(c, node)), node)

    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Name) and f.id in NO_REWRITE_CALL:
            self.generic_visit(node)
            if f.id in ("exec", "eval"):
                frame = ast.parse("lambda: globals()", mode="eval").body
                node.keywords.append(ast.keyword(arg="frame", value=frame))
                node.func = self.name(f.id)
                return ast.fix_missing_locations(ast.copy_location(node, node))
            return node
        if isinstance(f, ast.Attribute) and not f.attr.startswith("_sx"):
            # super().meth(...)
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super":
                self.generic_visit(node)
                return node
            obj = self.visit(f.value)
            attr = f.attr
            args = [self.visit(a) for a in node.args]
            kws = [self.visit(k) for k in node.keywords]
            # private name mangling keeps working through getattr on the
            # original attribute node
            if attr.startswith("__") and not attr.endswith("__"):
                fn = ast.copy_location(ast.Attribute(value=obj, attr=attr, ctx=ast.Load()), f)
                return self.call("call", [fn] + args, node, kws)
            return self.call("mcall", [obj, ast.copy_location(ast.Constant(attr), f)] + args, node, kws)
        func = self.visit(f)
        args = [self.visit(a) for a in node.args]
        kws = [self.visit(k) for k in node.keywords]
        return self.call("call", [func] + args, node, kws)

    def visit_Compare(self, node):
        self.generic_visit(node)
        special = (ast.In, ast.NotIn, ast.Is, ast.IsNot)
        if not any(isinstance(o, special) for o in node.ops):
            return node
        if len(node.ops) == 1:
            return self._cmp1(node.left, node.ops[0], node.comparators[0], node)
        # chained: evaluate pairwise with walrus temporaries
        parts = []
        left = node.left
        for i, (op, right) in enumerate(zip(node.ops, node.comparators)):
            if i < len(node.ops) - 1:
                self.tmp += 1
                nm = "%st%d" % (PREFIX, self.tmp)
                rt = ast.NamedExpr(target=ast.Name(id=nm, ctx=ast.Store()), value=right)
                parts.append(self._cmp1(left, op, rt, node))
                left = ast.Name(id=nm, ctx=ast.Load())
            else:
                parts.append(self._cmp1(left, op, right, node))
        return ast.fix_missing_locations(ast.copy_location(ast.BoolOp(op=ast.And(), values=parts), node))

    def _cmp1(self, left, op, right, node):
        if isinstance(op, ast.In):
            return self.call("in", [left, right], node)
        if isinstance(op, ast.NotIn):
            return self.call("notin", [left, right], node)
        if isinstance(op, ast.Is):
            return self.call("is", [left, right], node)
        if isinstance(op, ast.IsNot):
            return self.call("isnot", [left, right], node)
        return ast.fix_missing_locations(ast.copy_location(ast.Compare(left=left, ops=[op], comparators=[right]), node))

    def _slice(self, s):
        if isinstance(s, ast.Slice):
            none = lambda x: x if x is not None else ast.Constant(None)
            return ast.Call(func=self.name("slice"), args=[none(s.lower), none(s.upper), none(s.step)], keywords=[])
        return s

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return self.call("getitem", [node.value, self._slice(node.slice)], node)
        return node

    def _target_assign(self, target, value_node, node):
        return None

    def visit_Assign(self, node):
        # simple subscript targets only; tuple targets containing subscripts
        # are expanded through a temporary
        node.value = self.visit(node.value)
        targets = node.targets
        if not any(self._has_sub(t) for t in targets):
            node.targets = [self.visit(t) for t in targets]
            return node
        self.tmp += 1
        nm = "%st%d" % (PREFIX, self.tmp)
        out = [ast.Assign(targets=[ast.Name(id=nm, ctx=ast.Store())], value=node.value)]
        for t in targets:
            out.extend(self._assign(t, ast.Name(id=nm, ctx=ast.Load())))
        return [ast.fix_missing_locations(ast.copy_location(o, node)) for o in out]

    def _has_sub(self, t):
        return any(isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) for x in ast.walk(t))

    def _assign(self, t, value):
        if isinstance(t, ast.Subscript):
            obj = self.visit(t.value)
            sl = self.visit(t.slice)
            return [ast.Expr(ast.Call(func=self.name("setitem"), args=[obj, self._slice(sl), value], keywords=[]))]
        if isinstance(t, (ast.Tuple, ast.List)) and self._has_sub(t):
            out = []
            names = []
            for e in t.elts:
                self.tmp += 1
                n = "%st%d" % (PREFIX, self.tmp)
                if isinstance(e, ast.Starred):
                    names.append(ast.Starred(value=ast.Name(id=n, ctx=ast.Store()), ctx=ast.Store()))
                    out.append((e.value, n))
                else:
                    names.append(ast.Name(id=n, ctx=ast.Store()))
                    out.append((e, n))
            res = [ast.Assign(targets=[ast.Tuple(elts=names, ctx=ast.Store())], value=value)]
            for e, n in out:
                res.extend(self._assign(e, ast.Name(id=n, ctx=ast.Load())))
            return res
        return [ast.Assign(targets=[self.visit(t)], value=value)]

    def visit_AugAssign(self, node):
        node.value = self.visit(node.value)
        t = node.target
        if isinstance(t, ast.Subscript):
            self.tmp += 2
            o, k = "%st%d" % (PREFIX, self.tmp - 1), "%st%d" % (PREFIX, self.tmp)
            ld = lambda n: ast.Name(id=n, ctx=ast.Load())
            cur = ast.Call(func=self.name("getitem"), args=[ld(o), ld(k)], keywords=[])
            val = ast.Call(func=self.name("iop"), args=[ast.Constant(type(node.op).__name__), cur, node.value], keywords=[])
            out = [
                ast.Assign(targets=[ast.Name(id=o, ctx=ast.Store())], value=self.visit(t.value)),
                ast.Assign(targets=[ast.Name(id=k, ctx=ast.Store())], value=self._slice(self.visit(t.slice))),
                ast.Expr(ast.Call(func=self.name("setitem"), args=[ld(o), ld(k), val], keywords=[])),
            ]
            return [ast.fix_missing_locations(ast.copy_location(x, node)) for x in out]
        if isinstance(node.op, ast.Mod):
            if isinstance(t, ast.Name):
                v = self.call("mod", [ast.Name(id=t.id, ctx=ast.Load()), node.value], node)
                return ast.fix_missing_locations(ast.copy_location(ast.Assign(targets=[t], value=v), node))
        node.target = self.visit(t)
        return node

    def visit_Delete(self, node):
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript):
                out.append(ast.Expr(ast.Call(func=self.name("delitem"),
                                             args=[self.visit(t.value), self._slice(self.visit(t.slice))], keywords=[])))
            else:
                out.append(ast.Delete(targets=[self.visit(t)]))
        return [ast.fix_missing_locations(ast.copy_location(x, node)) for x in out]

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self.call("mod", [node.left, node.right], node)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                val = self.visit(v.value)
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant("")
                parts.append(ast.Call(func=self.name("fmt"), args=[val, ast.Constant(v.conversion), spec], keywords=[]))
        return self.call("fjoin", parts, node)

    def visit_Dict(self, node):
        self.generic_visit(node)
        if not node.keys:
            return node
        if all(isinstance(k, ast.Constant) for k in node.keys if k is not None) and None not in node.keys:
            return node
        items = []
        for k, v in zip(node.keys, node.values):
            if k is None:
                items.append(ast.Tuple(elts=[v], ctx=ast.Load()))
            else:
                items.append(ast.Tuple(elts=[k, v], ctx=ast.Load()))
        return self.call("mkdict", items, node)

    def visit_Set(self, node):
        self.generic_visit(node)
        return self.call("mkset", [ast.List(elts=node.elts, ctx=ast.Load())], node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        gen = ast.GeneratorExp(elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()), generators=node.generators)
        return self.call("dictcomp", [gen], node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        gen = ast.GeneratorExp(elt=node.elt, generators=node.generators)
        return self.call("mkset", [gen], node)

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return self.call("not", [node.operand], node)
        return node

    def visit_Try(self, node):
        self.generic_visit(node)
        hs = []
        for h in node.handlers:
            broad = h.type is None or (isinstance(h.type, ast.Name) and h.type.id == "BaseException")
            if broad:
                hs.append(ast.ExceptHandler(type=self.name("Control"), name=None,
                                            body=[ast.Raise(exc=None, cause=None)]))
            hs.append(h)
        node.handlers = hs
        return ast.fix_missing_locations(node)

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    # match statements, decorators etc. go through generic_visit
    def visit_FunctionDef(self, node):
        node.body = self._body(node.body)
        node.args = self.visit(node.args)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def _body(self, body):
        out = []
        for s in body:
            r = self.visit(s)
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out


def instrument(src, filename, mode="exec"):
    tree = ast.parse(src, filename, mode)
    tree = Rewriter().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, mode, dont_inherit=True)


def runtime_names():
    from . import models
    return models.RUNTIME


class Loader(importlib.abc.Loader):
    def __init__(self, path, ispkg):
        self.path = path
        self.ispkg = ispkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding="utf-8") as f:
            src = f.read()
        module.__dict__.update(runtime_names())
        module.__file__ = self.path
        code = instrument(src, self.path)
        INSTRUMENTED.append(self.path)
        exec(code, module.__dict__)


INSTRUMENTED = []


class Finder(importlib.abc.MetaPathFinder):
    """instrument packages given as {top-level name: directory} and single
    stdlib modules given by name"""

    def __init__(self, packages, modules):
        self.packages = packages
        self.modules = modules

    def find_spec(self, fullname, path=None, target=None):
        if fullname in self.modules:
            p = self.modules[fullname]
            return importlib.util.spec_from_loader(fullname, Loader(p, False), origin=p)
        top = fullname.split(".")[0]
        if top not in self.packages:
            return None
        base = self.packages[top]
        rel = fullname.split(".")[1:]
        p = os.path.join(base, *rel)
        if os.path.isdir(p) and os.path.isfile(os.path.join(p, "__init__.py")):
            f = os.path.join(p, "__init__.py")
            spec = importlib.util.spec_from_loader(fullname, Loader(f, True), origin=f, is_package=True)
            spec.submodule_search_locations = [p]
            return spec
        if os.path.isfile(p + ".py"):
            return importlib.util.spec_from_loader(fullname, Loader(p + ".py", False), origin=p + ".py")
        return None


def install(packages, modules=None):
    f = Finder(packages, modules or {})
    for name in list(sys.modules):
        if name.split(".")[0] in packages or name in f.modules:
            del sys.modules[name]
    sys.meta_path.insert(0, f)
    return f
