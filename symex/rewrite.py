"""AST instrumentation of the code under test and the import hook.

The transformation keeps the meaning of the program for concrete values; it only
routes operations that the C implementation of Python would refuse to perform on
symbolic values through the run-time functions in `symex.rt`.
"""
import ast
import importlib.abc
import importlib.util
import os
import sys

RT = "_sx_rt"


def rt(name, *args, **kw):
    return ast.Call(
        func=ast.Attribute(value=ast.Name(id=RT, ctx=ast.Load()), attr=name,
                           ctx=ast.Load()),
        args=list(args), keywords=[])


def const_strs(node):
    return isinstance(node, ast.Constant)


CMP = {ast.Eq: "eq", ast.NotEq: "ne", ast.Lt: "lt", ast.LtE: "le",
       ast.Gt: "gt", ast.GtE: "ge", ast.In: "in_", ast.NotIn: "nin_",
       ast.Is: "is_", ast.IsNot: "is_not"}
BIN = {ast.Mod: "mod", ast.BitAnd: "and_", ast.BitOr: "or_", ast.Sub: "sub",
       ast.BitXor: "xor"}


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.scope = []
        self.tmp = 0

    # -- functions

    def _func(self, node):
        self.scope.append(node.name)
        # annotations and decorators stay as they are
        node.args = self._args(node.args)
        node.body = [self.visit(s) for s in node.body]
        node.body = [x for s in node.body
                     for x in (s if isinstance(s, list) else [s])]
        name = ".".join([self.mod] + [s for s in self.scope])
        mark = ast.Expr(rt("fn", ast.Constant(name)))
        i = 0
        if (node.body and isinstance(node.body[0], ast.Expr)
                and isinstance(node.body[0].value, ast.Constant)
                and isinstance(node.body[0].value.value, str)):
            i = 1
        node.body.insert(i, mark)
        if node.name in ("__bool__", "__contains__"):
            self._returns(node, "tobool")
        elif node.name in ("__len__", "__index__", "__int__"):
            self._returns(node, "toint")
        self.scope.pop()
        return node

    def _returns(self, fn, conv):
        class R(ast.NodeTransformer):
            def visit_FunctionDef(s, n):
                return n
            visit_Lambda = visit_AsyncFunctionDef = visit_ClassDef = visit_FunctionDef

            def visit_Return(s, n):
                if n.value is not None:
                    n.value = rt(conv, n.value)
                return n
        fn.body = [R().visit(s) for s in fn.body]

    def _args(self, a):
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [d and self.visit(d) for d in a.kw_defaults]
        return a

    def visit_FunctionDef(self, node):
        return self._func(node)

    def visit_AsyncFunctionDef(self, node):
        return self._func(node)

    def visit_Lambda(self, node):
        node.args = self._args(node.args)
        node.body = self.visit(node.body)
        return node

    def visit_ClassDef(self, node):
        self.scope.append(node.name)
        node.body = [x for s in node.body for x in
                     (lambda v: v if isinstance(v, list) else [v])(self.visit(s))]
        self.scope.pop()
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        node.target = self.visit(node.target)
        return node

    # -- expressions

    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Name) and f.id in ("super", "locals", "globals",
                                                "vars", "cast", "TypeVar"):
            if f.id == "cast" and len(node.args) == 2:
                return self.visit(node.args[1])
            self.generic_visit(node)
            return node
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id == RT:
            return node
        return ast.Call(
            func=ast.Attribute(value=ast.Name(id=RT, ctx=ast.Load()),
                               attr="call", ctx=ast.Load()),
            args=[node.func] + node.args, keywords=node.keywords)

    def _cmp1(self, left, op, right):
        t = type(op)
        if t in (ast.Is, ast.IsNot):
            if isinstance(right, ast.Constant) and (
                    right.value is None or right.value is Ellipsis):
                return ast.Compare(left, [op], [right])
        return rt(CMP[t], left, right)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            return self._cmp1(node.left, node.ops[0], node.comparators[0])
        # a < b < c  ->  (a < (t := b)) and (t < c), through a lambda-free form
        parts = []
        left = node.left
        for i, (op, comp) in enumerate(zip(node.ops, node.comparators)):
            last = i == len(node.ops) - 1
            if last or isinstance(comp, (ast.Constant, ast.Name)):
                parts.append(self._cmp1(left, op, comp))
                left = comp
                if isinstance(comp, ast.Name):
                    left = ast.Name(id=comp.id, ctx=ast.Load())
            else:
                # thread the value through the run time's temporary stack
                parts.append(self._cmp1(left, op, rt("push", comp)))
                left = rt("pop")
        return ast.BoolOp(ast.And(), parts)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if type(node.op) in BIN:
            if isinstance(node.op, ast.Sub) and (
                    isinstance(node.right, ast.Constant)
                    or isinstance(node.left, ast.Constant)):
                return node
            return rt("b" + BIN[type(node.op)], node.left, node.right)
        return node

    def visit_AugAssign(self, node):
        if type(node.op) in BIN and not (
                isinstance(node.op, ast.Sub) and isinstance(node.value, ast.Constant)):
            t = node.target
            if isinstance(t, ast.Name):
                load = ast.Name(id=t.id, ctx=ast.Load())
                self.generic_visit(node)
                return ast.Assign([t], rt("i" + BIN[type(node.op)], load, node.value))
            if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name):
                load = ast.Attribute(ast.Name(id=t.value.id, ctx=ast.Load()),
                                     t.attr, ast.Load())
                val = self.visit(node.value)
                return ast.Assign([t], rt("i" + BIN[type(node.op)], load, val))
        if isinstance(node.target, ast.Subscript) and not isinstance(
                node.target.slice, ast.Slice):
            # d[k] op= v: evaluate d and k once
            d = self.visit(node.target.value)
            k = self.visit(node.target.slice)
            v = self.visit(node.value)
            opn = ast.Constant(type(node.op).__name__)
            return ast.Expr(rt("aug", d, k, opn, v))
        node.value = self.visit(node.value)
        return node

    def visit_Subscript(self, node):
        if isinstance(node.ctx, ast.Load):
            self.generic_visit(node)
            if isinstance(node.slice, ast.Slice):
                return node
            return rt("getitem", node.value, node.slice)
        self.generic_visit(node)
        return node

    def visit_Assign(self, node):
        if any(self._has_sub(t) for t in node.targets):
            if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript) \
                    and not isinstance(node.targets[0].slice, ast.Slice):
                t = node.targets[0]
                v = self.visit(node.value)
                return ast.Expr(rt("store", v, self.visit(t.value),
                                   self.visit(t.slice)))
        self.generic_visit(node)
        return node

    def _has_sub(self, t):
        return any(isinstance(x, ast.Subscript) for x in ast.walk(t))

    def visit_Delete(self, node):
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice):
                out.append(ast.Expr(rt("delitem", self.visit(t.value),
                                       self.visit(t.slice))))
            else:
                out.append(ast.Delete([self.visit(t)]))
        return out

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                val = self.visit(v.value)
                spec = (self.visit(v.format_spec) if v.format_spec
                        else ast.Constant(""))
                parts.append(rt("fmt", val, ast.Constant(v.conversion), spec))
        return rt("fstr", *parts)

    def visit_Set(self, node):
        self.generic_visit(node)
        return rt("mkset", ast.List(node.elts, ast.Load()))

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return rt("mkset", ast.ListComp(node.elt, node.generators))

    def visit_Dict(self, node):
        self.generic_visit(node)
        if all(isinstance(k, ast.Constant) for k in node.keys):
            return node
        if any(k is None for k in node.keys):
            return node
        return rt("mkdict", ast.List(
            [ast.Tuple([k, v], ast.Load()) for k, v in zip(node.keys, node.values)],
            ast.Load()))

    def visit_DictComp(self, node):
        self.generic_visit(node)
        return rt("mkdict", ast.ListComp(
            ast.Tuple([node.key, node.value], ast.Load()), node.generators))


def transform(source, filename, modname):
    tree = ast.parse(source, filename)
    tree = Rewriter(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)


class Loader(importlib.abc.Loader):
    def __init__(self, path, name):
        self.path = path
        self.name = name

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        from . import rt as rtm
        with open(self.path, encoding="utf-8") as f:
            src = f.read()
        module.__dict__[RT] = rtm
        code = transform(src, self.path, self.name)
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    """Loads the packages `prefixes` {name: directory} in instrumented form."""

    def __init__(self, prefixes):
        self.prefixes = prefixes

    def find_spec(self, fullname, path, target=None):
        top = fullname.split(".")[0]
        if top not in self.prefixes:
            return None
        base = os.path.join(self.prefixes[top], *fullname.split(".")[1:])
        for cand, pkg in ((os.path.join(base, "__init__.py"), True),
                          (base + ".py", False)):
            if os.path.isfile(cand):
                return importlib.util.spec_from_file_location(
                    fullname, cand, loader=Loader(cand, fullname),
                    submodule_search_locations=[base] if pkg else None)
        return None


def install(prefixes):
    sys.meta_path.insert(0, Finder(prefixes))
