"""AST instrumentation of the implementation's real source.

Every run re-reads the *current* source of the packages under test (oidcop from /repo/src, plus the
oidcmsg message layer it stores its state in), rewrites the operations CPython would dispatch to C
code that cannot carry symbolic operands (dict/set keys, ``in`` on strings, calls of builtins,
string formatting, subscripts) into calls of the symbolic runtime ``engine.rt``, and compiles the
result.  Nothing else is changed: control flow, attribute access, exceptions, generators and
classes are executed by CPython itself, and a branch on a symbolic condition forks the exploration.
"""
import ast
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

RT = "__symrt__"
NOCALL = {"super", "locals", "globals", "vars", "eval", "exec", "dir", "__import__"}
LOGNAMES = {"logger", "LOGGER", "_logger", "log"}
CMP = {
    ast.Eq: "eq", ast.NotEq: "ne", ast.Lt: "lt", ast.LtE: "le", ast.Gt: "gt", ast.GtE: "ge",
    ast.In: "contains", ast.NotIn: "not_contains", ast.Is: "is_", ast.IsNot: "is_not",
}
BIN = {ast.Sub: "sub", ast.BitAnd: "band", ast.BitOr: "bor", ast.BitXor: "bxor", ast.Mod: "mod", ast.Add: "add"}


def _rt(name):
    return ast.Attribute(value=ast.Name(id=RT, ctx=ast.Load()), attr=name, ctx=ast.Load())


def _call(name, *args):
    return ast.Call(func=_rt(name), args=list(args), keywords=[])


class Transformer(ast.NodeTransformer):
    def __init__(self, modname, record):
        self.mod = modname
        self.record = record
        self.scope = []
        self.simple_names = False

    # -- functions --------------------------------------------------------------------------
    def _function(self, node):
        self.scope.append(node.name)
        q = ".".join(self.scope)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args = self.visit(node.args)
        # annotations are left alone
        node.body = self._body(node.body)
        if self.record:
            doc = (
                node.body
                and isinstance(node.body[0], ast.Expr)
                and isinstance(node.body[0].value, ast.Constant)
            )
            ent = ast.Expr(_call("enter", ast.Constant(self.mod + ":" + q)))
            node.body.insert(1 if doc else 0, ent)
        self.scope.pop()
        return node

    def _body(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if r is None:
                continue
            if isinstance(r, list):
                out.extend(r)
            else:
                out.append(r)
        return out or [ast.Pass()]

    visit_FunctionDef = _function
    visit_AsyncFunctionDef = _function

    def visit_ClassDef(self, node):
        self.scope.append(node.name)
        node.body = self._body(node.body)
        self.scope.pop()
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_arguments(self, node):
        node.defaults = [self.visit(d) for d in node.defaults]
        node.kw_defaults = [d if d is None else self.visit(d) for d in node.kw_defaults]
        return node

    # -- statements -------------------------------------------------------------------------
    def visit_Expr(self, node):
        v = node.value
        if (
            isinstance(v, ast.Call)
            and isinstance(v.func, ast.Attribute)
            and isinstance(v.func.value, ast.Name)
            and v.func.value.id in LOGNAMES
        ):
            return ast.copy_location(ast.Pass(), node)
        return self.generic_visit(node)

    def visit_Assign(self, node):
        node.value = self.visit(node.value)
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript):
            t = node.targets[0]
            if not isinstance(t.slice, ast.Slice):
                return ast.copy_location(
                    ast.Expr(_call("setitem", node.value, self.visit(t.value), self.visit(t.slice))),
                    node,
                )
        node.targets = [self.visit(t) for t in node.targets]
        return node

    def visit_AugAssign(self, node):
        node.value = self.visit(node.value)
        t = node.target
        if isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice):
            op = ast.Constant(type(node.op).__name__)
            return ast.copy_location(
                ast.Expr(_call("augitem", self.visit(t.value), self.visit(t.slice), op, node.value)),
                node,
            )
        node.target = self.visit(node.target)
        return node

    def visit_Delete(self, node):
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice):
                out.append(
                    ast.copy_location(
                        ast.Expr(_call("delitem", self.visit(t.value), self.visit(t.slice))), node
                    )
                )
            else:
                out.append(ast.copy_location(ast.Delete(targets=[self.visit(t)]), node))
        return out

    # -- expressions ------------------------------------------------------------------------
    def visit_Compare(self, node):
        left = self.visit(node.left)
        comps = [self.visit(c) for c in node.comparators]
        if len(comps) == 1:
            return ast.copy_location(_call(CMP[type(node.ops[0])], left, comps[0]), node)
        # a < b < c  ->  rt.chain(("lt","lt"), a, lambda: b, lambda: c)
        ops = ast.Tuple(elts=[ast.Constant(CMP[type(o)]) for o in node.ops], ctx=ast.Load())
        noargs = ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[])
        lam = [ast.Lambda(args=noargs, body=c) for c in comps]
        return ast.copy_location(_call("chain", ops, left, *lam), node)

    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in NOCALL:
            node.args = [self.visit(a) for a in node.args]
            node.keywords = [self.visit(k) for k in node.keywords]
            return node
        func = self.visit(node.func)
        args = [self.visit(a) for a in node.args]
        kws = [self.visit(k) for k in node.keywords]
        return ast.copy_location(ast.Call(func=_rt("call"), args=[func] + args, keywords=kws), node)

    def visit_Subscript(self, node):
        node.value = self.visit(node.value)
        if isinstance(node.slice, ast.Slice):
            node.slice = self.generic_visit(node.slice)
            return node
        node.slice = self.visit(node.slice)
        if isinstance(node.ctx, ast.Load):
            return ast.copy_location(_call("getitem", node.value, node.slice), node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        n = BIN.get(type(node.op))
        if n is None:
            return node
        return ast.copy_location(_call(n, node.left, node.right), node)

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant(None)
                parts.append(
                    ast.Tuple(
                        elts=[self.visit(v.value), ast.Constant(v.conversion), spec], ctx=ast.Load()
                    )
                )
            else:
                parts.append(v)
        return ast.copy_location(
            _call("fstring", ast.Tuple(elts=parts, ctx=ast.Load())), node
        )

    def visit_Dict(self, node):
        self.generic_visit(node)
        if any(not isinstance(k, ast.Constant) for k in node.keys):
            items = []
            for k, v in zip(node.keys, node.values):
                if k is None:
                    items.append(ast.Tuple(elts=[v], ctx=ast.Load()))
                else:
                    items.append(ast.Tuple(elts=[k, v], ctx=ast.Load()))
            return ast.copy_location(_call("mkdict", ast.List(elts=items, ctx=ast.Load())), node)
        return node

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(_call("mkset", ast.List(elts=node.elts, ctx=ast.Load())), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        lc = ast.ListComp(elt=node.elt, generators=node.generators)
        return ast.copy_location(_call("mkset", lc), node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        lc = ast.ListComp(
            elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()), generators=node.generators
        )
        return ast.copy_location(_call("mkdict", lc), node)

    def visit_MatchValue(self, node):  # patterns must stay syntactic
        return node


def transform(src, filename, modname, record):
    tree = ast.parse(src, filename)
    tr = Transformer(modname, record)
    tree.body = tr._body(tree.body)
    # from __future__ imports must stay first, docstring too
    idx = 0
    for i, s in enumerate(tree.body):
        if isinstance(s, ast.ImportFrom) and s.module == "__future__":
            idx = i + 1
    if (
        idx == 0
        and tree.body
        and isinstance(tree.body[0], ast.Expr)
        and isinstance(tree.body[0].value, ast.Constant)
    ):
        idx = 1
    imp = ast.Import(names=[ast.alias(name="engine.rt", asname=RT)])
    tree.body.insert(idx, imp)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)


class Loader(importlib.machinery.SourceFileLoader):
    record = True

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        with open(path, "rb") as f:
            src = importlib.util.decode_source(f.read())
        return transform(src, path, fullname, self.record)


class QuietLoader(Loader):
    record = False


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, prefixes):
        self.prefixes = prefixes  # {prefix: record?}

    def find_spec(self, fullname, path, target=None):
        for p, rec in self.prefixes.items():
            if fullname == p or fullname.startswith(p + "."):
                break
        else:
            return None
        spec = importlib.machinery.PathFinder.find_spec(fullname, path)
        if spec is None or not isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            return spec
        cls = Loader if rec else QuietLoader
        spec.loader = cls(spec.loader.name, spec.loader.path)
        return spec


def install(prefixes):
    sys.meta_path.insert(0, Finder(prefixes))
