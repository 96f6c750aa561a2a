"""Loads modules from source with the small rewriting symbolic execution needs.

Nothing of the code's logic is modelled: the AST of the current source is compiled as
it is, except that operations CPython decides inside C code (calls of builtins,
f-strings, `%`, substring tests, identity with True/False) go through symx.runtime,
which handles symbolic operands and otherwise performs the very same operation.
"""
import ast
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

from symx import core

NO_SETS = {"range", "enumerate", "zip", "map", "filter", "sorted", "list", "tuple", "items",
           "values", "keys", "reversed"}
SKIP_CALLS = {"super", "locals", "globals", "vars", "dir", "eval", "exec", "__import__"}


class Rewriter(ast.NodeTransformer):
    def __init__(self, module, record):
        self.module = module
        self.record = record
        self.stack = []
        self.strings = set()

    def _call(self, name, *args, at):
        n = ast.Call(func=ast.Name(id=name, ctx=ast.Load()), args=list(args), keywords=[])
        return ast.copy_location(n, at)

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in SKIP_CALLS:
            return node
        new = ast.Call(
            func=ast.Name(id="__sx_call__", ctx=ast.Load()),
            args=[node.func] + node.args,
            keywords=node.keywords,
        )
        return ast.copy_location(new, node)

    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        return self._call("__sx_wrap__", node, at=node)

    def visit_FormattedValue(self, node):
        node.value = self.visit(node.value)
        # format_spec is a JoinedStr that must stay one
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self._call("__sx_mod__", node.left, node.right, at=node)
        if isinstance(node.op, (ast.Add, ast.Mult)):
            return self._call("__sx_wrap__", node, at=node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Add) and not isinstance(node.value, ast.Constant):
            node.value = self._call("__sx_iter__", node.value, at=node.value)
        if isinstance(node.op, ast.Add) and isinstance(node.target, ast.Name):
            # new texts have to become known
            see = ast.Expr(self._call(
                "__sx_wrap__", ast.Name(id=node.target.id, ctx=ast.Load()), at=node))
            return [node, ast.copy_location(see, node)]
        return node

    def _iterated(self, node):
        """The order of sets is decided by the engine"""
        if isinstance(node, ast.Call) and node.args:  # __sx_call__(f, ...)
            f = node.args[0]
            if getattr(f, "id", getattr(f, "attr", None)) in NO_SETS:
                return node
        if isinstance(node, (ast.List, ast.Tuple, ast.Constant, ast.ListComp)):
            return node
        return self._call("__sx_iter__", node, at=node)

    def visit_For(self, node):
        self.generic_visit(node)
        node.iter = self._iterated(node.iter)
        return node

    def visit_comprehension(self, node):
        self.generic_visit(node)
        node.iter = self._iterated(node.iter)
        return node

    def visit_Starred(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            node.value = self._call("__sx_iter__", node.value, at=node.value)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.slice, ast.Slice) and isinstance(node.ctx, ast.Load):
            return self._call("__sx_wrap__", node, at=node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) != 1:
            return node
        op, right = node.ops[0], node.comparators[0]
        if isinstance(op, (ast.In, ast.NotIn)):
            new = self._call("__sx_in__", node.left, right, at=node)
            if isinstance(op, ast.NotIn):
                new = ast.copy_location(ast.UnaryOp(op=ast.Not(), operand=new), node)
            return new
        if isinstance(op, (ast.Is, ast.IsNot)):
            if isinstance(right, ast.Constant) and right.value is None:
                return node
            new = self._call("__sx_is__", node.left, right, at=node)
            if isinstance(op, ast.IsNot):
                new = ast.copy_location(ast.UnaryOp(op=ast.Not(), operand=new), node)
            return new
        return node

    def visit_Constant(self, node):
        if isinstance(node.value, str):
            self.strings.add(node.value)
        return node

    def visit_Name(self, node):
        self.strings.add(node.id)
        return node

    def visit_Attribute(self, node):
        self.strings.add(node.attr)
        self.generic_visit(node)
        return node

    def visit_keyword(self, node):
        if node.arg:
            self.strings.add(node.arg)
        self.generic_visit(node)
        return node

    def visit_arg(self, node):
        self.strings.add(node.arg)
        return node  # annotations stay as they are

    def visit_AnnAssign(self, node):
        node.target = self.visit(node.target)
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        return node

    def _function(self, node):
        self.stack.append(node.name)
        returns, node.returns = node.returns, None
        self.generic_visit(node)
        node.returns = returns
        if self.record:
            label = "%s:%s" % (self.module, ".".join(self.stack))
            mark = ast.Expr(
                self._call("__sx_fn__", ast.Constant(label), at=node.body[0])
            )
            ast.copy_location(mark, node.body[0])
            at = 0
            first = node.body[0]
            if isinstance(first, ast.Expr) and isinstance(first.value, ast.Constant):
                at = 1
            node.body.insert(at, mark)
        self.stack.pop()
        return node

    visit_FunctionDef = _function
    visit_AsyncFunctionDef = _function


class Loader(importlib.abc.Loader):
    def __init__(self, path, record):
        self.path = path
        self.record = record

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, "rb") as f:
            source = f.read()
        tree = ast.parse(source, self.path)
        rw = Rewriter(module.__name__, self.record)
        tree = ast.fix_missing_locations(rw.visit(tree))
        for s in rw.strings:
            core.SOURCE_STRINGS.add(s)
        if self.record:
            SOURCES[module.__name__] = self.path
        exec(compile(tree, self.path, "exec"), module.__dict__)


SOURCES = {}


class Finder(importlib.abc.MetaPathFinder):
    """{package: (root directory, record functions?)}"""

    def __init__(self, roots):
        self.roots = roots

    def find_spec(self, fullname, path=None, target=None):
        top = fullname.split(".")[0]
        if top not in self.roots:
            return None
        root, record = self.roots[top]
        base = os.path.join(root, *fullname.split("."))
        init = os.path.join(base, "__init__.py")
        if os.path.isfile(init):
            spec = importlib.machinery.ModuleSpec(
                fullname, Loader(init, record), origin=init, is_package=True
            )
            spec.submodule_search_locations = [base]
        elif os.path.isfile(base + ".py"):
            spec = importlib.machinery.ModuleSpec(
                fullname, Loader(base + ".py", record), origin=base + ".py"
            )
        else:
            return None
        spec.has_location = True
        return spec


def install(roots):
    sys.meta_path.insert(0, Finder(roots))
