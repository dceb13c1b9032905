"""Scheduling points in the library, put there while it is imported.

The library's source is compiled with a call to `__point__()` before every
statement of every function, and with the results of calls, subscripts,
attribute loads and the operands of augmented assignments passed through
`__within__()`. Both return at once unless a simulation is running in this
thread; then they are where the scheduler may switch. (Tracing with
sys.settrace would do without, but CPython 3.12 crashes when threads switch
while opcodes are traced.)"""
import ast
import importlib.abc
import importlib.machinery
import sys

from . import sched


class Points(ast.NodeTransformer):
    def __init__(self):
        self.depth = 0

    def call(self, name, node, args):
        new = ast.Call(func=ast.Name(id=name, ctx=ast.Load()), args=args, keywords=[])
        return ast.copy_location(new, node)

    def within(self, node):
        return self.call('__within__', node, [node])

    def block(self, stmts):
        out = []
        for s in stmts:
            if not isinstance(s, (ast.Global, ast.Nonlocal)):
                out.append(ast.copy_location(ast.Expr(value=self.call('__point__', s, [])), s))
            out.append(self.visit(s))
        return out

    def visit_FunctionDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        doc = ast.get_docstring(node, clean=False) is not None
        self.depth += 1
        node.body = node.body[:1] * doc + self.block(node.body[doc:])
        if not node.body:
            node.body = [ast.Pass()]
        self.depth -= 1
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, node):
        # (a class body runs when it is imported or declared)
        depth, self.depth = self.depth, 0
        self.generic_visit(node)
        self.depth = depth
        return node

    def generic_visit(self, node):
        for field, value in ast.iter_fields(node):
            if self.depth and isinstance(value, list) and value and isinstance(value[0], ast.stmt):
                setattr(node, field, self.block(value))
            elif isinstance(value, list):
                new = []
                for v in value:
                    v = self.visit(v) if isinstance(v, ast.AST) else v
                    new.append(v)
                setattr(node, field, new)
            elif isinstance(value, ast.AST):
                setattr(node, field, self.visit(value))
        return node

    def visit_Lambda(self, node):
        self.depth += 1
        self.generic_visit(node)
        self.depth -= 1
        return node

    def visit_Call(self, node):
        if isinstance(node.func, ast.Attribute):
            node.func.value = self.visit(node.func.value)   # (not between a method and its call)
        else:
            node.func = self.visit(node.func)
        node.args = [self.visit(a) for a in node.args]
        for k in node.keywords:
            k.value = self.visit(k.value)
        return self.within(node) if self.depth else node

    def visit_Attribute(self, node):
        self.generic_visit(node)
        return self.within(node) if self.depth and isinstance(node.ctx, ast.Load) else node

    visit_Subscript = visit_Attribute

    def visit_AugAssign(self, node):
        # (what it loads is loaded before the operand is worked out)
        target = node.target
        if isinstance(target, (ast.Attribute, ast.Subscript)):
            target.value = self.visit(target.value)
            if isinstance(target, ast.Subscript):
                target.slice = self.visit(target.slice)
        node.value = self.visit(node.value)
        if self.depth:
            node.value = self.within(node.value)
        return node

    def visit_JoinedStr(self, node):
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_Match(self, node):
        return node


class Loader(importlib.machinery.SourceFileLoader):
    def source_to_code(self, data, path, *, _optimize=-1):
        tree = Points().visit(ast.parse(data, path))
        ast.fix_missing_locations(tree)
        return compile(tree, path, 'exec', dont_inherit=True, optimize=_optimize)

    def exec_module(self, module):
        module.__dict__['__point__'], module.__dict__['__within__'] = sched.points_of(self.path)
        super().exec_module(module)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name != 'properties' and not name.startswith('properties.'):
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path)
        if spec is not None and type(spec.loader) is importlib.machinery.SourceFileLoader:
            spec.loader = Loader(spec.loader.name, spec.loader.path)
        return spec


def install():
    sys.meta_path.insert(0, Finder())
