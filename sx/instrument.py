"""Loads the code under test from its current source with every operation that
C code would perform on a value routed through the engine, so that it can be
executed with symbolic operands.  The transformation is purely syntactic and
uniform (it knows nothing of normalize), so it follows any edit of the
source."""
import ast
import copy
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

NOCALL = {"super", "locals", "globals", "vars", "dir", "eval", "exec"}


class Rewrite(ast.NodeTransformer):
    def __init__(self, modname):
        self.modname = modname
        self.msg = modname.endswith(".exc")

    def _sx(self, attr, node):
        return ast.copy_location(ast.Attribute(
            value=ast.Name(id="__sx__", ctx=ast.Load()), attr=attr,
            ctx=ast.Load()), node)

    def _mk(self, attr, args, node):
        return ast.copy_location(ast.Call(
            func=self._sx(attr, node), args=args, keywords=[]), node)

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in NOCALL:
            return node
        return ast.copy_location(ast.Call(
            func=self._sx("call", node), args=[node.func] + node.args,
            keywords=node.keywords), node)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and \
                not isinstance(node.slice, ast.Slice):
            return self._mk("getitem", [node.value, node.slice], node)
        if isinstance(node.ctx, (ast.Store, ast.Del)) and \
                not isinstance(node.slice, ast.Slice) and \
                _pure(node.value):
            node.slice = self._mk(
                "key", [_as_load(node.value), node.slice], node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0],
                                             (ast.In, ast.NotIn)):
            c = self._mk("contains", [node.comparators[0], node.left], node)
            # keep evaluation order: left operand first
            c = self._mk("in_", [node.left, node.comparators[0]], node)
            if isinstance(node.ops[0], ast.NotIn):
                return ast.copy_location(
                    ast.UnaryOp(op=ast.Not(), operand=c), node)
            return c
        if len(node.ops) == 1 and isinstance(node.ops[0],
                                             (ast.Eq, ast.NotEq)):
            return self._mk(
                "cmp_eq" if isinstance(node.ops[0], ast.Eq) else "cmp_ne",
                [node.left, node.comparators[0]], node)
        if len(node.ops) == 1 and type(node.ops[0]) in ORDER:
            return self._mk("cmp_ord", [
                ast.Constant(value=type(node.ops[0]).__name__), node.left,
                node.comparators[0]], node)
        if len(node.ops) > 1 and all(map(_simple, node.comparators[:-1])):
            parts, left = [], node.left
            for op, right in zip(node.ops, node.comparators):
                parts.append(self.visit_Compare(ast.copy_location(
                    ast.Compare(left=copy.deepcopy(left), ops=[op],
                                comparators=[right]), node)))
                left = right
            return ast.copy_location(
                ast.BoolOp(op=ast.And(), values=parts), node)
        return node

    def visit_Set(self, node):
        self.generic_visit(node)
        if all(isinstance(x, ast.Constant) for x in node.elts):
            return node
        return self._mk("m_set", [ast.copy_location(
            ast.List(elts=node.elts, ctx=ast.Load()), node)], node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return self._mk("m_set", [ast.copy_location(ast.ListComp(
            elt=node.elt, generators=node.generators), node)], node)

    def visit_Dict(self, node):
        self.generic_visit(node)
        if all(isinstance(x, ast.Constant) for x in node.keys):
            return node
        return self._mk("dict_literal", [
            ast.Tuple(elts=[v] if k is None else [k, v], ctx=ast.Load())
            for k, v in zip(node.keys, node.values)], node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        return self._mk("m_dict", [ast.copy_location(ast.ListComp(
            elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()),
            generators=node.generators), node)], node)

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        op = type(node.op).__name__
        if op not in AUGMENTED:
            return node
        if op == "Mod" and self.msg:
            op = "MsgMod"
        t = node.target
        if isinstance(t, ast.Name) or isinstance(t, ast.Attribute) and \
                _pure(t):
            return ast.copy_location(ast.Assign(
                targets=[t], value=self._mk("augmented", [
                    ast.Constant(value=op), _as_load(t), node.value], node)),
                node)
        return node

    def visit_Assign(self, node):
        t = node.targets[0]
        if len(node.targets) == 1 and isinstance(t, ast.Subscript) and \
                not isinstance(t.slice, ast.Slice) and not _pure(t.value):
            return ast.copy_location(ast.Expr(value=self._mk("setitem", [
                self.visit(node.value), self.visit(t.value),
                self.visit(t.slice)], node)), node)
        self.generic_visit(node)
        return node

    def visit_Delete(self, node):
        t = node.targets[0]
        if len(node.targets) == 1 and isinstance(t, ast.Subscript) and \
                not isinstance(t.slice, ast.Slice) and not _pure(t.value):
            return ast.copy_location(ast.Expr(value=self._mk("delitem", [
                self.visit(t.value), self.visit(t.slice)], node)), node)
        self.generic_visit(node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self._mk("msgmod" if self.msg else "mod",
                            [node.left, node.right], node)
        op = type(node.op).__name__
        if op in ("Sub", "BitAnd", "BitOr", "BitXor"):
            return self._mk("setop", [ast.Constant(value=op), node.left,
                                      node.right], node)
        return node

    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = v.format_spec or ast.Constant(value="")
                parts.append(ast.Tuple(elts=[
                    v.value, ast.Constant(value=v.conversion), spec],
                    ctx=ast.Load()))
        return self._mk("fstr", parts, node)

    def visit_FormattedValue(self, node):
        node.value = self.visit(node.value)
        if node.format_spec is not None:
            node.format_spec = self.visit(node.format_spec)
        return node

    # annotations and decorators of classes are left as they are evaluated
    # once at import


ORDER = (ast.Lt, ast.LtE, ast.Gt, ast.GtE)
AUGMENTED = {"Sub", "BitAnd", "BitOr", "BitXor", "Mod"}


def _simple(n):
    return isinstance(n, ast.Constant) or _pure(n)


def _pure(n):
    while isinstance(n, ast.Attribute):
        n = n.value
    return isinstance(n, ast.Name)


def _as_load(n):
    n = copy.deepcopy(n)
    for x in ast.walk(n):
        if hasattr(x, "ctx"):
            x.ctx = ast.Load()
    return n


def transform(src, filename, modname):
    tree = ast.parse(src, filename)
    tree = Rewrite(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        with open(path, "rb") as f:
            src = f.read()
        return transform(src, path, fullname)

    def exec_module(self, module):
        from . import models
        module.__dict__["__sx__"] = models
        INSTRUMENTED.add(module.__name__)
        super().exec_module(module)


INSTRUMENTED = set()


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, roots, files=()):
        self.roots = roots      # top-level name -> directory holding it
        self.files = dict(files)    # module name -> its file

    def find_spec(self, fullname, path=None, target=None):
        if fullname in self.files:
            fn = self.files[fullname]
            return importlib.util.spec_from_file_location(
                fullname, fn, loader=Loader(fullname, fn))
        top = fullname.split(".")[0]
        if top not in self.roots:
            return None
        base = os.path.join(self.roots[top], *fullname.split("."))
        if os.path.isdir(base):
            fn = os.path.join(base, "__init__.py")
            if not os.path.exists(fn):
                return None
            return importlib.util.spec_from_file_location(
                fullname, fn, loader=Loader(fullname, fn),
                submodule_search_locations=[base])
        fn = base + ".py"
        if os.path.exists(fn):
            return importlib.util.spec_from_file_location(
                fullname, fn, loader=Loader(fullname, fn))
        return None


def install(roots, files=()):
    sys.dont_write_bytecode = True
    for name in files:
        sys.modules.pop(name, None)
    sys.meta_path.insert(0, Finder(roots, files))


def pure_datetime():
    """the standard library's own pure python forms of datetime and of
    strptime, so that the parts of a date can be symbolic"""
    import _pydatetime
    import _strptime
    files = {"datetime": _pydatetime.__file__, "_strptime": _strptime.__file__}
    sys.modules.pop("_pydatetime")
    return files
