"""AST instrumentation and the import hook.  Sources are re-read on every run."""
import ast
import builtins
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import types

from . import hooks

CMPN = {ast.Eq: "eq", ast.NotEq: "ne", ast.Lt: "lt", ast.Gt: "gt", ast.LtE: "le", ast.GtE: "ge",
        ast.In: "in", ast.NotIn: "notin", ast.Is: "is", ast.IsNot: "isnot"}
CMPS = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.Gt: ">", ast.LtE: "<=", ast.GtE: ">=",
        ast.In: "in", ast.NotIn: "notin", ast.Is: "is", ast.IsNot: "isnot"}
AUG = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%",
       ast.BitOr: "|", ast.BitAnd: "&", ast.BitXor: "^", ast.Pow: "**", ast.LShift: "<<",
       ast.RShift: ">>", ast.MatMult: "@"}
LEAVE = {"super", "locals", "globals", "eval", "exec", "vars", "dir", "__import__", "getattr",
         "setattr", "hasattr", "delattr", "property", "staticmethod", "classmethod", "object",
         "enumerate", "zip", "range", "iter", "next", "id", "callable", "issubclass", "any", "all",
         "reversed", "list", "tuple", "input", "open"}


def name(n):
    return ast.Name(id=n, ctx=ast.Load())


def call(fn, *args, keywords=()):
    return ast.Call(func=name(fn), args=list(args), keywords=list(keywords))


class Tx(ast.NodeTransformer):
    def __init__(self, modname, enter):
        self.mod = modname
        self.enter = enter
        self.cls = []
        self.qual = []

    def mangle(self, attr):
        if self.cls and attr.startswith("__") and not attr.endswith("__"):
            c = self.cls[-1].lstrip("_")
            if c:
                return f"_{c}{attr}"
        return attr

    def visit_ClassDef(self, node):
        self.cls.append(node.name)
        self.qual.append(node.name)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.bases = [self.visit(b) for b in node.bases]
        node.keywords = [self.visit(b) for b in node.keywords]
        body = []
        for st in node.body:
            if isinstance(st, ast.FunctionDef) and st.name == "__hash__":
                st.name = "__sx_hash__"
                st = self.visit(st)
                body.append(st)
                body.append(ast.parse("def __hash__(self):\n    return 0x5A5A").body[0])
                continue
            r = self.visit(st)
            body.extend(r if isinstance(r, list) else [r])
        node.body = body
        self.cls.pop()
        self.qual.pop()
        return node

    def visit_FunctionDef(self, node):
        self.qual.append(node.name)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        self.visit(node.args)
        # annotations are left alone
        body = []
        for i, st in enumerate(node.body):
            r = self.visit(st)
            body.extend(r if isinstance(r, list) else [r])
        if self.enter:
            at = 1 if (isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant)
                       and isinstance(node.body[0].value.value, str)) else 0
            q = self.mod + ":" + ".".join(self.qual)
            body.insert(at, ast.Expr(call("_sx_enter", ast.Constant(q))))
        node.body = body
        self.qual.pop()
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_arguments(self, node):
        node.defaults = [self.visit(d) for d in node.defaults]
        node.kw_defaults = [self.visit(d) if d else d for d in node.kw_defaults]
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        if isinstance(node.target, ast.Subscript):
            node.target = self.generic_visit(node.target)
        return node

    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Name) and f.id in LEAVE:
            self.generic_visit(node)
            return node
        if isinstance(f, ast.Attribute):
            v = f.value
            if f.attr in ("zfill", "rjust") and isinstance(v, ast.Call) and isinstance(v.func, ast.Name) \
                    and v.func.id == "str" and len(v.args) == 1 and not v.keywords and not node.keywords \
                    and not any(isinstance(a, ast.Starred) for a in v.args + node.args):
                # str(n).zfill(w): one step, so that the number of digits needs no case split
                return ast.copy_location(call("_sx_strfill", v.func, self.visit(v.args[0]), ast.Constant(f.attr),
                                              *[self.visit(a) for a in node.args]), node)
            obj = self.visit(f.value)
            args = [self.visit(a) for a in node.args]
            kws = [self.visit(k) for k in node.keywords]
            return ast.copy_location(
                call("_sx_mcall", obj, ast.Constant(self.mangle(f.attr)), *args, keywords=kws), node)
        self.generic_visit(node)
        return ast.copy_location(
            call("_sx_call", node.func, *node.args, keywords=node.keywords), node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            t = type(node.ops[0])
            if t in (ast.Is, ast.IsNot):
                c = node.comparators[0]
                if not (isinstance(c, ast.Constant) and c.value in (True, False) and c.value is not None):
                    return node
            return ast.copy_location(call("_sx_" + CMPN[t], node.left, node.comparators[0]), node)
        args = [node.left]
        for op, c in zip(node.ops, node.comparators):
            args.append(ast.Constant(CMPS[type(op)]))
            args.append(ast.Lambda(
                args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]),
                body=c))
        return ast.copy_location(call("_sx_chain", *args), node)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not isinstance(node.slice, ast.Slice) and \
                not (isinstance(node.slice, ast.Constant) and isinstance(node.slice.value, int)) and \
                not (isinstance(node.slice, ast.UnaryOp)):
            if isinstance(node.slice, ast.Tuple) and any(isinstance(e, (ast.Slice, ast.Starred)) for e in node.slice.elts):
                return node
            return ast.copy_location(call("_sx_getitem", node.value, node.slice), node)
        return node

    def _simple_sub(self, t):
        return isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice) and not (
            isinstance(t.slice, ast.Tuple) and any(isinstance(e, ast.Slice) for e in t.slice.elts))

    def visit_Assign(self, node):
        if len(node.targets) == 1 and self._simple_sub(node.targets[0]):
            t = node.targets[0]
            # evaluation order: value first
            return ast.copy_location(ast.Expr(call(
                "_sx_setitem2", self.visit(node.value), self.visit(t.value), self.visit(t.slice))), node)
        self.generic_visit(node)
        return node

    def visit_AugAssign(self, node):
        if self._simple_sub(node.target):
            t = node.target
            return ast.copy_location(ast.Expr(call(
                "_sx_augitem", self.visit(t.value), self.visit(t.slice),
                ast.Constant(AUG[type(node.op)]), self.visit(node.value))), node)
        self.generic_visit(node)
        return node

    def visit_Delete(self, node):
        out = []
        for t in node.targets:
            if self._simple_sub(t):
                out.append(ast.copy_location(ast.Expr(call(
                    "_sx_delitem", self.visit(t.value), self.visit(t.slice))), node))
            else:
                out.append(ast.copy_location(ast.Delete(targets=[self.generic_visit(t) or t]), node))
        return out

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(call("_sx_mod", node.left, node.right), node)
        return node

    def visit_FormattedValue(self, node):
        self.generic_visit(node)
        if node.conversion == 114:
            node.conversion = -1
            node.value = call("_sx_repr", node.value)
        return node

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(call("_sx_setdisp", *node.elts), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(call(
            "_sx_mkset", ast.ListComp(elt=node.elt, generators=node.generators)), node)

    def visit_Dict(self, node):
        self.generic_visit(node)
        if all([isinstance(k, ast.Constant) for k in node.keys]):
            return node
        items = [ast.Tuple(elts=[k, v], ctx=ast.Load()) if k is not None
                 else ast.Tuple(elts=[v], ctx=ast.Load()) for k, v in zip(node.keys, node.values)]
        return ast.copy_location(call("_sx_dictdisp", *items), node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(call("_sx_mkdict", ast.ListComp(
            elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()), generators=node.generators)), node)

    def visit_Match(self, node):
        raise SyntaxError("match statement")


def setitem2(v, o, k):
    hooks.sx_setitem(o, k, v)


def install_names():
    for n, f in hooks.NAMES.items():
        setattr(builtins, n, f)
    builtins._sx_setitem2 = setitem2


class Loader(importlib.abc.Loader):
    def __init__(self, fullname, path, ispkg, enter):
        self.fullname, self.path, self.ispkg, self.enter = fullname, path, ispkg, enter

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding="utf8") as f:
            src = f.read()
        tree = ast.parse(src, self.path)
        if not any(isinstance(n, (ast.FunctionDef, ast.Lambda)) for n in ast.walk(tree)):
            # data only: nothing symbolic can reach it
            exec(compile(tree, self.path, "exec", dont_inherit=True), module.__dict__)
            return
        try:
            tree = Tx(self.fullname, self.enter).visit(tree)
            ast.fix_missing_locations(tree)
            module.__dict__["__sx__"] = True
        except SyntaxError:
            # a construct the instrumenter does not handle: run the module natively
            NATIVE.append(self.fullname)
            tree = ast.parse(src, self.path)
        code = compile(tree, self.path, "exec", dont_inherit=True)
        exec(code, module.__dict__)


NATIVE = []


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, prefixes, enter):
        self.prefixes = prefixes
        self.enter = enter
        self.busy = False

    def want(self, fullname):
        return any(fullname == p or fullname.startswith(p + ".") for p in self.prefixes)

    def find_spec(self, fullname, path=None, target=None):
        if not self.want(fullname):
            return None
        spec = importlib.machinery.PathFinder.find_spec(fullname, path)
        if spec is None or not spec.origin or not spec.origin.endswith(".py"):
            return None
        ispkg = spec.submodule_search_locations is not None
        ld = Loader(fullname, spec.origin, ispkg, any(
            fullname == p or fullname.startswith(p + ".") for p in self.enter))
        return importlib.util.spec_from_file_location(
            fullname, spec.origin, loader=ld,
            submodule_search_locations=spec.submodule_search_locations)


PREFIXES = ["pycaption", "bs4", "html", "_markupbase", "textwrap", "xml.sax.saxutils", "harness", "refs"]


def setup(extra=()):
    install_names()
    pref = PREFIXES + list(extra)
    for m in list(sys.modules):
        if any(m == p or m.startswith(p + ".") for p in pref):
            del sys.modules[m]
    for m in ("nltk", "nltk.data"):
        # only the transcript writer uses it; it drags in scipy
        sys.modules[m] = types.ModuleType(m)
    sys.meta_path.insert(0, Finder(pref, ["pycaption"]))
