"""Loads docria (and the harness modules) from source, instrumented for symbolic execution."""
import ast
import builtins
import importlib
import os
import sys
import types

from . import core, rt
from .core import Control

REPO_PY = os.environ.get("SX_REPO_PY", "/repo/py")
PKG = "docria"


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname, record):
        self.modname = modname
        self.record = record
        self.stack = []

    def _name(self, n, node):
        return ast.copy_location(ast.Name(id=n, ctx=ast.Load()), node)

    def _call(self, fn, args, node, keywords=()):
        return ast.copy_location(ast.Call(func=self._name(fn, node), args=list(args), keywords=list(keywords)), node)

    # ---- definitions
    def _func(self, node):
        decs = [self.visit(d) for d in node.decorator_list]
        node.decorator_list = decs
        args = node.args
        for a in args.posonlyargs + args.args + args.kwonlyargs + [x for x in (args.vararg, args.kwarg) if x]:
            a.annotation = None
        node.returns = None
        args.defaults = [self.visit(d) for d in args.defaults]
        args.kw_defaults = [self.visit(d) if d is not None else None for d in args.kw_defaults]
        self.stack.append(node.name)
        body = []
        for st in node.body:
            r = self.visit(st)
            if isinstance(r, list):
                body.extend(r)
            elif r is not None:
                body.append(r)
        if self.record:
            qn = self.modname + ":" + ".".join(self.stack)
            enter = ast.Expr(self._call("__sx_enter__", [ast.Constant(qn)], node))
            k = 1 if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) \
                and isinstance(body[0].value.value, str) else 0
            body.insert(k, enter)
        self.stack.pop()
        node.body = body or [ast.Pass()]
        return node

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        return node

    def visit_AnnAssign(self, node):
        node.target = self.visit(node.target)
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    # ---- expressions
    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in ("super", "locals", "globals", "vars", "__sx_enter__"):
            self.generic_visit(node)
            return node
        self.generic_visit(node)
        return self._call("__sx_call__", [node.func] + node.args, node, node.keywords)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            sl = node.slice
            if isinstance(sl, ast.Slice):
                none = ast.Constant(None)
                sl = self._call("__sx_slice__", [sl.lower or none, sl.upper or none, sl.step or none], node)
            elif isinstance(sl, ast.Tuple) and any(isinstance(e, (ast.Slice, ast.Starred)) for e in sl.elts):
                return node
            elif isinstance(sl, ast.Constant) and isinstance(sl.value, (int, str)):
                return node
            return self._call("__sx_getitem__", [node.value, sl], node)
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        if any(k is None for k in node.keys):
            inner = ast.copy_location(ast.Dict(keys=node.keys, values=node.values), node)
            return self._call("__sx_dict__", [inner], node)
        pairs = [ast.Tuple(elts=[k, v], ctx=ast.Load()) for k, v in zip(node.keys, node.values)]
        return self._call("__sx_dict__", [ast.List(elts=pairs, ctx=ast.Load())], node)

    def visit_Set(self, node):
        self.generic_visit(node)
        return self._call("__sx_set__", [ast.List(elts=node.elts, ctx=ast.Load())], node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        g = ast.GeneratorExp(elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()), generators=node.generators)
        return self._call("__sx_dict__", [ast.copy_location(g, node)], node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        g = ast.GeneratorExp(elt=node.elt, generators=node.generators)
        return self._call("__sx_set__", [ast.copy_location(g, node)], node)

    def visit_comprehension(self, node):
        self.generic_visit(node)
        node.ifs = [self._call("__sx_truth__", [c], c) for c in node.ifs]
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self._call("__sx_mod__", [node.left, node.right], node)
        return node

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return self._call("__sx_not__", [node.operand], node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            op, l, r = node.ops[0], node.left, node.comparators[0]
            if isinstance(op, ast.In):
                return self._call("__sx_in__", [l, r], node)
            if isinstance(op, ast.NotIn):
                return self._call("__sx_notin__", [l, r], node)
            if isinstance(op, ast.Eq):
                return self._call("__sx_eqop__", [l, r], node)
            if isinstance(op, ast.NotEq):
                return self._call("__sx_neop__", [l, r], node)
            if isinstance(op, (ast.Is, ast.IsNot)) and isinstance(r, ast.Constant) and \
                    (r.value is True or r.value is False):
                c = self._call("__sx_is__", [l, r], node)
                return c if isinstance(op, ast.Is) else self._call("__sx_not__", [c], node)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant("")
                parts.append(ast.Tuple(elts=[self.visit(v.value), ast.Constant(v.conversion), spec], ctx=ast.Load()))
        return self._call("__sx_fstr__", parts, node)

    # ---- statements
    def visit_If(self, node):
        self.generic_visit(node)
        node.test = self._call("__sx_truth__", [node.test], node.test)
        return node

    visit_While = visit_If
    visit_IfExp = visit_If

    def visit_Assert(self, node):
        self.generic_visit(node)
        node.test = self._call("__sx_truth__", [node.test], node.test)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.target, ast.Name):
            load = ast.copy_location(ast.Name(id=node.target.id, ctx=ast.Load()), node)
            return ast.copy_location(ast.Assign(targets=[node.target],
                                                value=self._call("__sx_mod__", [load, node.value], node)), node)
        return node

    def visit_Try(self, node):
        self.generic_visit(node)
        hs = []
        for h in node.handlers:
            broad = h.type is None or (isinstance(h.type, ast.Name) and h.type.id == "BaseException")
            if broad:
                hs.append(ast.copy_location(
                    ast.ExceptHandler(type=self._name("__sx_Control__", h), name=None, body=[ast.Raise()]), h))
            hs.append(h)
        node.handlers = hs
        return node


def enter(name):
    c = core.CTX
    if c is not None:
        c.functions.add(name)


HELPERS = {
    "__sx_call__": rt.sx_call, "__sx_getitem__": rt.sx_getitem, "__sx_slice__": slice,
    "__sx_dict__": rt.sx_dict, "__sx_set__": rt.sx_set, "__sx_truth__": rt.sx_truth,
    "__sx_mod__": rt.sx_mod, "__sx_not__": rt.sx_not, "__sx_in__": rt.sx_in,
    "__sx_notin__": rt.sx_notin, "__sx_is__": rt.sx_is, "__sx_fstr__": rt.sx_fstr,
    "__sx_eqop__": rt.sx_eqop, "__sx_neop__": rt.sx_neop,
    "__sx_enter__": enter, "__sx_Control__": Control,
}


class World:
    """A set of instrumented modules sharing stubs."""

    def __init__(self, repo_py=None, extra=None):
        self.repo_py = repo_py or REPO_PY
        self.modules = {}
        self.code = {}
        self.extra = dict(extra or {})     # module name -> source path, also instrumented
        from . import stubs
        self.stubs = stubs.build(self)
        self.builtins = dict(vars(builtins))
        self.builtins["__import__"] = self._import
        self.builtins["open"] = self.stubs["__open__"]
        self.loading = set()

    # ---- locating sources
    def source_path(self, name):
        if name in self.extra:
            return self.extra[name], False
        if name == PKG or name.startswith(PKG + "."):
            base = os.path.join(self.repo_py, *name.split("."))
            if os.path.isdir(base) and os.path.exists(os.path.join(base, "__init__.py")):
                return os.path.join(base, "__init__.py"), True
            if os.path.exists(base + ".py"):
                return base + ".py", False
        return None, False

    def load(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        if "." in name:
            self.load(name.rpartition(".")[0])
            m = self.modules.get(name)
            if m is not None:
                return m
        path, is_pkg = self.source_path(name)
        if path is None:
            raise ModuleNotFoundError("No module named %r" % name, name=name)
        code = self.code.get(name)
        if code is None:
            with open(path, "r", encoding="utf-8") as f:
                src = f.read()
            tree = ast.parse(src, path)
            tree = Rewriter(name, name not in self.extra).visit(tree)
            ast.fix_missing_locations(tree)
            code = self.code[name] = compile(tree, path, "exec")
        m = types.ModuleType(name)
        m.__file__ = path
        if is_pkg:
            m.__path__ = [os.path.dirname(path)]
            m.__package__ = name
        else:
            m.__package__ = name.rpartition(".")[0]
        g = m.__dict__
        g["__builtins__"] = self.builtins
        g.update(HELPERS)
        self.modules[name] = m
        try:
            exec(code, g)
        except BaseException:
            del self.modules[name]
            raise
        parent, _, child = name.rpartition(".")
        if parent:
            setattr(self.modules[parent], child, m)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get("__package__") or globals.get("__name__")
            for _ in range(level - 1):
                pkg = pkg.rpartition(".")[0]
            name = pkg + "." + name if name else pkg
        top = name.partition(".")[0]
        if name in self.extra or top == PKG:
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f == "*":
                        continue
                    if not hasattr(m, f):
                        p, _ = self.source_path(name + "." + f)
                        if p:
                            self.load(name + "." + f)
                return m
            return self.modules[top]
        if name in self.stubs:
            m = self.stubs[name]
            if fromlist or "." not in name:
                return m
            return self.stubs[top]
        if top in self.stubs and not fromlist and "." in name:
            return self.stubs[top]
        return builtins.__import__(name, globals, locals, fromlist, 0)


class RealWorld:
    """The unmodified modules, for replay."""

    def __init__(self, extra=None):
        self.modules = {}
        self.extra = dict(extra or {})
        if "pandas" not in sys.modules:     # not among the tools here: the same recorder as in the symbolic world
            from .stubs import tab
            m = sys.modules["pandas"] = types.ModuleType("pandas")
            m.DataFrame = tab.DataFrame

    def load(self, name):
        if name in self.extra:
            m = self.modules.get(name)
            if m is None:

                m = types.ModuleType("real_" + name)
                m.__file__ = self.extra[name]
                self.modules[name] = m
                with open(self.extra[name], encoding="utf-8") as f:
                    src = f.read()
                g = m.__dict__
                b = dict(vars(builtins))
                b["__import__"] = self._import
                g["__builtins__"] = b
                exec(compile(src, self.extra[name], "exec"), g)
            return m
        return importlib.import_module(name)

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if name in self.extra:
            return self.load(name)
        return builtins.__import__(name, globals, locals, fromlist, level)
