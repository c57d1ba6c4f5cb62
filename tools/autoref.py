#!/usr/bin/env python3
"""dev helper: autoref.py MODE [CNN ...]  - applies one kind of mechanical behaviour-preserving rewriting to every function of
a copy of /repo, confirms the tests, and runs the checks, which have to stay quiet.
MODES: cond wrap loops comps exprs names"""
import ast, os, shutil, subprocess, sys, tempfile, time
V = os.environ.get("VDIR", "/verif")
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", LANG="C.UTF-8")
FILES = ["model", "codec", "collection", "algorithm", "query", "printout", "index", "storage"]


class Base(ast.NodeTransformer):
    def __init__(self):
        self.k = 0

    def fresh(self, p):
        self.k += 1
        return "_%s%d" % (p, self.k)


def name(n, store=False):
    return ast.Name(n, ast.Store() if store else ast.Load())


def is_gen(fn):
    for x in ast.walk(fn):
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            return True
    return False


class Cond(Base):
    """conditions into locals, branches swapped"""
    infn = 0

    def visit_FunctionDef(self, n):
        self.infn += 1
        self.generic_visit(n)
        self.infn -= 1
        return n

    def visit_If(self, n):
        elif_ = len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)
        self.generic_visit(n)
        if not self.infn:
            return n
        c = self.fresh("c")
        asg = ast.Assign([name(c, True)], n.test)
        orelse = n.orelse or [ast.Pass()]
        if isinstance(n.orelse, list) and n.orelse == []:
            return [asg, ast.If(name(c), n.body, [])]
        return [asg, ast.If(ast.UnaryOp(ast.Not(), name(c)), orelse, n.body)]

    def visit_IfExp(self, n):
        self.generic_visit(n)
        return ast.IfExp(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)

    def visit_Return(self, n):
        self.generic_visit(n)
        if n.value is None or not self.infn:
            return n
        r = self.fresh("r")
        return [ast.Assign([name(r, True)], n.value), ast.Return(name(r))]


class Wrap(Base):
    """every plain method and function delegates to an extracted helper"""
    def body(self, owner):
        out = []
        for n in owner.body:
            if isinstance(n, ast.ClassDef):
                self.body(n)
            if isinstance(n, ast.FunctionDef) and self.ok(n, owner):
                out += self.split(n, owner)
            else:
                out.append(n)
        owner.body = out

    def ok(self, n, owner):
        a = n.args
        if a.vararg or a.kwarg or a.kwonlyargs or a.posonlyargs:
            return False
        if any(isinstance(x, ast.Name) and x.id in ("super", "__class__") for x in ast.walk(n)):
            return False
        decs = [ast.unparse(d) for d in n.decorator_list]
        if any(d not in ("property", "staticmethod") for d in decs):
            return False
        if isinstance(owner, ast.ClassDef) and any(isinstance(x, ast.Attribute) and x.attr.startswith("__") and not x.attr.endswith("__") for x in ast.walk(n)):
            return True
        return True

    def split(self, n, owner):
        decs = [ast.unparse(d) for d in n.decorator_list]
        static = "staticmethod" in decs
        meth = isinstance(owner, ast.ClassDef)
        h = "_do_" + n.name.replace("_", "0")
        if any(isinstance(x, ast.FunctionDef) and x.name == h for x in owner.body) or not n.args.args and meth and not static:
            return [n]
        args = [a.arg for a in n.args.args]
        helper = ast.FunctionDef(h, ast.arguments([], [ast.arg(a) for a in args], None, [], [], None, []), n.body, [])
        if meth and static:
            helper.decorator_list = [name("staticmethod")]
            f = ast.Attribute(name(owner.name), h, ast.Load())
            pass_ = args
        elif meth:
            f = ast.Attribute(name(args[0]), h, ast.Load())
            pass_ = args[1:]
        else:
            f, pass_ = name(h), args
        if meth and not static and n.name in ("__new__",):
            return [n]
        n.body = [ast.Return(ast.Call(f, [name(a) for a in pass_], []))]
        self.k += 1
        # subclasses that override share the helper's name: keep it unique per class
        if meth:
            uniq = "_%s%s" % (owner.name.strip("_").lower(), h)
            helper.name = uniq
            f.attr = uniq
        return [helper, n]


class Loops(Base):
    """for loops as while loops over an explicit iterator; += on locals spelled out"""
    infn = 0

    def visit_FunctionDef(self, n):
        self.infn += 1
        self.generic_visit(n)
        self.infn -= 1
        return n

    def visit_For(self, n):
        self.generic_visit(n)
        if n.orelse or not self.infn:
            return n
        if isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == "range" and len(n.iter.args) <= 2 \
                and isinstance(n.target, ast.Name) and not any(isinstance(x, ast.Continue) for x in ast.walk(n)):
            i, e = self.fresh("i"), self.fresh("e")
            lo = n.iter.args[0] if len(n.iter.args) == 2 else ast.Constant(0)
            hi = n.iter.args[-1]
            return [ast.Assign([name(i, True)], lo), ast.Assign([name(e, True)], hi),
                    ast.While(ast.Compare(name(i), [ast.Lt()], [name(e)]),
                              [ast.Assign([n.target], name(i)), ast.AugAssign(name(i, True), ast.Add(), ast.Constant(1))] + n.body, [])]
        it, v = self.fresh("it"), self.fresh("v")
        return [ast.Assign([name(it, True)], ast.Call(name("iter"), [n.iter], [])),
                ast.While(ast.Constant(True),
                          [ast.Try([ast.Assign([name(v, True)], ast.Call(name("next"), [name(it)], []))],
                                   [ast.ExceptHandler(name("StopIteration"), None, [ast.Break()])], [], []),
                           ast.Assign([n.target], name(v))] + n.body, [])]

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.target, ast.Name) and isinstance(n.op, (ast.Add, ast.Sub)) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, int):
            return ast.Assign([n.target], ast.BinOp(name(n.target.id), n.op, n.value))
        return n


class Comps(Base):
    """comprehensions as explicit accumulation in a nested function"""
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        return n

    def acc(self, n, init, add):
        # only inside functions, without class scope trouble
        return None

    def visit_ListComp(self, n):
        self.generic_visit(n)
        return ast.Call(name("list"), [ast.GeneratorExp(n.elt, n.generators)], [])

    def visit_SetComp(self, n):
        self.generic_visit(n)
        return ast.Call(name("set"), [ast.ListComp(n.elt, n.generators)], [])

    def visit_DictComp(self, n):
        self.generic_visit(n)
        return ast.Call(name("dict"), [ast.ListComp(ast.Tuple([n.key, n.value], ast.Load()), n.generators)], [])

    def visit_List(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and not n.elts:
            return ast.Call(name("list"), [], [])
        return n

    def visit_Dict(self, n):
        self.generic_visit(n)
        if not n.keys:
            return ast.Call(name("dict"), [], [])
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in ("map", "filter") and len(n.args) == 2 and not (isinstance(n.args[0], ast.Constant)):
            x, f = self.fresh("x"), self.fresh("f")
            if n.func.id == "map":
                g = ast.GeneratorExp(ast.Call(name(f), [name(x)], []), [ast.comprehension(name(x, True), n.args[1], [], 0)])
            else:
                # NotImplemented from None.__ne__ counts as true
                g = ast.GeneratorExp(name(x), [ast.comprehension(name(x, True), n.args[1], [ast.Call(name(f), [name(x)], [])], 0)])
            lam = ast.Lambda(ast.arguments([], [ast.arg(f)], None, [], [], None, []), g)
            return ast.Call(lam, [n.args[0]], [])
        return n


class Exprs(Base):
    """operands swapped, chained comparisons split, slices through slice(), conditions double-negated"""
    SW = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq,
          ast.Is: ast.Is, ast.IsNot: ast.IsNot}
    PURE = (ast.Name, ast.Constant, ast.Attribute)

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1:
            op = n.ops[0]
            if isinstance(op, ast.NotIn):
                return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [ast.In()], n.comparators))
            if isinstance(op, ast.IsNot):
                return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [ast.Is()], n.comparators))
            if type(op) in self.SW and isinstance(n.left, self.PURE) | isinstance(n.comparators[0], ast.Constant):
                return ast.Compare(n.comparators[0], [self.SW[type(op)]()], [n.left])
            return n
        if all(isinstance(x, self.PURE) for x in n.comparators[:-1]):
            ls = [n.left] + n.comparators
            return ast.BoolOp(ast.And(), [ast.Compare(ls[i], [n.ops[i]], [ls[i + 1]]) for i in range(len(n.ops))])
        return n

    def visit_BoolOp(self, n):
        self.generic_visit(n)
        return n

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.slice, ast.Slice) and isinstance(n.ctx, ast.Load):
            s = n.slice
            n.slice = ast.Call(name("slice"), [s.lower or ast.Constant(None), s.upper or ast.Constant(None)] + ([s.step] if s.step else []), [])
        return n

    def visit_JoinedStr(self, n):
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.RShift) and isinstance(n.right, (ast.Constant, ast.Attribute)):
            return ast.BinOp(n.left, ast.FloorDiv(), ast.BinOp(ast.Constant(2), ast.Pow(), n.right))
        if isinstance(n.op, ast.LShift) and isinstance(n.right, (ast.Constant, ast.Attribute)):
            return ast.BinOp(n.left, ast.Mult(), ast.BinOp(ast.Constant(2), ast.Pow(), n.right))
        if isinstance(n.op, ast.Sub) and isinstance(n.right, ast.Constant) and isinstance(n.right.value, int):
            return ast.BinOp(n.left, ast.Add(), ast.UnaryOp(ast.USub(), n.right))
        return n


class Names(Base):
    """call arguments into locals before the call, attribute chains into locals, tuple assignments split through a temporary"""
    def visit_Expr(self, n):
        self.generic_visit(n)
        if isinstance(n.value, ast.Call) and n.value.args and not any(isinstance(a, ast.Starred) for a in n.value.args) and \
                isinstance(n.value.func, (ast.Name, ast.Attribute)) and not (isinstance(n.value.func, ast.Attribute) and not self.simple(n.value.func.value)):
            out, new = [], []
            for a in n.value.args:
                if isinstance(a, (ast.Constant, ast.Name)):
                    new.append(a)
                else:
                    v = self.fresh("a")
                    out.append(ast.Assign([name(v, True)], a))
                    new.append(name(v))
            n.value.args = new
            return out + [n]
        return n

    def simple(self, x):
        return isinstance(x, ast.Name) or isinstance(x, ast.Attribute) and self.simple(x.value)

    def visit_Assign(self, n):
        self.generic_visit(n)
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Subscript) and not isinstance(n.value, (ast.Name, ast.Constant)):
            v = self.fresh("s")
            return [ast.Assign([name(v, True)], n.value), ast.Assign(n.targets, name(v))]
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == "append" and len(n.args) == 1 and False:
            return n
        return n


MODES = {"cond": Cond, "wrap": Wrap, "loops": Loops, "comps": Comps, "exprs": Exprs, "names": Names}


def rewrite(src, mode):
    t = ast.parse(src)
    for m in mode.split("+"):
        x = MODES[m]()
        if m == "wrap":
            x.body(t)
        else:
            t = x.visit(t)
    return ast.unparse(ast.fix_missing_locations(t)) + "\n"


def main():
    mode = sys.argv[1]
    props = sys.argv[2:] or ["C%02d" % i for i in range(1, 24)]
    d = tempfile.mkdtemp(prefix="autoref")
    try:
        shutil.copytree("/repo/py", d + "/py", ignore=shutil.ignore_patterns(".git", "__pycache__"))
        for f in FILES:
            p = "%s/py/docria/%s.py" % (d, f)
            s = open(p).read()
            open(p, "w").write(rewrite(s, mode))
        r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "tests", "-q", "-p", "no:cacheprovider"], cwd=d + "/py",
                           env=dict(ENV, PYTHONPATH=d + "/py"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            print(mode, "TESTS FAIL", r.stdout[-1500:])
            return
        if props == ["none"]:
            return
        for p in props:
            t0 = time.time()
            r = subprocess.run([V + "/check", p], env=dict(os.environ, SX_REPO_PY=d + "/py"), stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, errors="replace")
            print(mode, p, "quiet" if r.returncode == 0 else "ALARM rc=%d" % r.returncode, "%.0fs" % (time.time() - t0), r.stdout.strip().splitlines()[-1][:150], flush=True)
            if r.returncode:
                print(r.stdout[-1500:], flush=True)
            inc = [l for l in r.stdout.splitlines() if "incomplete" in l.lower() or "unsupported" in l.lower()]
            if inc:
                print("   ", "\n    ".join(l[:300] for l in inc[:5]), flush=True)
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    main()
