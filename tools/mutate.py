#!/usr/bin/env python3
"""dev helper: mutate.py OUT N WORKERS [SEED] [FILE ...]  - small syntactic changes to a copy of the code under test; those that pass the
repository's tests are given to every check that runs the changed line (coverage in /tmp/cov/CNN/), cheapest first, until
one reports a violation.  Survivors are for a person to judge (equivalent, outside every property, or missed)."""
import ast, glob, json, os, random, re, shutil, subprocess, sys, time, threading, queue
V = os.environ.get("VDIR", "/verif")
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", LANG="C.UTF-8")
FILES = ["model", "codec", "collection", "algorithm", "query", "printout"]
SRC = "/repo/py/docria/"


def seg(src, lines, n):
    def off(l, c):
        return sum(len(x) for x in lines[:l - 1]) + len(lines[l - 1].encode()[:c].decode())
    return off(n.lineno, n.col_offset), off(n.end_lineno, n.end_col_offset)


CMP = {ast.Lt: ["<="], ast.LtE: ["<"], ast.Gt: [">="], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"],
       ast.In: ["not in"], ast.NotIn: ["in"]}


def mutants(f):
    src = open(SRC + f + ".py").read()
    lines = src.splitlines(True)
    tree = ast.parse(src)
    out = []

    def add(n, new, kind):
        a, b = seg(src, lines, n)
        s = src[:a] + new + src[b:]
        try:
            ast.parse(s)
        except SyntaxError:
            return
        out.append((f, n.lineno, kind, src[a:b], new, s))
    infn = set()
    for fn in ast.walk(tree):
        if isinstance(fn, (ast.FunctionDef,)):
            for x in ast.walk(fn):
                infn.add(id(x))
    docs = set()
    for x in ast.walk(tree):
        if isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant):
            docs.add(id(x)); docs.add(id(x.value))
    inassertmsg = set()
    for x in ast.walk(tree):
        if isinstance(x, ast.Assert) and x.msg is not None:
            inassertmsg |= {id(y) for y in ast.walk(x.msg)}
        if isinstance(x, ast.Raise) and x.exc is not None:
            inassertmsg |= {id(y) for y in ast.walk(x.exc)}
    for n in ast.walk(tree):
        if id(n) not in infn or id(n) in docs or id(n) in inassertmsg:
            continue
        u = ast.unparse
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                add(n, "%s %s %s" % (u(n.left), o, u(n.comparators[0])), "cmp")
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)) and not isinstance(n.left, ast.Constant):
            add(n, "(%s %s %s)" % (u(n.left), "-" if isinstance(n.op, ast.Add) else "+", u(n.right)), "arith")
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            add(n, repr(not n.value), "bool")
        elif isinstance(n, ast.Constant) and type(n.value) is int:
            add(n, repr(n.value + 1), "const")
            if n.value > 0:
                add(n, repr(n.value - 1), "const")
        elif isinstance(n, ast.BoolOp):
            for k in range(len(n.values)):
                rest = [v for i, v in enumerate(n.values) if i != k]
                add(n, "(" + (" and " if isinstance(n.op, ast.And) else " or ").join("(%s)" % u(v) for v in rest) + ")", "drop-operand")
            add(n, "(" + (" or " if isinstance(n.op, ast.And) else " and ").join("(%s)" % u(v) for v in n.values) + ")", "andor")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, "(%s)" % u(n.operand), "not")
        elif isinstance(n, ast.IfExp):
            add(n, "(%s)" % u(n.body), "ifexp")
            add(n, "(%s)" % u(n.orelse), "ifexp")
        elif isinstance(n, ast.If):
            add(n.test, "True", "if-true")
            add(n.test, "False", "if-false")
        elif isinstance(n, ast.Slice):
            if n.lower is not None and n.upper is not None:
                add(n, u(n.lower) + ":", "slice")
                add(n, ":" + u(n.upper), "slice")
        elif isinstance(n, (ast.Expr, ast.AugAssign, ast.Assert, ast.Raise, ast.Delete)):
            if not (isinstance(n, ast.Expr) and isinstance(n.value, (ast.Yield, ast.YieldFrom))):
                add(n, "pass", "delete")
        elif isinstance(n, ast.Assign) and all(isinstance(t, (ast.Attribute, ast.Subscript)) for t in n.targets):
            add(n, "pass", "delete")
        elif isinstance(n, ast.Continue):
            add(n, "break", "flow")
        elif isinstance(n, ast.Break):
            add(n, "continue", "flow")
        elif isinstance(n, ast.Call):
            fnm = u(n.func)
            if len(n.args) == 2 and not n.keywords and not any(isinstance(a, ast.Starred) for a in n.args) and fnm not in ("isinstance", "getattr"):
                add(n, "%s(%s, %s)" % (fnm, u(n.args[1]), u(n.args[0])), "swap-args")
            if fnm in ("sorted", "list", "set", "dict", "tuple", "reversed") and len(n.args) == 1 and not n.keywords:
                add(n, "(%s)" % u(n.args[0]), "unwrap")
            if n.keywords and len(n.keywords) >= 1 and n.keywords[-1].arg:
                m = ast.Call(n.func, n.args, n.keywords[:-1])
                add(n, u(m), "drop-kw")
        elif isinstance(n, (ast.Subscript,)) and isinstance(n.slice, ast.UnaryOp):
            pass
    return out


def coverage():
    cov = {}
    for d in glob.glob("/tmp/cov/C*"):
        c = os.path.basename(d)
        for f in glob.glob(d + "/cov.*"):
            for l in open(f):
                p, ls = l.split(" ", 1)
                b = os.path.basename(p)[:-3]
                for x in ls.split(","):
                    cov.setdefault((b, int(x)), set()).add(c)
    return cov


def walls():
    w = {}
    for f in glob.glob(V + "/evidence/C*.json"):
        try:
            d = json.load(open(f))
            w[os.path.basename(f)[:-5]] = float(d.get("wall_s") or d.get("seconds") or d.get("wall") or 30)
        except Exception:
            pass
    return w


def main():
    out, n, workers = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    seed = int(sys.argv[4]) if len(sys.argv) > 4 else 1
    files = sys.argv[5:] or FILES
    cov, w = coverage(), walls()
    ms = []
    for f in files:
        ms += mutants(f)
    ms = [m for m in ms if any((m[0], l) in cov for l in range(m[1], m[1] + 1))]
    done = set()
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l)
            done.add((d["file"], d["line"], d["old"], d["new"]))
    random.Random(seed).shuffle(ms)
    ms = [m for m in ms if (m[0], m[1], m[3], m[4]) not in done][:n]
    q = queue.Queue()
    for m in ms:
        q.put(m)
    lock = threading.Lock()
    print(len(ms), "mutants", flush=True)

    def work(k):
        base = "/tmp/mutw%d" % k
        shutil.rmtree(base, ignore_errors=True)
        os.makedirs(base)
        shutil.copytree("/repo/py", base + "/py", ignore=shutil.ignore_patterns(".git", "docs"))
        shutil.copytree(V, base + "/v", ignore=shutil.ignore_patterns(".git", "seeded", "out"))
        env = dict(ENV, SX_REPO_PY=base + "/py")
        while True:
            try:
                f, ln, kind, old, new, s = q.get_nowait()
            except queue.Empty:
                break
            p = base + "/py/docria/%s.py" % f
            orig = open(p).read()
            open(p, "w").write(s)
            rec = {"file": f, "line": ln, "kind": kind, "old": old, "new": new}
            try:
                try:
                    r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=base + "/py",
                                       env=dict(env, PYTHONPATH=base + "/py"), capture_output=True, text=True, timeout=60)
                    ok = r.returncode == 0
                except subprocess.TimeoutExpired:
                    ok = False
                if not ok:
                    rec["res"] = "tests"
                else:
                    cs = sorted(cov.get((f, ln), ()), key=lambda c: w.get(c, 30))
                    rec["res"], rec["checks"], rec["other"] = "SURVIVED", cs, []
                    for c in cs:
                        try:
                            r = subprocess.run(["./check", c, "-j", str(max(1, 8 // workers))], cwd=base + "/v", env=dict(env, SX_BUDGET="300"), capture_output=True, text=True, timeout=700)
                        except subprocess.TimeoutExpired:
                            rec["other"].append((c, "timeout"))
                            continue
                        if r.returncode == 1 and "VIOLATION property=" in r.stdout:
                            rec["res"], rec["by"] = "caught", c
                            break
                        if r.returncode != 0:
                            rec["other"].append((c, r.returncode))
            finally:
                open(p, "w").write(orig)
            with lock:
                with open(out, "a") as o:
                    o.write(json.dumps(rec) + "\n")
        shutil.rmtree(base, ignore_errors=True)
    ts = [threading.Thread(target=work, args=(k,)) for k in range(workers)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


main()
