"""dev helper: seed.py [--check] [--only ID,ID]  - builds /verif/seeded/<id>/ from tools/seeds/*.py, confirming each one:
patch applies, touches only original lines, builds, passes the tests, demo passes without and fails with it.
--check also runs the property's quick check on the patched copy and prints caught/missed."""
import glob, importlib.util, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

V = "/verif"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", LANG="C.UTF-8")
ENV.pop("PYTHONPATH", None)


def sh(cmd, cwd=None, env=None, timeout=900):
    r = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       timeout=timeout, errors="replace")
    return r.returncode, r.stdout


JAVA_DEMO = """#!/bin/bash
# run with cwd /repo; fastutil and msgpack-java are replaced by the stand-ins in lib
here="$(cd "$(dirname "$0")" && pwd)"
d="$(mktemp -d)"
trap 'rm -rf "$d"' EXIT
javac -source 8 -target 8 -nowarn -Xlint:none -encoding UTF-8 -d "$d" $(find java/core/src/main/java "$here/lib" -name '*.java') "$here/Demo.java" 2>"$d/log" \\
  || { cat "$d/log"; exit 0; }
timeout 60 java -ea -cp "$d" Demo
"""


def place(f):
    return "java/core/src/main/java/se/lth/cs/docria/" + f if f.endswith(".java") else "py/docria/" + f


def specs():
    for f in sorted(glob.glob(V + "/tools/seeds/*.py")):
        sp = importlib.util.spec_from_file_location("s", f)
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        yield from m.SEEDS


def one(s, check):
    d = tempfile.mkdtemp(prefix="seed")
    try:
        sh(["git", "clone", "-q", "/repo", d + "/r"])
        r = d + "/r"
        for f, old, new in s["edits"]:
            p = "%s/%s" % (r, place(f))
            t = open(p).read()
            if t.count(old) != 1:
                return s["id"], "EDIT matches %d times: %r" % (t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        # only original lines may be removed
        _, df = sh(["git", "diff", "-U0"], cwd=r)
        for f in {e[0] for e in s["edits"]}:
            base = set(sh(["git", "show", "99d48bd:" + place(f)], cwd=r)[1].splitlines())
            cur, inf = [], False
            for l in df.splitlines():
                if l.startswith("--- "):
                    inf = l.endswith("/" + f)
                elif inf and l.startswith("-"):
                    cur.append(l[1:])
            for l in cur:
                if l not in base:
                    return s["id"], "not an original line: %r" % l
        _, diff = sh(["git", "diff"], cwd=r)
        env = dict(ENV, PYTHONPATH=r + "/py")
        rc, out = sh(["/opt/venv/bin/python", "-m", "pytest", "tests", "-q", "-p", "no:cacheprovider"], cwd=r + "/py", env=env)
        if rc:
            return s["id"], "TESTS FAIL " + out[-400:]
        o = "%s/seeded/%s" % (V, s["id"])
        if os.path.isdir(o):
            shutil.rmtree(o)
        os.makedirs(o)
        open(o + "/patch.diff", "w").write(diff)
        if s["demo"].lstrip().startswith(("import java", "import se", "/*", "package", "//")):
            open(o + "/Demo.java", "w").write(s["demo"].lstrip("\n"))
            for lib in ("it", "org"):
                shutil.copytree(V + "/java/" + lib, o + "/lib/" + lib)
            open(o + "/demo.sh", "w").write(JAVA_DEMO)
        else:
            open(o + "/demo.py", "w").write(s["demo"].lstrip("\n"))
            open(o + "/demo.sh", "w").write("#!/bin/bash\n# run with cwd /repo\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$PWD/py exec /opt/venv/bin/python \"$(dirname \"$0\")/demo.py\"\n")
        os.chmod(o + "/demo.sh", 0o755)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(o + "/meta.json", "w"), indent=1)
        rc, out = sh(["bash", o + "/demo.sh"], cwd="/repo", timeout=300)
        if rc:
            return s["id"], "DEMO FAILS ON CLEAN: " + out[-600:]
        rc2, out = sh(["bash", o + "/demo.sh"], cwd=r, timeout=300)
        if not rc2:
            return s["id"], "DEMO PASSES ON PATCHED"
        res = "ok"
        if check:
            rc, out = sh([V + "/check", s["prop"]], env=dict(os.environ, SX_REPO_PY=r + "/py"), timeout=2000)
            lines = [l for l in out.splitlines() if l.strip()]
            v = [i for i, l in enumerate(lines) if l.startswith("VIOLATION property=" + s["prop"])]
            res = ("CAUGHT " + lines[v[0] - 1][:110]) if rc == 1 and v else "MISSED rc=%d %s" % (rc, lines[-1][:150] if lines else "")
        return s["id"], res
    except Exception as e:
        return s["id"], "ERR %r" % e
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    check = "--check" in sys.argv
    only = None
    for a in sys.argv[1:]:
        if a.startswith("--only="):
            only = set(a[7:].split(","))
    L = [s for s in specs() if not only or s["id"] in only or s["prop"] in only]
    with ThreadPoolExecutor(1 if check else 6) as ex:
        for i, r in ex.map(lambda s: one(s, check), L):
            print(i, r, flush=True)


main()
