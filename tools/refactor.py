#!/usr/bin/env python3
"""dev helper: refactor.py [--only ID,ID]  - applies behaviour-preserving edits (tools/refactors/*.py) to copies of /repo
and runs the named checks against them, which have to stay quiet."""
import glob, importlib.util, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
V = os.environ.get("VDIR", "/verif")
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", LANG="C.UTF-8")


def sh(cmd, cwd=None, env=None, timeout=1500):
    r = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors="replace")
    return r.returncode, r.stdout


def main():
    only = next((a.split("=", 1)[1].split(",") for a in sys.argv if a.startswith("--only=")), None)
    for f in sorted(glob.glob("/verif/tools/refactors/*.py")):
        sp = importlib.util.spec_from_file_location("r", f)
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        for rid, props, edits in m.R:
            if only and rid not in only:
                continue
            d = tempfile.mkdtemp(prefix="refac")
            try:
                sh(["git", "clone", "-q", "/repo", d + "/r"])
                bad = None
                for fn, old, new in edits:
                    p = "%s/r/py/docria/%s" % (d, fn)
                    t = open(p).read()
                    if t.count(old) != 1:
                        bad = "EDIT matches %d times: %r" % (t.count(old), old)
                        break
                    open(p, "w").write(t.replace(old, new))
                if bad:
                    print(rid, bad, flush=True)
                    continue
                rc, out = sh(["/opt/venv/bin/python", "-m", "pytest", "tests", "-q", "-p", "no:cacheprovider"], cwd=d + "/r/py", env=dict(ENV, PYTHONPATH=d + "/r/py"))
                if rc:
                    print(rid, "TESTS FAIL", out[-700:], flush=True)
                    continue
                for p in props.split():
                    t0 = time.time()
                    rc, out = sh([V + "/check", p], env=dict(os.environ, SX_REPO_PY=d + "/r/py"))
                    print(rid, p, "quiet" if rc == 0 else "ALARM rc=%d" % rc, "%.0fs" % (time.time() - t0), flush=True)
                    inc = [l for l in out.splitlines() if "incomplete" in l.lower() or "UNSUPPORTED" in l or "error" in l.lower()]
                    if rc:
                        print(out[-1800:])
                    elif inc:
                        print("   ", "\n    ".join(inc[:6]))
            finally:
                shutil.rmtree(d)


main()
