"""dev helper: mut.py CNN FILE OLD NEW [check args]  - runs a check against a copy of /repo with one replacement"""
import os, shutil, subprocess, sys, tempfile
cid, f, old, new = sys.argv[1:5]
d = tempfile.mkdtemp(prefix="mut")
try:
    shutil.copytree("/repo/py", d + "/py")
    p = d + "/py/docria/" + f
    s = open(p).read()
    old, new = old.encode().decode("unicode_escape"), new.encode().decode("unicode_escape")
    if s.count(old) < 1:
        sys.exit("NOT FOUND: " + old)
    s = s.replace(old, new, 1)
    open(p, "w").write(s)
    env = dict(os.environ, SX_REPO_PY=d + "/py")
    r = subprocess.run(["/verif/check", cid] + sys.argv[5:], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    out = [l for l in r.stdout.splitlines() if l.strip()]
    v = [i for i, l in enumerate(out) if l.startswith("VIOLATION")]
    print("exit", r.returncode, "|", (out[v[0] - 1] if v else "")[:200], "|", out[-1][:150])
finally:
    shutil.rmtree(d)
