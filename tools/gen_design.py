"""Writes /verif/DESIGN.md: fixed text, and per property what its check module declares (bounds, what is outside) and
which planted changes it catches (tools/caught.txt, written by seed.py --check)."""
import importlib, json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [root, os.path.join(root, "checks")]
sys.dont_write_bytecode = True

HEAD = open(os.path.join(root, "tools/design_head.md")).read()
TAIL = open(os.path.join(root, "tools/design_tail.md")).read()
HOW = {}
cur = None
for l in open(os.path.join(root, "tools/design_how.md")):
    if l.startswith("# "):
        cur = l[2:].strip()
        HOW[cur] = ""
    elif cur:
        HOW[cur] += l
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
caught = {}
p = os.path.join(root, "tools/caught.txt")
if os.path.exists(p):
    for l in open(p):
        w = l.split(" ", 1)
        caught[w[0]] = w[1].strip()
out = [HEAD.rstrip(), "", "## Per property", ""]
for p in props:
    i = p["id"]
    out += ["### %s - %s" % (i, p["title"]), ""]
    f = os.path.join(root, "checks", i.lower() + ".py")
    if not os.path.exists(f):
        continue
    mod = importlib.import_module(i.lower())
    out += [HOW.get(i, "").strip(), "",
            "* Quick bounds: %s." % mod.BOUNDS["quick"],
            "* Thorough: %s." % mod.BOUNDS["thorough"],
            "* Outside: %s." % mod.OUTSIDE.rstrip(".")]
    if mod.ASSUMPTIONS:
        out.append("* Assumed: %s" % " ".join(mod.ASSUMPTIONS))
    seeds = sorted(s for s in os.listdir(os.path.join(root, "seeded"))
                   if json.load(open("%s/seeded/%s/meta.json" % (root, s)))["property"] == i)
    if seeds:
        out.append("* Planted changes: %s." % ", ".join("%s (%s)" % (s, caught.get(s, "caught").lower()) for s in seeds))
    out.append("")
out.append(TAIL.rstrip())
open(os.path.join(root, "DESIGN.md"), "w").write("\n".join(out) + "\n")
