"""Runs the jobs of one property: symbolic exploration, replay on the real code, evidence."""
import fcntl
import importlib
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_PY = os.environ.get("SX_REPO_PY", "/repo/py")
SITE = "/opt/venv/lib/python3.12/site-packages"


def setup_path():
    sys.dont_write_bytecode = True
    if SITE not in sys.path:
        sys.path.append(SITE)
    sys.path[:] = [p for p in sys.path if p != REPO_PY]
    sys.path.insert(0, REPO_PY)
    sys.setrecursionlimit(6000)


setup_path()
from . import core                                    # noqa: E402
from .core import (Ctx, Control, Abandon, CheckFailed, Unsupported, DepthLimit, Deadline, EngineError)  # noqa: E402
from .loader import World, RealWorld                  # noqa: E402
from .harness import SymH, RealH, ReplayAbandon, ReplayFailed, agree, plain, evaluate   # noqa: E402


class Hang(BaseException):
    pass


def _alarm(signum, frame):
    raise Hang()


class Job:
    def __init__(self, fn, params=None, wall=None, max_paths=1000000, replays=60, depth=4000, known=None):
        self.fn, self.params = fn, dict(params or {})
        self.wall, self.max_paths, self.replays, self.depth = wall, max_paths, replays, depth
        self.known = known

    @property
    def label(self):
        return self.fn + "(" + ",".join("%s=%s" % kv for kv in self.params.items()) + ")"


def extra_modules():
    d = os.path.join(ROOT, "checks")
    return {f[:-3]: os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".py")}


# -------------------------------------------------------------------------------------- concrete
def replay(real, modname, fn, params, values, limit=20):
    """Run a harness on the real code. -> (status, message, observed)"""
    if any(isinstance(v, int) and (1 << 26) < v < (1 << 34) for v in values.values()) and getattr(
            real.load(modname), "BIG", False):
        # gigabytes of data: one at a time
        with open(os.path.join(ROOT, "out", "big.lock"), "w") as f:
            fcntl.flock(f, fcntl.LOCK_EX)
            return replay1(real, modname, fn, params, values, 300)
    return replay1(real, modname, fn, params, values, limit)


def replay1(real, modname, fn, params, values, limit):
    h = RealH(real, values)
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        mod = real.load(modname)
        if hasattr(mod, "RESET"):
            mod.RESET(h)
        getattr(mod, fn)(h, **params)
        return "ok", "", h.observed
    except ReplayAbandon:
        return "abandon", "", h.observed
    except ReplayFailed as e:
        return "failed", e.msg, h.observed
    except Hang:
        return "failed", "does not terminate (no result after %d s)" % limit, h.observed
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = "%s:%d" % (os.path.basename(tb[-1].filename), tb[-1].lineno) if tb else "?"
        return "failed", "unexpected %s: %s (%s)" % (type(e).__name__, e, where), h.observed
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        h.cleanup()


# -------------------------------------------------------------------------------------- symbolic
WALL = {"quick": (240, 600), "thorough": (1800, 9000)}      # per job, per run


def run_job(world, real, modname, job, seed, end, verbose=False):
    t0 = time.time()
    deadline = min(t0 + job.wall, end)
    ctx = Ctx(seed=seed, max_depth=job.depth, deadline=deadline)
    core.set_ctx(ctx)
    res = {"job": job.label, "fn": job.fn, "params": job.params, "known": job.known, "paths": 0, "abandoned": 0,
           "replayed": 0, "disagreements": [], "violations": [], "unconfirmed": [], "unsupported": {},
           "complete": True, "stop": "", "samples": []}
    mod = None
    try:
        # the module itself may run code while loading
        ctx.start_path()
        mod = world.load(modname)
        while True:
            ctx.start_path()
            for r in world.stubs["__resets__"]:
                r()
            h = SymH(world, ctx)
            status, msg = "ok", ""
            old = signal.signal(signal.SIGALRM, _alarm)
            signal.setitimer(signal.ITIMER_REAL, max(1.0, deadline - time.time() + 5))
            try:
                if hasattr(mod, "RESET"):
                    mod.RESET(h)
                getattr(mod, job.fn)(h, **job.params)
            except Abandon:
                status = "abandon"
            except CheckFailed as e:
                status, msg = "cex", e.msg
            except Unsupported as e:
                status, msg = "unsupported", str(e)
            except DepthLimit:
                status, msg = "depth", "path too long"
            except Deadline:
                res["complete"], res["stop"] = False, "time"
                break
            except Hang:
                status, msg = "depth", "path does not finish"
            except EngineError as e:
                res["complete"], res["stop"] = False, "engine: %s" % e
                break
            except Exception as e:
                status = "cex"
                tb = traceback.extract_tb(e.__traceback__)
                fr = [f for f in tb if REPO_PY in f.filename or "/checks/" in f.filename]
                where = "%s:%d" % (os.path.basename(fr[-1].filename), fr[-1].lineno) if fr else "?"
                msg = "unexpected %s: %s (%s)" % (type(e).__name__, str(e)[:200], where)
                if verbose:
                    traceback.print_exc()
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
                signal.signal(signal.SIGALRM, old)
            try:
                if status != "abandon" and ctx.confirm_time < 2 + 0.3 * (time.time() - t0):
                    ctx.confirm()
                if status == "abandon":
                    res["abandoned"] += 1
                else:
                    res["paths"] += 1
                if status == "unsupported":
                    res["unsupported"][msg] = res["unsupported"].get(msg, 0) + 1
                if status in ("cex", "depth", "unsupported"):
                    vals = h.values()
                    st, m, _ = replay(real, modname, job.fn, job.params, vals)
                    res["replayed"] += 1
                    if st == "failed":
                        res["violations"].append({"values": vals, "msg": m, "symbolic": msg})
                        if job.known is None or len(res["violations"]) >= 1:
                            res["complete"], res["stop"] = False, "violation"
                            break
                    elif status == "cex":
                        res["unconfirmed"].append({"values": vals, "msg": msg, "replay": st})
                        if len(res["unconfirmed"]) > 20:
                            res["complete"], res["stop"] = False, "too many unconfirmed"
                            break
                    if status == "depth":
                        res["complete"] = False
                        res["stop"] = msg
                elif status == "ok" and (res["replayed"] < job.replays):
                    vals = h.values()
                    st, m, obs = replay(real, modname, job.fn, job.params, vals)
                    res["replayed"] += 1
                    if len(res["samples"]) < 2:
                        res["samples"].append(vals)
                    if st == "failed":
                        # the real code fails where the symbolic run passed
                        res["violations"].append({"values": vals, "msg": m, "symbolic": "(passed symbolically)"})
                        res["complete"], res["stop"] = False, "violation"
                        break
                    a = [(n, h.evaluate(v)) for n, v in h.observed]
                    b = [(n, plain(v)) for n, v in obs]
                    if st == "abandon" or len(a) != len(b) or not all(
                            x[0] == y[0] and agree(x[1], y[1]) for x, y in zip(a, b)):
                        if len(res["disagreements"]) < 5:
                            d = next(((x, y) for x, y in zip(a, b) if not (x[0] == y[0] and agree(x[1], y[1]))),
                                     (len(a), len(b)))
                            res["disagreements"].append({"values": vals, "status": st, "diff": repr(d)[:500]})
            except EngineError as e:
                res["complete"], res["stop"] = False, "engine: %s" % e
                break
            except Unsupported as e:
                res["unsupported"][str(e)] = res["unsupported"].get(str(e), 0) + 1
            if res["paths"] + res["abandoned"] >= job.max_paths:
                res["complete"], res["stop"] = False, "paths"
                break
            if time.time() > deadline:
                res["complete"], res["stop"] = False, "time"
                break
            try:
                if not ctx.backtrack():
                    break
            except Deadline:
                res["complete"], res["stop"] = False, "time"
                break
    except Control as e:
        res["complete"], res["stop"] = False, "control: %r" % (e,)
    except Exception as e:
        if verbose:
            traceback.print_exc()
        res["complete"], res["stop"] = False, "error: %s: %s" % (type(e).__name__, e)
        res["load_error"] = traceback.format_exc()
    core.set_ctx(None)
    res.update(queries=ctx.queries, solver_time=round(ctx.solver_time, 3), unknown=ctx.unknown,
               discharged=ctx.discharged, confirmed=ctx.confirmed, trivial=ctx.discharged_trivial, transitions=ctx.transitions,
               pins=len(ctx.pins), pin_reasons=sorted(set(ctx.pins))[:5], functions=sorted(ctx.functions),
               wall=round(time.time() - t0, 2))
    if res["unsupported"] or res["pins"] or res["unknown"]:
        res["complete"] = False
        res["stop"] = res["stop"] or "unsupported/pinned/unknown"
    return res


_W = None


def _worker(args):
    modname, job, seed, end = args
    global _W
    if _W is None:
        _W = (World(REPO_PY, extra_modules()), RealWorld(extra_modules()))
    r = run_job(_W[0], _W[1], modname, job, seed, end)
    if _cov_dump:
        _cov_dump()
    return r


def _coverage():
    """dev: with SX_COV=DIR, record the lines of the code under test that run"""
    seen = {}
    mon = sys.monitoring

    def line(code, ln):
        f = code.co_filename
        if f.startswith(REPO_PY):
            seen.setdefault(f, set()).add(ln)
        return mon.DISABLE
    mon.use_tool_id(3, "sxcov")
    mon.register_callback(3, mon.events.LINE, line)
    mon.set_events(3, mon.events.LINE)
    def dump():
        with open("%s/%s.%d" % (os.environ["SX_COV"], "cov", os.getpid()), "w") as o:
            for f, ls in seen.items():
                o.write("%s %s\n" % (f, ",".join(map(str, sorted(ls)))))
    global _cov_dump
    _cov_dump = dump


_cov_dump = None


def load_known():
    """Open entries of KNOWN_FINDINGS.txt: "open: id=<id> property=<id> <what fails>"."""
    out = []
    p = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                w = line.strip().split(" ", 3)
                if len(w) == 4 and w[0] == "open:":
                    out.append({"id": w[1][3:], "property": w[2][9:], "what": w[3]})
    return out


def main(argv):
    try:
        return main1(argv)
    finally:
        if os.environ.get("SX_JAVA_DIR"):
            from . import jvm
            jvm.clean()


def java(mod):
    if getattr(mod, "JAVA", False):
        from . import jvm
        jvm.prepare()


def main1(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", default=None, help="run only jobs whose label contains this")
    ap.add_argument("--replay", default=None, help="re-run a recorded counterexample on the real code")
    ap.add_argument("-j", type=int, default=int(os.environ.get("SX_JOBS", "8")))
    ap.add_argument("-v", action="store_true")
    ap.add_argument("-k", action="store_true", help="keep going after a violation")
    a = ap.parse_args(argv)
    prop = a.prop.upper()
    modname = prop.lower()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    if os.environ.get("SX_COV"):
        _coverage()
    real = RealWorld(extra_modules())
    if a.replay:
        with open(a.replay) as f:
            d = json.load(f)
        java(real.load(d["module"]))
        st, m, _ = replay(real, d["module"], d["fn"], d["params"], d["values"], 60)
        print("replay %s: %s %s" % (d["job"], st, m))
        return 1 if st == "failed" else 0
    try:
        mod = real.load(modname)
        jobs = mod.JOBS(a.tier)
        java(mod)
    except Exception:
        # the code under test cannot even be imported
        traceback.print_exc()
        return 2
    jobs = [Job(*j[:2], **(j[2] if len(j) > 2 else {})) for j in jobs]
    if a.only:
        jobs = [j for j in jobs if a.only in j.label]
    # longest first is not known: keep the given order
    wall, budget = WALL["quick" if a.tier == "quick" else "thorough"]
    end = t0 + float(os.environ.get("SX_BUDGET", budget))
    for j in jobs:
        if j.wall is None:
            j.wall = wall
    args = [(modname, j, seed, end) for j in jobs]
    results = []
    stopped = False
    if a.j <= 1 or len(jobs) == 1:
        w = World(REPO_PY, extra_modules())
        for x in args:
            r = run_job(w, real, modname, x[1], seed, end, a.v)
            results.append(r)
            report(r, a.v)
    else:
        mp = multiprocessing.get_context("fork")
        with mp.Pool(min(a.j, len(jobs))) as pool:
            for r in pool.imap_unordered(_worker, args):
                results.append(r)
                report(r, a.v)
                if r["violations"] and r["known"] is None and not a.k:
                    stopped = True
                    break
            pool.terminate()
    return finish(prop, modname, a, seed, mod, jobs, results, t0, stopped)


def report(r, v):
    if v:
        print("%-60s paths=%d ab=%d q=%d st=%.1fs disch=%d triv=%d conf=%d repl=%d wall=%.1f %s%s%s" % (
            r["job"], r["paths"], r["abandoned"], r["queries"], r["solver_time"], r["discharged"], r["trivial"], r["confirmed"],
            r["replayed"], r["wall"], "complete" if r["complete"] else "INCOMPLETE(%s)" % r["stop"],
            " unsup=%s" % r["unsupported"] if r["unsupported"] else "",
            " pins=%s" % r["pin_reasons"] if r["pins"] else ""), flush=True)
        for d in r["disagreements"][:2]:
            print("   DISAGREE", d)
        for d in r["unconfirmed"][:3]:
            print("   UNCONFIRMED", d)
        for d in r["violations"][:3]:
            print("   VIOLATION", d)
        if r.get("load_error"):
            print(r["load_error"])


def finish(prop, modname, a, seed, mod, jobs, results, t0, stopped):
    out_dir = os.path.join(ROOT, "out")
    os.makedirs(out_dir, exist_ok=True)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    known = {k["id"]: k for k in load_known() if k.get("property") == prop}
    rc = 0
    n = 0
    vio = []
    known_hit = set()
    for r in results:
        for v in r["violations"]:
            rec = {"property": prop, "module": modname, "fn": r["fn"], "params": r["params"], "job": r["job"],
                   "values": v["values"], "message": v["msg"], "symbolic_message": v["symbolic"]}
            if r["known"] is not None and r["known"] in known:
                if r["known"] not in known_hit:
                    known_hit.add(r["known"])
                    print("KNOWN-FINDING: property=%s %s" % (prop, known[r["known"]]["what"]))
                continue
            path = os.path.join(out_dir, "%s-%d.json" % (prop, n))
            n += 1
            with open(path, "w") as f:
                json.dump(rec, f, indent=1)
            print("%s: %s with %s" % (r["job"], v["msg"], json.dumps(v["values"])[:1500]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
            vio.append({"job": r["job"], "message": v["msg"], "replay": path, "values": v["values"]})
            rc = 1
    errs = [r for r in results if r.get("load_error")]
    for r in results:
        for u in r["unconfirmed"][:2]:
            print("note: unconfirmed symbolic counterexample in %s: %s" % (r["job"], u["msg"]))
        for d in r["disagreements"][:1]:
            print("note: symbolic run and real code differ in %s: %s" % (r["job"], d["diff"]))
        if not r["complete"] and r["stop"] != "violation":
            print("note: %s not exhaustive (%s%s)" % (r["job"], r["stop"],
                                                     " " + json.dumps(r["unsupported"]) if r["unsupported"] else ""))
    for r in errs:
        print(r["load_error"], file=sys.stderr)
    funcs = sorted({f for r in results for f in r["functions"]})
    tot = lambda k: sum(r[k] for r in results)
    wall = round(time.time() - t0, 2)
    complete = [r["job"] for r in results if r["complete"]]
    ev = {
        "property": prop, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": seed,
        "level": "model_checking",
        "technique": "symbolic execution of the source with an SMT solver (z3)",
        "wall_s": wall,
        "violations": len(vio),
        "violation_details": vio,
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "coverage": {
            "states": max(1, tot("paths")), "transitions": max(1, tot("transitions")),
            "traces_validated_against_impl": tot("replayed"),
            "samples": [s for r in results for s in r["samples"][:1]][:6] or [{}],
            "jobs": len(jobs), "jobs_finished": len(results), "jobs_exhaustive": len(complete),
            "jobs_not_exhaustive": [{"job": r["job"], "why": r["stop"], "unsupported": r["unsupported"]}
                                    for r in results if not r["complete"]][:40],
            "infeasible_paths": tot("abandoned"),
            "solver_queries": tot("queries"), "solver_time_s": round(tot("solver_time"), 2),
            "assertions_discharged_by_solver": tot("discharged"),
            "assertions_decided_by_propagation": tot("trivial"),
            "propagated_conditions_confirmed_by_solver": tot("confirmed"),
            "solver_unknown": tot("unknown"),
            "functions_encoded": funcs,
            "bounds": getattr(mod, "BOUNDS", {}).get(a.tier, getattr(mod, "BOUNDS", {})),
            "outside": getattr(mod, "OUTSIDE", ""),
            "unconfirmed_counterexamples": sum(len(r["unconfirmed"]) for r in results),
            "model_disagreements": sum(len(r["disagreements"]) for r in results),
            "known_findings_reproduced": sorted(known_hit),
            "per_job": [{"job": r["job"], "paths": r["paths"], "queries": r["queries"],
                         "solver_time_s": r["solver_time"], "discharged": r["discharged"], "wall_s": r["wall"],
                         "complete": r["complete"]} for r in sorted(results, key=lambda r: r["job"])][:300],
        },
    }
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d jobs (%d exhaustive), %d paths, %d queries (%.1f s solver), %d assertions discharged, "
          "%d replays, %.1f s" % (prop, a.tier, len(results), len(complete), tot("paths"), tot("queries"),
                                  tot("solver_time"), tot("discharged"), tot("replayed"), wall))
    if rc == 0 and errs:
        return 2
    return rc


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
