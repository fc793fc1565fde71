"""Common driver of the checks: parallel tasks, verdicts, replay files, known findings, evidence."""
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, "evidence")


class TaskTimeout(BaseException):
    pass


class Rec:
    """what one task found.  obligations: list of dict(name, status, by, time); violations: list of dict;
    bounded: number of native cases run; notes"""
    def __init__(self, task):
        self.task = task
        self.obligations = []
        self.violations = []
        self.bounded = 0
        self.bounded_for = []
        self.nontrivial = 0
        self.functions = set()
        self.assumed = set()
        self.notes = []
        self.samples = []
        self.wall = 0.0

    def ob(self, name, status, by="z3", t=0.0):
        self.obligations.append({"name": name, "status": status, "by": by, "time": t})

    def violation(self, what, replay, confirmed=True, key=None):
        self.violations.append({"what": what, "replay": replay, "confirmed": confirmed, "key": key or what})


_JOB = {}


def _run(i):
    fn, task, limit = _JOB["fn"], _JOB["tasks"][i], _JOB["limit"]
    rec = Rec(str(task))
    t = time.time()

    def alarm(*a):
        raise TaskTimeout()
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(int(limit))
    try:
        fn(task, rec)
    except TaskTimeout:
        rec.notes.append("task timed out after %ds" % limit)
        rec.ob("%s (whole task)" % (task,), "undecided", "timeout")
    except Exception as e:          # noqa: B902
        rec.notes.append("engine error: %r" % e)
        rec.crash = traceback.format_exc()
        rec.ob("%s (whole task)" % (task,), "undecided", "engine error")
    finally:
        signal.alarm(0)
    rec.wall = time.time() - t
    return rec


def known_findings():
    out = []
    try:
        with open(os.path.join(VERIF, "known_findings.txt")) as f:
            for line in f:
                line = line.strip()
                if line.startswith("finding: "):
                    out.append(line[len("finding: "):])
    except OSError:
        pass
    return out


def is_known(prop, key):
    """the listed finding this violation is an instance of, or None.  Line format:
    property=<id> key=<prefix> :: <description>"""
    for f in known_findings():
        head, _, desc = f.partition(" :: ")
        d = dict(p.split("=", 1) for p in head.split(" ") if "=" in p)
        if d.get("property") == prop and d.get("key") and d["key"] == key:
            return f
    return None


def main(prop, tasks, fn, level="proof", limit=240, budget=780, trusted=(), assumptions=(), finish=None, checker=""):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    recs = []
    tasks = list(tasks)
    ctx = mp.get_context("fork")
    _JOB.update(fn=fn, tasks=tasks, limit=limit)
    nproc = min(8, os.cpu_count() or 8, max(1, len(tasks)))
    pool = ctx.Pool(nproc, maxtasksperchild=20)
    it = pool.imap_unordered(_run, range(len(tasks)))
    try:
        for _ in tasks:
            left = budget - (time.time() - t0)
            if left <= 0:
                break
            try:
                recs.append(it.next(timeout=left))
            except mp.TimeoutError:
                break
        else:
            pool.close()
    finally:
        pool.terminate()
        pool.join()
    missing = len(tasks) - len(recs)
    recs.sort(key=lambda r: r.task)
    if finish is not None:
        recs.append(finish(recs))
    return report(prop, tier, seed, recs, missing, level, t0, trusted, assumptions, checker)


def report(prop, tier, seed, recs, missing, level, t0, trusted, assumptions, checker):
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    obs = [o for r in recs for o in r.obligations]
    done = [o for o in obs if o["status"] == "discharged"]
    und = [o for o in obs if o["status"] not in ("discharged", "failed")]
    viol, known = [], {}
    for r in recs:
        for v in r.violations:
            k = is_known(prop, v["key"])
            if k:
                known.setdefault(k, []).append(v)
            else:
                viol.append((r, v))
    viol.sort(key=lambda x: not x[1]["confirmed"])
    if viol and viol[0][1]["confirmed"]:
        # a failing input was found: the obligations that fail without one are listed, not reported
        for r, v in viol:
            if not v["confirmed"]:
                print("  (also failed: %s: %s)" % (r.task, v["what"][:200]))
        viol = [x for x in viol if x[1]["confirmed"]]
    n = 0
    lines = []
    seenkeys = set()
    for r, v in viol:
        if v["key"] in seenkeys:
            continue
        seenkeys.add(v["key"])
        n += 1
        if n > 20:
            break
        path = os.path.join(EVID, "replay", "%s-%d.json" % (prop, n))
        with open(path, "w") as f:
            json.dump({"property": prop, "task": r.task, "what": v["what"], "confirmed_on_real_code": v["confirmed"], "replay": v["replay"]}, f, indent=1, default=repr)
        lines.append("VIOLATION property=%s replay=%s%s" % (prop, path, "" if v["confirmed"] else " no-failing-input-found"))
        print("  %s: %s" % (r.task, v["what"]))
    byc = {}
    for o in done:
        byc[o["by"]] = byc.get(o["by"], 0) + 1
    cov = {
        "obligations": len(obs) - 0,
        "discharged": len(done),
        "checker_cmd": checker or "python3-vt /verif/checks/run.py %s" % prop,
        "trusted_base": list(trusted) + ["pyvc VC generator (/verif/pyvc)", "z3 4.x / cvc5 1.1", "CPython 3.12 running the replays"],
        "discharged_by": byc,
        "solver_time_s": round(sum(o["time"] for o in obs), 1),
        "undecided": [o["name"] + " [" + o["by"] + "]" for o in und][:60],
        "undecided_count": len(und),
        "functions_under_contract": sorted(set().union(*[r.functions for r in recs]) if recs else []),
        "bounded_native_cases": sum(r.bounded for r in recs),
        "bounded_nontrivial": sum(r.nontrivial for r in recs),
        "bounded_for": sorted(set(x for r in recs for x in r.bounded_for))[:200],
        "tasks": len(recs),
        "tasks_without_answer": missing,
        "samples": [s for r in recs for s in r.samples][:12],
        "notes": sorted(set(n for r in recs for n in r.notes))[:40],
        "known_findings_seen": len(known),
    }
    assumed = sorted(set().union(*[r.assumed for r in recs]) if recs else [])
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": list(assumptions) + ["assumed library contract: " + a for a in assumed],
          "wall_s": round(time.time() - t0, 1), "violations": len(lines)}
    with open(os.path.join(EVID, "%s.json" % prop), "w") as f:
        json.dump(ev, f, indent=1, default=repr)
    for k, vs in known.items():
        print("KNOWN-FINDING: property=%s %s" % (prop, k.partition(" :: ")[2]))
    for x in lines:
        print(x)
    for r in recs:
        if getattr(r, "crash", None):
            sys.stderr.write("[%s] %s\n%s\n" % (prop, r.task, r.crash))
    print("%s: %d obligations, %d discharged, %d undecided, %d bounded native cases, %d violations, %.0fs" % (
        prop, len(obs), len(done), len(und), cov["bounded_native_cases"], len(lines), time.time() - t0))
    sys.stdout.flush()
    if lines:
        return 1
    if not obs and not cov["bounded_native_cases"]:
        print("%s: nothing was checked" % prop)
        return 2
    return 0
