"""C05: deprecated commands only warn, removed commands always fail."""
import os
import random
import warnings

from pyvc import cmds, compare, concrete, runner
from pyvc import interp as I
from pyvc.compare import Ob, discharge, visible
from pyvc.values import *          # noqa: F401,F403

FRAME_OK = ("lineno", "currentLine", "currentCmd", "seen")


def status(mod, cn):
    from ksspec.base import get_class, DeprecatedCommand, RemovedCommand
    k = get_class(mod, cn)
    return "removed" if issubclass(k, RemovedCommand) else "deprecated" if issubclass(k, DeprecatedCommand) else "active"


def tasks():
    out = []
    for g in cmds.groups():
        st = status(*g["spec"])
        if st != "active":
            out.append((g["alias"], g["versions"][0], st, g["real"].__name__ if g["real"] else "missing", tuple(g["versions"])))
    return out


def mentions(rope, part):
    if isinstance(rope, str):
        return isinstance(part, str) and part in rope
    if not isinstance(rope, SStr):
        return False
    return any((isinstance(part, str) and isinstance(p, str) and part in p) or (not isinstance(part, str) and isinstance(p, IntS) and p.z.eq(part))
               for p in rope.parts)


def proof(version, alias, st_, label, rec):
    c = cmds.Ctx(version, alias, seen=True, havoc=compare.havoc_prior)
    ip = c.ip
    ip.trace_warn = True
    st = c.st.fork()
    href = ip.lift(c.handler)
    args = ip.new(st, HList((Item(True, alias),) + tuple(ip.sym_items)))
    before = {}
    res, rs = c._call(st, I.Bound(type(c.handler).dispatcher, href), [args, SInt(c.L)])
    obs = []
    for s, e in rs:
        for g, x in (e.alts if isinstance(e, SUnion) else ((True, e),)):
            k = ip.exc_class(s, x)
            h = ip.get(s, x)
            if st_ == "deprecated":
                obs.append(Ob("a deprecated command never fails", And(g, *s.pc)))
            elif k.__name__ != "KickstartParseError":
                obs.append(Ob("fails with a parse error", And(g, *s.pc)))
            else:
                obs.append(Ob("the parse error carries the line number", And(g, Not(ip.eq(s, h.attrs.get("lineno", ABSENT), SInt(c.L))), *s.pc)))
    if st_ == "removed":
        obs.append(Ob("never succeeds", Or(*[And(*s.pc) for s, _ in res])))
    else:
        for s, v in res:
            pc = And(*s.pc)
            w = [e for e in s.trace if e[0] == "warn"]
            good = len(w) == 1 and w[0][1] == "KickstartDeprecationWarning"
            obs.append(Ob("exactly one deprecation warning", False if good else pc))
            ok = good and mentions(w[0][2], alias) and mentions(w[0][2], c.L)
            obs.append(Ob("the warning names the command and its line", False if ok else pc))
            # frame: nothing else changes anywhere
            bad = []
            for rid, h in s.heap.items():
                if rid == args.id or rid not in ip.base:
                    continue
                b = ip.base[rid]
                if isinstance(h, HInst):
                    for k in set(h.attrs) | set(b.attrs):
                        if k in FRAME_OK:
                            continue
                        x, y = h.attrs.get(k, ABSENT), b.attrs.get(k, ABSENT)
                        if not same(x, y):
                            bad.append(Not(ip.eq_abs(s, x, y)))
                elif h is not b and getattr(h, "items", None) is not None and h.items != b.items:
                    bad.append(True)
                elif isinstance(h, HDict) and h.d != b.d:
                    bad.append(True)
            obs.append(Ob("no stored data changes", And(pc, Or(*bad)) if bad else False))
            r2, x2 = c.render(s, c.ref)
            obs.append(Ob("rendering never fails", Or(*[And(*z.pc) for z, _ in x2])))
            for s2, t in r2:
                obs.append(Ob("adds nothing to the output", And(Not(ip.eq(s2, t, "")), *s2.pc)))
    discharge(ip, obs)
    failed = []
    for o in obs:
        x = {"unsat": "discharged", "sat": "failed"}.get(o.status, "undecided")
        rec.ob("%s: %s" % (label, o.name), x, o.by, o.time)
        if x == "failed":
            failed.append(o)
    rec.functions |= {f for f in ip.inlined if f.startswith("pykickstart")}
    rec.assumed |= ip.assumed
    return failed


def native(version, alias, st_, argv, lineno):
    """None or a description of the problem, on a fresh handler of the real code"""
    h = cmds.real_handler(version)
    if alias not in h.commands:
        return None if st_ == "removed" else "the command is unknown"
    before = {n: concrete.state_of(o) for n, o in h.commands.items() if o is not None}
    text = str(h)
    h.currentLine = " ".join([alias] + argv)
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        try:
            h.dispatcher([alias] + argv, lineno)
            exc = None
        except Exception as e:          # noqa: B902
            exc = e
    if st_ == "removed":
        if exc is None:
            return "the removed command is accepted"
        if type(exc).__name__ != "KickstartParseError":
            return "%s instead of a parse error" % type(exc).__name__
        if exc.lineno != lineno:
            return "the parse error carries line %r instead of %r" % (exc.lineno, lineno)
        return None
    if exc is not None:
        return "the deprecated command fails: %r" % exc
    w = [x for x in ws if x.category.__name__ == "KickstartDeprecationWarning"]
    if len(ws) != 1 or len(w) != 1:
        return "%d warnings (%s) instead of exactly one deprecation warning" % (len(ws), ", ".join(x.category.__name__ for x in ws))
    if alias not in str(w[0].message) or str(lineno) not in str(w[0].message):
        return "the warning %r does not name the command and line %d" % (str(w[0].message), lineno)
    after = {n: concrete.state_of(o) for n, o in h.commands.items() if o is not None}
    for n in before:
        a, b = dict(before[n]), dict(after[n])
        a.pop("lineno", None)
        b.pop("lineno", None)
        if a != b:
            return "stored data of %s changed" % n
    if str(h) != text:
        return "the rendered text changed"
    return None


def run(task, rec):
    alias, version, st_, name, versions = task
    label = "%s/%s (%s)" % (alias, name, st_)
    rng = random.Random("C05 %s %s" % (alias, os.environ.get("VERIF_SEED", "1")))
    thorough = os.environ.get("VERIF_TIER") == "thorough"
    failed = []
    try:
        if name != "missing":
            failed = proof(version, alias, st_, label, rec)
    except Unsupported as e:
        rec.ob(label, "undecided", "outside the engine: %s" % e)
    confirmed = False
    words = [[], ["foo"], ["--bar=1", "x"], ["--", "-1"], ["--device=eth0", "--help"], ["-h"]]
    gen = concrete.Gen(version, alias, rng) if name != "missing" else None
    for v in versions:
        lines = words + ([gen.line() for _ in range(60 if thorough else 6)] if gen else [])
        for argv in lines:
            rec.bounded += 1
            ln = rng.choice([1, 77, 4321])
            d = native(v, alias, st_, argv, ln)
            if d:
                rec.violation("version %s, %s: %s" % (v, label, d), {"version": v, "command": alias, "argv": argv, "lineno": ln, "problem": d}, True,
                              "%s %s" % (alias, d[:40]))
                confirmed = True
                break
        if confirmed:
            break
    rec.nontrivial += 1
    if failed and not confirmed:
        rec.violation("%s: obligation '%s' fails" % (label, failed[0].name),
                      {"version": version, "command": alias, "obligation": failed[0].name,
                       "solver_model": sorted("%s=%s" % (d, failed[0].model[d]) for d in failed[0].model)[:100]}, False)


def main():
    return runner.main("C05", tasks(), run, trusted=["per-version status table /verif/ksspec/registry.json"],
                       assumptions=["warnings.warn returns normally (warnings not turned into errors)"])
