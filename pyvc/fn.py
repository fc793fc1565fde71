"""Contracts on single functions: run a real function and its specification function on the same symbolic
arguments and state, and generate the obligations that they agree."""
import z3

from .values import *          # noqa: F401,F403
from . import cmds
from . import interp as I
from .compare import Ob, discharge, joint, make_inst_eq


def call(ip, st, f, args, kw=None):
    """-> (normal [(st, v)], raises [(st, exc)])"""
    ip.coll.append([])
    try:
        res = ip.call(st.fork(), f, list(args), dict(kw or {}))
    finally:
        rs = ip.coll.pop()
    return res, rs


def start(ip):
    st = I.St()
    st.envs[0] = {}
    return st


def freeze(ip, st):
    """the objects made so far become the shared initial heap of both sides"""
    ip.base.update(st.heap)
    st.heap = type(st.heap)()
    return st


def exc_alts(ip, rs):
    """flatten raises -> [(guard, state, class, HInst)]"""
    for s, e in rs:
        for g, x in (e.alts if isinstance(e, SUnion) else ((True, e),)):
            yield And(g, *s.pc), s, ip.exc_class(s, x), (ip.get(s, x) if isinstance(x, Ref) else None)


def expand(rope):
    """alternatives of a rope without choices: [(guard, rope)]"""
    out = [(True, [])]
    for p in rope.parts:
        if isinstance(p, Cho):
            out = [(And(g, g2), ps + list(as_rope(y).parts)) for g, ps in out for g1, x in p.alts for g2_, y in expand(as_rope(x)) for g2 in [And(g1, g2_)]]
        else:
            out = [(g, ps + [p]) for g, ps in out]
        if len(out) > 500:
            raise Unsupported("too many alternatives")
    return [(g, mk_str(ps)) for g, ps in out]


def relate(ip, real, spec, extra=None, classes=True):
    """obligations: same outcome (return / exception class by name) and equal results.
    real, spec: results of call(); extra(joint_state, va, vb) -> [(name, must-hold guard)]"""
    (nr, rr), (ns, rs) = real, spec
    okr, oks = Or(*[And(*s.pc) for s, _ in nr]), Or(*[And(*s.pc) for s, _ in ns])
    obs = [Ob("returns whenever the specification does", And(oks, Not(okr))),
           Ob("fails whenever the specification does", And(okr, Not(oks)))]
    if classes:
        byr, bys = {}, {}
        for d, it in ((byr, exc_alts(ip, rr)), (bys, exc_alts(ip, rs))):
            for g, s, k, h in it:
                d.setdefault(k.__name__, []).append(g)
        for k in sorted(set(byr) | set(bys)):
            a, b = Or(*byr.get(k, [])), Or(*bys.get(k, []))
            obs.append(Ob("raises %s exactly when specified" % k, Or(And(a, Not(b)), And(b, Not(a)))))
    ip.inst_eq = make_inst_eq(ip)
    for a, va in nr:
        for b, vb in ns:
            st = joint(a, b)
            if st.dead():
                continue
            pc = list(st.pc)
            obs.append(Ob("result", And(*pc, Not(ip.eq_abs(st, va, vb)))))
            for n, g in (extra(st, va, vb) if extra else ()):
                obs.append(Ob(n, And(*pc, Not(g))))
    ip.inst_eq = None
    return obs


def settle(ip, obs, rec, label, timeout=20000):
    """discharge, record, return the failed obligations"""
    discharge(ip, obs, timeout)
    failed = []
    for o in obs:
        x = {"unsat": "discharged", "sat": "failed"}.get(o.status, "undecided")
        rec.ob("%s: %s" % (label, o.name), x, o.by, o.time)
        if x == "failed":
            failed.append(o)
    rec.functions |= {f for f in ip.inlined if f.startswith(("pykickstart", "tools"))}
    rec.assumed |= ip.assumed
    return failed


def model_text(o):
    return sorted("%s=%s" % (d, o.model[d]) for d in o.model)[:100] if o.model is not None else []


def unconfirmed(rec, label, o, extra=None):
    rec.violation("%s: obligation '%s' fails (no failing input found)" % (label, o.name),
                  dict({"obligation": o.name, "solver_model": model_text(o)}, **(extra or {})), False, "%s/%s" % (label, o.name))


def prove_then_search(label, rec, proof, search, limit=None):
    """run the proof; then the native search (replay of counterexamples and bounded stand-in)"""
    import time
    failed = []
    if proof is not None:
        try:
            failed = proof(rec) or []
        except Unsupported as e:
            rec.ob(label, "undecided", "outside the engine: %s" % e)
            rec.bounded_for.append("%s: %s" % (label, e))
    confirmed = False
    t = time.time()
    for x in search:
        if x is None:
            rec.bounded += 1
            if limit and time.time() - t > limit:
                break
            continue
        rec.violation("%s: %s" % (label, x[0]), x[1], True, x[2] if len(x) > 2 else x[0][:80])
        confirmed = True
        break
    rec.nontrivial += rec.bounded
    if failed and not confirmed:
        unconfirmed(rec, label, failed[0])
    return failed, confirmed
