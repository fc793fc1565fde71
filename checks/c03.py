"""C03: parse() either succeeds or raises KickstartParseError carrying this line's number."""
import os
import random
import time

from pyvc import cmds, compare, concrete, runner
from pyvc.compare import Ob
from pyvc.values import Unsupported, SUnion, ABSENT, SInt, Not, And
from checks.cmdspec import tasks


def bad(o, lineno):
    if o.kind == "hang":
        return "hang", "does not terminate"
    if o.kind == "exc" and not o.parse_error:
        return "%s@%s" % (o.exc, o.where if hasattr(o, "where") else "?"), "%s escapes" % o.exc
    if o.kind == "exc" and o.lineno != lineno + o.at:
        return "lineno@%s" % o.where, "the parse error carries line number %r instead of %r" % (o.lineno, lineno + o.at)
    return None


def obligations(version, alias):
    c = cmds.Ctx(version, alias, grammar=True, seen=True, havoc=compare.havoc_prior)
    n, rs = c.parse()
    ip = c.ip
    obs = []
    for i, (s, e) in enumerate(rs):
        for g, x in (e.alts if isinstance(e, SUnion) else ((True, e),)):
            k = ip.exc_class(s, x)
            h = ip.get(s, x)
            conds = [g] + list(s.pc)
            if k.__name__ == "KickstartParseError":
                conds.append(Not(ip.eq(s, h.attrs.get("lineno", ABSENT), SInt(c.L))))
                what = "raise #%d carries the line number" % i
            else:
                what = "raise #%d: %s does not escape" % (i, k.__name__)
            obs.append(Ob(what, And(*conds)))
    return c, obs, len(n)


def p_text(rec):
    """the error's own fields and its text for every message, line number and formatting"""
    import z3
    import pykickstart.errors as E
    from pyvc import fn
    from pyvc.values import as_rope, IntS, Or, mk_bool, ANY, sym_str
    failed = []
    for given in ("text", "pair"):
        ip = cmds.new_ip()
        st = fn.start(ip)
        L = SInt(z3.Int("lineno"))
        st.assume(z3.Int("lineno") >= 0)
        msg = sym_str("msg", ANY)
        fn.freeze(ip, st)
        obs = []
        args, kw = ([msg], {"lineno": L}) if given == "text" else ([(L, msg)], {})
        nr, rr = fn.call(ip, st, E.KickstartParseError, args, kw)
        obs += [Ob("an error can be made", g) for g, s, k, h in fn.exc_alts(ip, rr)]
        for s, r in nr:
            at = ip.get(s, r).attrs
            obs.append(Ob("lineno is the line number", And(*s.pc, Not(ip.eq(s, at.get("lineno", ABSENT), L)))))
            obs.append(Ob("message is the message", And(*s.pc, Not(ip.eq(s, at.get("message", ABSENT), msg)))))
            ts, rs = fn.call(ip, s, E.KickstartError.__str__, [r])
            obs += [Ob("an error can be shown", g) for g, _, k, h in fn.exc_alts(ip, rs)]
            for s2, v in ts:
                for g0, v0 in (v.alts if isinstance(v, SUnion) else ((True, v),)):
                    for g, t in fn.expand(as_rope(v0)):
                        inside = Or(*[p.z == z3.Int("lineno") for p in as_rope(t).parts if isinstance(p, IntS)])
                        obs.append(Ob("the text has the line number", And(*s2.pc, g0, g, Not(inside))))
        failed += fn.settle(ip, obs, rec, "error text (%s)" % given)
    return failed


def text_search(rng, n):
    import pykickstart.errors as E
    for i in range(n):
        msg, ln = rng.choice(["", "x", "a %s b", "%", "é", "1"]), rng.choice([0, 1, 2, 10, 4096])
        for k in (E.KickstartError, E.KickstartParseError):
            e = k(msg, lineno=ln)
            yield None
            if str(ln) not in str(e) or msg not in str(e) or e.lineno != ln or e.message != msg:
                yield ("%s(%r, lineno=%d) reads %r (line %r)" % (k.__name__, msg, ln, str(e), e.lineno), {"message": msg, "lineno": ln}, "error text")


def run(task, rec):
    if task[0] == "the error":
        from pyvc import fn
        fn.prove_then_search("error text", rec, p_text, text_search(random.Random(1), 200))
        return
    alias, version, nver, name = task
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    thorough = os.environ.get("VERIF_TIER") == "thorough"
    rng = random.Random("C03 %s %s %d" % (alias, version, seed))
    if name == "missing":
        return
    label = "%s/%s" % (alias, name)
    cands, undecided, info = [], False, None
    try:
        c, obs, normal = obligations(version, alias)
        compare.discharge(c.ip, obs, 60000 if thorough else 20000)
        info = c.ip.arginfo
        for o in obs:
            st = {"unsat": "discharged", "sat": "failed"}.get(o.status, "undecided")
            if st == "failed":
                cands.append(o)
            rec.ob("%s: %s" % (label, o.name), st, o.by, o.time)
            undecided = undecided or st == "undecided"
        if not obs:
            rec.ob("%s: no exceptional exit" % label, "discharged", "simplifier")
        rec.functions |= {f for f in c.ip.inlined if f.startswith("pykickstart")}
        rec.assumed |= c.ip.assumed
        for k, v in list(info.excluded.items()) + list(info.bounded.items()):
            rec.bounded_for.append("%s %s: %s" % (label, k, v))
    except Unsupported as e:
        rec.ob(label, "undecided", "outside the engine: %s" % e)
        rec.bounded_for.append("%s: %s" % (label, e))
        undecided = True
    gen = concrete.Gen(version, alias, rng)
    keys = set()

    def attempt(lines, seen=()):
        rec.bounded += 1
        ln = rng.choice([11, 1, 500])
        d = bad(concrete.run_lines(version, alias, lines, False, seen, lineno=ln), ln)
        if d and d[0] not in keys:
            keys.add(d[0])
            rec.violation("%s: %s" % (label, d[1]), {"version": version, "command": alias, "lines": lines, "seen": seen, "problem": d[1], "where": d[0],
                          "how": "concrete.run_lines(version, command, lines, False, seen)"}, True, d[0])
        return d
    unconfirmed = []
    for o in cands:
        seen = concrete.seen_from_model(o.model)
        sh = concrete.shape_from_model(o.model, info)
        for argv in concrete.variants(sh, gen, 300, rng):
            if attempt([argv], seen):
                break
        else:
            unconfirmed.append(o)
    n = 100 if not (unconfirmed or undecided) else 3000
    n *= 10 if thorough else 1
    t = time.time()
    before = len(rec.violations)
    names = sorted(concrete.handler(version, False).commands)
    pool = [[x] for x in gen.singles()] + [None] * n
    for lines in pool:
        if lines is None:
            lines = [gen.line() for _ in range(rng.choice([1, 1, 2]))]
        attempt(lines, tuple(rng.sample(names, 1)) if rng.random() < 0.15 else ())
        if time.time() - t > (60 if not thorough else 240):
            break
    rec.nontrivial += len(pool)
    rec.samples.append({"command": alias, "version": version, "line": gen.line()})
    if unconfirmed and len(rec.violations) == before and not keys:
        o = unconfirmed[0]
        rec.violation("%s: obligation '%s' fails (no failing line found)" % (label, o.name),
                      {"version": version, "command": alias, "obligation": o.name,
                       "solver_model": sorted("%s=%s" % (d, o.model[d]) for d in o.model)[:200]}, False)


def main():
    return runner.main("C03", [("the error",)] + tasks(), run,
                       assumptions=["argparse follows the contract in pyvc/argp.py: it reports every malformed word list through KSOptionParser.error (executed symbolically)",
                                    "argument words are strings; MemoryError, RecursionError and KeyboardInterrupt are not considered"])
