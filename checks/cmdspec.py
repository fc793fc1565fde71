"""C02 / C04: every command's parse() against its specification function."""
import os
import random
import time

from pyvc import cmds, compare, concrete
from pyvc.values import Unsupported

KINDS = {"C02": "state", "C04": "accept"}


def tasks():
    out = []
    for g in cmds.groups():
        out.append((g["alias"], g["versions"][0], len(g["versions"]), (g["real"].__name__ if g["real"] else "missing")))
    # heavy ones first
    heavy = ("firewall", "network", "raid", "logvol", "part", "partition")
    out.sort(key=lambda t: (t[0] not in heavy, t))
    return out


def make(prop):
    def run(task, rec):
        alias, version, nver, name = task
        seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        thorough = os.environ.get("VERIF_TIER") == "thorough"
        rng = random.Random("%s %s %s %d" % (prop, alias, version, seed))
        if name == "missing":
            rec.violation("version %s no longer has the command %s" % (version, alias), {"version": version, "command": alias})
            return
        label = "%s/%s" % (alias, name)
        failed = undecided = False
        cands = []
        try:
            ip, r, s, ir, is_, obs = compare.obligations(version, alias, havoc=compare.havoc_prior)
            obs = [o for o in obs if o.info["kind"] == prop]
            if prop == "C02" and not obs:
                obs = []
            compare.discharge(ip, obs, 60000 if thorough else 20000)
            for o in obs:
                st = {"unsat": "discharged", "sat": "failed"}.get(o.status, "undecided")
                rec.ob("%s: %s" % (label, o.name), st, o.by, o.time)
                if st == "failed":
                    cands.append((o, ir, is_))
                elif st == "undecided":
                    undecided = True
            rec.functions |= {f for f in ip.inlined if f.startswith("pykickstart")}
            rec.assumed |= ip.assumed
            for info in (ir,):
                for k, v in list(info.excluded.items()) + list(info.bounded.items()):
                    rec.bounded_for.append("%s %s: %s" % (label, k, v))
        except Unsupported as e:
            rec.ob(label, "undecided", "outside the engine: %s" % e)
            rec.bounded_for.append("%s: %s" % (label, e))
            undecided = True
        gen = concrete.Gen(version, alias, rng)

        def attempt(lines, seen=()):
            rec.bounded += 1
            d = concrete.differs(version, alias, lines, seen)
            if d and d[0] == prop:
                return d[1]
            return None

        def found(d, lines, seen):
            rec.violation("%s: %s" % (label, d), {"version": version, "command": alias, "lines": lines, "seen": seen, "difference": d,
                          "how": "concrete.differs(version, command, lines, seen)"}, True, "%s %s" % (label, d[:60]))
        confirmed = False
        # fresh objects have the specified defaults
        if prop == "C02":
            d = defaults_differ(version, alias)
            rec.ob("%s: defaults" % label, "failed" if d else "discharged", "evaluation")
            if d:
                rec.violation("%s: %s" % (label, d), {"version": version, "command": alias, "difference": d}, True)
                confirmed = True
        else:
            d = table_differs(version, alias)
            if d:
                rec.notes.append("%s: option table differs (%s); bounded runs extended" % (label, d))
                undecided = True
        # counter-models on the real code
        for o, ir, is_ in cands:
            if confirmed:
                break
            seen = concrete.seen_from_model(o.model)
            for info in (ir, is_):
                sh = concrete.shape_from_model(o.model, info)
                for argv in concrete.variants(sh, gen, 400, rng):
                    for lines in ([argv], [[], argv] if rng.random() < .2 else [argv, argv]):
                        d = attempt(lines, seen)
                        if d:
                            found(d, lines, seen)
                            confirmed = True
                            break
                    if confirmed:
                        break
                if confirmed:
                    break
        # bounded native comparison: option spellings, orders, repetitions, histories of up to three lines
        n = 120 if not (cands or undecided) else 3000
        if thorough:
            n *= 10
        if not confirmed:
            t = time.time()
            names = [x for x in sorted(concrete.handler(version, True).commands)]
            pool = [[x] for x in gen.singles()] + [None] * n
            for lines in pool:
                if lines is None:
                    lines = [gen.line() for _ in range(rng.choice([1, 1, 1, 2, 3]))]
                seen = tuple(rng.sample(names, 1)) if rng.random() < 0.15 else ()
                d = attempt(lines, seen)
                if d:
                    found(d, lines, seen)
                    confirmed = True
                    break
                if time.time() - t > (60 if not thorough else 240):
                    break
            rec.nontrivial += len(pool)
            rec.samples.append({"command": alias, "version": version, "lines": gen.line()})
        if cands and not confirmed:
            o = cands[0][0]
            rec.violation("%s: obligation '%s' fails (no failing line found)" % (label, o.name),
                          {"version": version, "command": alias, "obligation": o.name,
                           "solver_model": sorted("%s=%s" % (d, o.model[d]) for d in o.model)[:200]}, False)
    return run


def defaults_differ(version, alias):
    _, r = concrete.fresh(version, alias, False)
    _, s = concrete.fresh(version, alias, True)
    a, b = concrete.state_of(r), concrete.state_of(s)
    for k in sorted(b):
        x = concrete.project(a.get(k, "<missing>"), b[k])
        if x != b[k]:
            return "the default of %s is %s, should be %s" % (k, concrete.short(a.get(k, "<missing>")), concrete.short(b[k]))
    return None


def table_differs(version, alias):
    tabs = []
    for spec in (False, True):
        t = {}
        for op in concrete.parsers_of(version, alias, spec):
            for a in op._actions:
                if a.option_strings:
                    t[tuple(sorted(a.option_strings))] = (a.nargs == 0, bool(a.required))
        tabs.append(t)
    if tabs[0] != tabs[1]:
        return sorted(set(map(str, tabs[0].items())) ^ set(map(str, tabs[1].items())))[:4]
    return None
