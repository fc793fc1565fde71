"""C01: what a command writes reads back to the same data."""
import os
import random
import re
import shlex
import time
import warnings

from pyvc import cmds, compare, concrete, runner, rtrip
from pyvc.values import Dom, PLAIN, Unsupported
from ksspec import roundtrip as RT

BAD = set(" \t\n\r\x0b\x0c\"'\\#")
BADQ = set("\n\r\x0b\x0c\"'\\")
BLANKS = Dom(no=frozenset(BADQ), nonempty=True, nodash=True)


# ---------------------------------------------------------------- native
def plain_value(v):
    return v != "" and not (set(v) & BAD) and not v.startswith("-") and not v.startswith(RT.TWICE) and v not in RT.PREFIX_ONLY \
        and not os.path.normpath(v).startswith("-") and v.isascii()


def plain(cls, argv):
    for w in argv:
        if w.startswith("-"):
            o, eq, v = w.partition("=")
            if not re.fullmatch("-[a-zA-Z]|--[a-zA-Z][-_a-zA-Z0-9]*", o):
                return False
            if eq and not plain_value(v) and not (RT.quoted(cls, o) and blank_value(v)):
                return False
        elif not plain_value(w):
            return False
    return True


def blank_value(v):
    return v.strip() != "" and not (set(v) & BADQ) and not v.startswith("-") and not v.startswith(RT.TWICE) and v.isascii() \
        and v not in RT.PREFIX_ONLY


def line_of(alias, argv):
    return " ".join([alias] + [shlex.quote(w) if not w.startswith("--") or "=" not in w else w.partition("=")[0] + "=" + shlex.quote(w.partition("=")[2]) for w in argv])


def is_obj(x):
    return hasattr(x, "__dict__") and hasattr(x, "__str__") and type(x).__module__.startswith("pykickstart")


def rule_holds(o, k):
    f = RT.rule(type(o), k)
    if f is None:
        return False
    try:
        return bool(f(o))
    except AttributeError:
        return False


def diff(a, b, depth=0):
    """paths of the fields that differ (rules of ksspec/roundtrip applied)"""
    if depth and type(a).__name__ != type(b).__name__:
        return [("class", a, b)]
    out = []
    for k in vars(a):
        if not concrete.visible(k) or k == "lineno" or k in RT.NOT_DATA:
            continue
        x, y = getattr(a, k), getattr(b, k, "<missing>")
        if same(x, y):
            continue
        if rule_holds(a, k) and rule_holds(b, k):
            continue
        if isinstance(x, list) and isinstance(y, list) and len(x) == len(y) and depth < 4 and x and all(is_obj(v) for v in x + y):
            for u, v in zip(x, y):
                out.extend((k + "." + p, c, d) for p, c, d in diff(u, v, depth + 1))
            continue
        out.append((k, x, y))
    return out


def strip_lineno(x):
    if isinstance(x, list):
        if x[:1] == ["obj"]:
            return ["obj"] + [[k, strip_lineno(v)] for k, v in x[1:] if k != "lineno" and k not in RT.NOT_DATA]
        return [strip_lineno(y) for y in x]
    return x


def same(x, y):
    return type(x) is type(y) and (any(is_obj(v) for v in (x if isinstance(x, list) else [x])) is False) and concrete.canon(x) == concrete.canon(y)


def parse_into(h, text, lineno=1):
    """dispatch the lines of a text as the reader does; returns the names dispatched"""
    names = []
    for i, l in enumerate(text.split("\n")):
        w = shlex.split(l, comments=True)
        if not w:
            continue
        h.currentLine = l + "\n"
        if h.commands.get(w[0]) is not None:
            h.commands[w[0]]._used = True
        h.dispatcher(w, lineno + i)
        names.append(w[0])
    return names


_H = {}


def clean_handler(version, which):
    """a handler whose commands are as new (kept between runs: only the commands used are replaced)"""
    h = _H.get((version, which))
    if h is None:
        h = _H[version, which] = cmds.real_handler(version)
    for o in {id(o): o for o in h.commands.values() if o is not None and getattr(o, "_used", False)}.values():
        new = type(o)()
        new.handler = h
        for n in h.commands:
            if h.commands[n] is o:
                h.commands[n] = new
        for k, v in list(vars(h).items()):
            if v is o:
                setattr(h, k, new)
    return h


def trip(version, alias, lines):
    """(problem, detail) or None; 'skip' when the lines are not accepted"""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        h = clean_handler(version, 1)
        try:
            with concrete.time_limit(5):
                for i, argv in enumerate(lines):
                    parse_into(h, line_of(alias, argv), 1 + i)
        except concrete.Timeout:
            return "skip"
        except Exception:       # noqa: B902
            return "skip"
        cmd = h.commands[alias]
        try:
            with concrete.time_limit(5):
                text = str(cmd)
        except concrete.Timeout:
            return ("cannot be written (no end)", "")
        except Exception as e:      # noqa: B902
            return ("cannot be written: %s" % type(e).__name__, repr(e))
        h2 = clean_handler(version, 2)
        names = []
        try:
            with concrete.time_limit(5):
                names = parse_into(h2, text)
        except concrete.Timeout:
            return ("the written text cannot be read", text)
        except KeyError as e:
            return ("the written text names an unknown command", text)
        except Exception as e:      # noqa: B902
            return ("the written text is rejected", "%r for %r" % (e, text))
        d = diff(cmd, h2.commands[names[-1] if names else alias])
        if d:
            k, x, y = d[0]
            return ("field %s is lost" % ", ".join(dict.fromkeys(k for k, _, _ in d)), "%s = %s is written as %r and reads back as %s" % (k, concrete.short(concrete.canon(x)), text, concrete.short(concrete.canon(y))))
        if len(names) and (cmd.dataList() is None):
            others = [n for n, o in h2.commands.items() if o is not None and o.seen and o is not h2.commands[names[-1]]]
            if others:
                return ("the written text sets other commands", repr((text, others)))
        return None


def known(cls, argv_lines, problem):
    """key of the listed finding this is an instance of"""
    for name, f in RT.FINDINGS:
        if f(cls, argv_lines, problem):
            return name
    return None


def native(version, alias, cls, lines, rec):
    rec.bounded += 1
    r = trip(version, alias, lines)
    if r is None or r == "skip":
        return None
    what = "%s %s (%s): %s (%s)" % (alias, cls.__name__, version, r[0], " / ".join(line_of(alias, a) for a in lines))
    key = known(cls, lines, r[0])
    rec.violation(what, {"version": version, "command": alias, "lines": [line_of(alias, a) for a in lines], "problem": r[0], "detail": r[1],
                         "how": "checks.c01.trip(version, command, argument lists)", "argv": lines}, True, key or what[:120])
    return key or True


# ---------------------------------------------------------------- tasks
def tasks():
    out = []
    for g in cmds.groups():
        if g["real"]:
            out.append(("cmd", g["alias"], g["versions"][0], g["real"].__name__))
    heavy = ("firewall", "network", "raid", "logvol", "part", "partition", "volgroup")
    out.sort(key=lambda t: (t[1] not in heavy, t))
    for v in sorted({v for g in cmds.groups() for v in g["versions"]}):
        out.append(("file", "", v, ""))
    return out


def run(task, rec):
    if task[0] == "file":
        return run_file(task, rec)
    _, alias, version, name = task
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    thorough = os.environ.get("VERIF_TIER") == "thorough"
    rng = random.Random("C01 %s %s %d" % (alias, version, seed))
    cls = type(cmds.real_handler(version).commands[alias])
    label = "%s/%s" % (alias, name)
    undecided, cands = False, []
    gen = concrete.Gen(version, alias, rng)
    t0 = time.time()
    try:
        ip, c, obs, lost = rtrip.roundtrip(version, alias, lambda a: BLANKS if a is not None and any(RT.quoted(cls, o) for o in a.option_strings) else PLAIN)
        compare.discharge(ip, obs, 60000 if thorough else 10000)
        opaque = "getopt.getopt" in ip.assumed
        for o in obs:
            if opaque and o.status == "sat":
                o.status = "unknown"        # the model gives getopt an arbitrary meaning
            st = {"unsat": "discharged", "sat": "failed"}.get(o.status, "undecided")
            if st == "failed":
                cands.append((o, ip.arginfo))
            elif st == "undecided":
                undecided = True
                rec.ob("%s: %s" % (label, o.name), st, o.by, o.time)
            if st == "discharged":
                rec.ob("%s: %s" % (label, o.name), st, o.by, o.time)
        for x in sorted(set(lost)):
            rec.ob("%s: path" % label, "undecided", "outside the engine: %s" % x[:120])
            rec.bounded_for.append("%s: %s" % (label, x[:120]))
            undecided = True
        rec.functions |= {f for f in ip.inlined if f.startswith("pykickstart")}
        rec.assumed |= ip.assumed
        for k, v in list(ip.arginfo.excluded.items()) + list(ip.arginfo.bounded.items()):
            rec.bounded_for.append("%s %s: %s" % (label, k, v))
    except Unsupported as e:
        rec.ob(label, "undecided", "outside the engine: %s" % str(e)[:160])
        rec.bounded_for.append("%s: %s" % (label, str(e)[:160]))
        undecided = True
    new = False
    kinds = set()

    def attempt(lines):
        nonlocal new
        if not all(plain(cls, a) for a in lines):
            return False
        r = native(version, alias, cls, lines, rec)
        if r is True:
            new = True
        elif r:
            kinds.add(r)
        return r is True
    # the listed findings of this class, on their own input
    for argv in RT.WITNESS.get(cls.__name__, ()):
        r = native(version, alias, cls, [argv], rec)
        if r is True:
            new = True
        elif r:
            kinds.add(r)
    for o, info in cands:
        if new:
            break
        sh = concrete.shape_from_model(o.model, info)
        for argv in concrete.variants(sh, gen, 300, rng):
            if attempt([argv]):
                break
    n = (150 if not (cands or undecided) else 1500) * (10 if thorough else 1)
    lists = cmds.real_handler(version).commands[alias].dataList() is not None
    t = time.time()
    pool = [[x] for x in gen.singles()] + [None] * n
    k = 0
    for lines in pool:
        if new or time.time() - t > (40 if not thorough else 240):
            break
        if lines is None:
            lines = [gen.line() for _ in range(rng.choice([1, 1, 1, 2]))]
        if not lists and len(lines) > 1:
            lines = lines[:1]
        if attempt(lines):
            break
        k += 1
    rec.nontrivial += k
    rec.samples.append({"command": alias, "version": version, "line": gen.line()})
    for o, _ in cands:
        if kinds and not new and (name, o.name) in RT.EXCUSED:
            rec.ob("%s: %s" % (label, o.name), "undecided", "known finding: %s" % ", ".join(sorted(kinds)))
        else:
            rec.ob("%s: %s" % (label, o.name), "failed", o.by, o.time)
    cands = [x for x in cands if not kinds or (name, x[0].name) not in RT.EXCUSED]
    if cands and not new:
        o = cands[0][0]
        rec.violation("%s: obligation '%s' fails (no failing line found)" % (label, o.name),
                      {"version": version, "command": alias, "obligation": o.name,
                       "solver_model": sorted("%s=%s" % (d, o.model[d]) for d in o.model)[:200]}, False)


def run_file(task, rec):
    """several commands in one handler: the text of the handler reads back"""
    version = task[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    thorough = os.environ.get("VERIF_TIER") == "thorough"
    rng = random.Random("C01 file %s %d" % (version, seed))
    from pykickstart.parser import KickstartParser
    names = [g for g in sorted(cmds.real_handler(version).commands)]
    gens = {}
    t = time.time()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        h0 = cmds.real_handler(version)
        for _ in range(40 if not thorough else 1500):
            if time.time() - t > (20 if not thorough else 200):
                break
            h = cmds.real_handler(version)
            used = []
            for al in rng.sample(names, min(6, len(names))):
                cls = type(h0.commands[al])
                if cls.__name__ in RT.WITNESS:
                    continue
                if al not in gens:
                    gens[al] = concrete.Gen(version, al, rng)
                for _ in range(4):
                    argv = gens[al].line()
                    if not plain(cls, argv):
                        continue
                    if h.commands[al].seen and h.commands[al].dataList() is None:
                        break
                    try:
                        with concrete.time_limit(5):
                            parse_into(h, line_of(al, argv), 1)
                    except (concrete.Timeout, Exception):       # noqa: B902
                        # what a rejected line leaves behind is no business of this property
                        h = cmds.real_handler(version)
                        used = []
                        continue
                    used.append(line_of(al, argv))
                    break
            if not used:
                continue
            rec.bounded += 1
            what = None
            try:
                with concrete.time_limit(10):
                    text = str(h)
                    h2 = cmds.real_handler(version)
                    KickstartParser(h2).readKickstartFromString(text)
                for al in names:
                    if h.commands[al] is None or not h.commands[al].seen:
                        continue
                    d = diff(h.commands[al], h2.commands[al]) if type(h.commands[al]) is type(h2.commands[al]) else [("class", 0, 0)]
                    if d and any(u.split(" ")[0] == al for u in used):
                        k, x, y = d[0]
                        what = "field %s of %s is lost: %s, %s" % (k, al, concrete.short(concrete.canon(x)), concrete.short(concrete.canon(y)))
                        break
            except concrete.Timeout:
                continue
            except Exception as e:      # noqa: B902
                what = "the written text is rejected: %r" % e
            if what:
                rec.violation("%s: %s (%s)" % (version, what, "; ".join(used)[:300]), {"version": version, "lines": used, "problem": what}, True, "file %s" % version)
                return
    rec.nontrivial += rec.bounded


def main():
    return runner.main("C01", tasks(), run, trusted=["exemptions /verif/ksspec/roundtrip.py (fields without meaning in a state)"],
                       assumptions=["words of the domain: not empty, ASCII, no blank, quote, backslash or '#', no leading dash (also not after path normalisation); where the writer quotes: blanks and '#' too",
                                    "one line on a fresh command object (repeated lines and whole handlers: bounded native runs)",
                                    "argument lists follow the argparse contract in pyvc/argp.py; written text is split by the shlex contract in pyvc/render.py"])
