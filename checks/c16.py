"""C16: option value converters, list actions, error reporting of the option layer."""
import argparse
import itertools
import os
import random
import warnings

import z3

from pyvc import cmds, fn, runner
from pyvc import interp as I
from pyvc.values import *          # noqa: F401,F403
from pyvc.compare import Ob

CONV = ("ksboolean", "commaSplit", "mountpoint")


def tasks():
    return list(CONV) + ["ExtendAction", "ExtendConstAction", "error", "parse_args", "parse_known_args", "_parse_optional", "remove_argument"]


def real():
    import pykickstart.options as R
    return R


def spec():
    import ksspec.options as S
    return S


# ---------------------------------------------------------------- proofs
def p_conv(name, rec):
    ip = cmds.new_ip()
    st = fn.start(ip)
    v = sym_str("value")
    obs = fn.relate(ip, fn.call(ip, st, getattr(real(), name), [v]), fn.call(ip, st, getattr(spec(), name), [v]))
    return fn.settle(ip, obs, rec, name)


def p_action(name, rec):
    """for every namespace (destination unset, None or a list) and every list of values"""
    failed = []
    for what in ("unset", "None", "list"):
        ip = cmds.new_ip()
        st = fn.start(ip)
        refs = []
        for mod in (real(), spec()):
            a = ip.new(st, HInst(getattr(mod, name), {"dest": "d", "const": None}))
            old, vals = ip.seq("old", ANY), ip.seq("vals", ANY)
            ov = ip.new(st, HList((Star(True, old, old.val),)))
            vv = ip.new(st, HList((Star(True, vals, vals.val),)))
            if name == "ExtendConstAction":
                st.heap[a.id] = HInst(getattr(mod, name), {"dest": "d", "const": vv})
            at = {"unset": {}, "None": {"d": None}, "list": {"d": ov}}[what]
            ns = ip.new(st, HInst(argparse.Namespace, dict(at, other="x")))
            refs.append((a, ns, ov, vv))
        fn.freeze(ip, st)
        outs = []
        for (a, ns, ov, vv), mod in zip(refs, (real(), spec())):
            outs.append(fn.call(ip, st, getattr(mod, name).__call__, [a, None, ns, None if name == "ExtendConstAction" else vv, "--opt"]))

        def extra(js, va, vb):
            (a, ns, ov, vv), (a2, ns2, ov2, vv2) = refs
            h, h2 = ip.get(js, ns), ip.get(js, ns2)
            out = [("the destination holds the old items followed by the new ones", ip.eq_abs(js, h.attrs.get("d", ABSENT), h2.attrs.get("d", ABSENT))),
                   ("no other attribute changes", And(*[ip.eq_abs(js, h.attrs.get(k, ABSENT), h2.attrs.get(k, ABSENT)) for k in set(h.attrs) | set(h2.attrs) if k != "d"]))]
            for r, n in ((ov, "the earlier list (it may be the default) is not changed in place"), (vv, "the given values are not changed in place")):
                out.append((n, ip.eq_abs(js, r, refs[1][2 if r is ov else 3]) if r.id in js.heap else True))
            return out
        obs = fn.relate(ip, outs[0], outs[1], extra)
        failed += fn.settle(ip, obs, rec, "%s (destination %s)" % (name, what))
    return failed


def p_error(rec):
    ip = cmds.new_ip()
    st = fn.start(ip)
    L, has = z3.Int("lineno"), z3.Bool("haslineno")
    op = ip.new(st, HInst(real().KSOptionParser, {"lineno": mk_union([(has, SInt(L)), (Not(has), None)])}))
    n, r = fn.call(ip, st, real().KSOptionParser.error, [op, sym_str("message")])
    obs = [Ob("error() never returns", Or(*[And(*s.pc) for s, _ in n]))]
    for g, s, k, h in fn.exc_alts(ip, r):
        if k.__name__ != "KickstartParseError":
            obs.append(Ob("error() raises a parse error", g))
        else:
            obs.append(Ob("the error carries the line number it was given", And(g, has, Not(ip.eq(s, h.attrs.get("lineno", ABSENT), SInt(L))))))
            obs.append(Ob("the error carries the message", And(g, Not(fn_mentions(h, "message")))))
    return fn.settle(ip, obs, rec, "KSOptionParser.error")


def fn_mentions(h, name):
    import re
    return any(name in repr(v) for v in h.attrs.values())


def p_parse(name, rec):
    """parse_args/parse_known_args: when the library parser reports an error through self.error, the line number of
    this call is on the parser already; the library parser is called once with the given words"""
    ip = cmds.new_ip()
    st = fn.start(ip)
    L = z3.Int("lineno")
    calls = []
    base = getattr(argparse.ArgumentParser, name)

    def model(ip_, s, args, kw):
        calls.append((s.fork(), args, kw))
        s2 = s.fork()
        return [(s2, "RESULT")]
    ip.models[base] = model
    failed = []
    for given in (True, False):
        calls.clear()
        prior = z3.Int("prior")
        op = ip.new(st, HInst(real().KSOptionParser, {"lineno": SInt(prior)}))
        words = ip.new(st, HList(()))
        n, r = fn.call(ip, st, getattr(real().KSOptionParser, name), [op], dict({"args": words}, **({"lineno": SInt(L)} if given else {})))
        want = L if given else prior
        obs = [Ob("never fails by itself", Or(*[And(*s.pc) for s, _ in r])),
               Ob("returns the library parser's result", Or(*[And(*s.pc, Not(ip.eq(s, v, "RESULT"))) for s, v in n])),
               Ob("the library parser is called once", False if len(calls) == 1 else True)]
        for s, a, kw in calls:
            obs.append(Ob("its errors carry this call's line number", And(*s.pc, Not(ip.eq(s, ip.get(s, op).attrs.get("lineno"), SInt(want))))))
            ok = len(a) >= 1 and a[0] == op and (kw.get("args") == words or (len(a) > 1 and a[1] == words)) and "lineno" not in kw
            obs.append(Ob("the words are passed on unchanged", not ok))
        failed += fn.settle(ip, obs, rec, "%s (lineno %s)" % (name, "given" if given else "not given"))
    return failed


def p_optional(rec):
    ip = cmds.new_ip()
    ip.trace_warn = True
    st = fn.start(ip)
    L = z3.Int("lineno")
    dep = z3.Bool("deprecated")
    failed = []
    for case in ("none", "unknown", "action"):
        op = ip.new(st, HInst(real().KSOptionParser, {"lineno": SInt(L)}))
        act = ip.new(st, HInst(argparse.Action, {"deprecated": SBool(dep), "option_strings": ip.new(st, HList((Item(True, "--old"),)))}))
        tup = {"none": None, "unknown": (None, "--x", None), "action": (act, "--old", None)}[case]
        ip.models[argparse.ArgumentParser._parse_optional] = lambda ip_, s, a, kw: [(s, tup)]
        n, r = fn.call(ip, st, real().KSOptionParser._parse_optional, [op, sym_str("arg")])
        obs = [Ob("never fails", Or(*[And(*s.pc) for s, _ in r]))]
        for s, v in n:
            obs.append(Ob("the library's answer is returned", And(*s.pc, Not(ip.eq(s, v, tup)) if tup is not None else (v is not None))))
            w = [e for e in s.trace if e[0] == "warn"]
            should = dep if case == "action" else False
            good = len(w) == 1 and w[0][1] == "KickstartDeprecationWarning"
            if w:
                obs.append(Ob("warns only for a deprecated option", And(*s.pc, Not(should)) if good else And(*s.pc)))
            else:
                obs.append(Ob("warns for every deprecated option", And(*s.pc, should)))
        failed += fn.settle(ip, obs, rec, "_parse_optional (%s)" % case)
    return failed


# ---------------------------------------------------------------- native
def outcome(f, *a):
    try:
        return ("ok", f(*a))
    except Exception as e:          # noqa: B902
        return ("exc", type(e).__name__)


def n_conv(name, rng, n):
    words = ["on", "off", "yes", "no", "true", "false", "1", "0", "On", "YES", "tRue", "oFF", "", " ", "y", "n", "t", "2", "01", "00", "-1", "enable", "disable",
             "enabled", "none", "None", "on ", " on", "true\n", "o", "ye", "\u017fes", "fal\u017fe", "yes,no", "1.0"]
    words += [",", ",,", "a", "a,b", " a , b ", "a,,b", ",a", "a,", "a b,c", "a\t,\tb", "a;b", "a,a", " , ", "b,a", "0,1", "a,\n", "A,b"]
    words += ["/", "//", "///", "/a", "/a/", "/a/b/", "//a", "///a//b", "/a/../b", "/a/./b", "/..", "a/", "a//b", "./a", "../a", "swap", "raid.01", "pv.01", "", "None", "/a b/", "/.", "/A", "btrfs.1/", " /a/"]
    alpha = "ab,/ .\tA1"
    for k in range(0, 4):
        words += ["".join(t) for t in itertools.product(",/. a", repeat=k)]
    for _ in range(n):
        words.append("".join(rng.choice(alpha) for _ in range(rng.randint(1, 9))))
    vals = words + ([True, False, None, 1, 0] if name == "ksboolean" else [])
    for v in vals:
        if name == "ksboolean" and not isinstance(v, str):
            a, b = outcome(real().ksboolean, v), ("exc", "ArgumentTypeError")
        else:
            a, b = outcome(getattr(real(), name), v), outcome(getattr(spec(), name), v)
        yield
        if a != b or type(a[1]) is not type(b[1]):
            yield "%s(%r) gives %s, should give %s" % (name, v, a, b), {"function": name, "value": v, "got": a, "expected": b}


def mkop():
    op = real().KSOptionParser(prog="p", description="", version=0x1000 * 0 or 7000)
    return op


def ns_of(cls_mod, spec_side, argv):
    from pykickstart.version import FC3
    m = spec() if spec_side else real()
    if spec_side:
        op = m.KSOptionParser(prog="p")
        kw = {}
    else:
        op = m.KSOptionParser(prog="p", description="", version=FC3)
        kw = {"version": FC3, "help": "x"}
    op.add_argument("--port", dest="ports", action=m.ExtendAction, type=m.commaSplit, **kw)
    op.add_argument("--http", dest="ports", action=m.ExtendConstAction, const=["80:tcp", "443:tcp"], nargs=0, **kw)
    op.add_argument("--d", dest="d", action=m.ExtendAction, type=m.commaSplit, default=["z"], **kw)
    op.add_argument("--flag", type=m.ksboolean, **kw)
    op.add_argument("--mnt", type=m.mountpoint, **kw)
    return op


def n_actions(rng, n):
    toks = ["--port=a,b", "--port=", "--port=c", "--http", "--d=q", "--d=", "--flag=on", "--flag=off", "--flag=x", "--mnt=/a/", "--mnt=b", "--nope", "x"]
    for k in itertools.chain([()], itertools.product(toks, repeat=1), itertools.product(toks, repeat=2),
                             (tuple(rng.choice(toks) for _ in range(rng.randint(3, 6))) for _ in range(n))):
        for known in (False, True):
            res = []
            for sp in (False, True):
                op = ns_of(None, sp, k)
                acts = [a for a in op._actions]
                before = [(repr(a.const), repr(a.default)) for a in acts]
                ln = 4711
                try:
                    r = op.parse_known_args(args=list(k), lineno=ln) if known else op.parse_args(args=list(k), lineno=ln)
                    r = ("ok", vars(r[0]), r[1]) if known else ("ok", vars(r))
                except Exception as e:          # noqa: B902
                    r = ("exc", type(e).__name__, getattr(e, "lineno", None))
                if [(repr(a.const), repr(a.default)) for a in acts] != before:
                    r = ("the option table changed",)
                res.append(r)
            yield
            if res[0] != res[1]:
                yield "%s of %s gives %s, should give %s" % ("parse_known_args" if known else "parse_args", list(k), res[0], res[1]), {"argv": list(k), "got": res[0], "expected": res[1]}


def n_error(rng, n):
    from pykickstart.version import FC3
    for ln in (None, 0, 1, 12, 10**9):
        for msg in ("m", "", "50% x"):
            op = real().KSOptionParser(prog="p", description="", version=FC3)
            op.lineno = ln
            try:
                op.error(msg)
                r = "returned"
            except Exception as e:          # noqa: B902
                r = "" if type(e).__name__ == "KickstartParseError" and (ln is None or e.lineno == ln) and msg in str(e) else "raised %r with line %r" % (e, getattr(e, "lineno", None))
            yield
            if r:
                yield "error(%r) with line %r %s" % (msg, ln, r), {"message": msg, "lineno": ln}


def n_optional(rng, n):
    from pykickstart.version import FC3, F7
    for argv in (["--old=1"], ["--new=1"], ["--old=1", "--new=2"], ["--old", "3"], [], ["--ol=1"]):
        op = real().KSOptionParser(prog="p", description="", version=FC3)
        op.add_argument("--old", version=FC3, help="x")
        op.add_argument("--new", version=FC3, help="x")
        op.add_argument("--old", deprecated=F7)
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            try:
                ns = op.parse_args(args=argv, lineno=9)
                err = None
            except Exception as e:          # noqa: B902
                ns, err = None, e
        yield
        want = sum(1 for a in argv if a.startswith("--ol"))
        got = [w for w in ws if w.category.__name__ == "KickstartDeprecationWarning"]
        if err or len(got) != want or any("--old" not in str(w.message) or "9" not in str(w.message) for w in got):
            yield "parsing %s gives %d deprecation warnings, should give %d (%r)" % (argv, len(got), want, err), {"argv": argv}


def n_remove(rng, n):
    from pykickstart.version import FC3, F7
    for argv in (["--a=1"], ["--b=1"], ["--c"], ["-a", "1"]):
        op = real().KSOptionParser(prog="p", description="", version=FC3)
        op.add_argument("--a", version=FC3, help="x")
        op.add_argument("--b", version=FC3, help="x")
        op.add_argument("--c", action="store_true", version=FC3, help="x")
        op.remove_argument("--a", version=F7)
        try:
            op.parse_args(args=argv, lineno=9)
            r = "ok"
        except Exception as e:          # noqa: B902
            r = "rejected" if type(e).__name__ == "KickstartParseError" and e.lineno == 9 else repr(e)
        yield
        want = "ok" if argv[0] in ("--b=1", "--c") else "rejected"
        if r != want:
            yield "with --a removed %s is %s" % (argv, r), {"argv": argv}


def run(task, rec):
    thorough = os.environ.get("VERIF_TIER") == "thorough"
    rng = random.Random("C16 %s %s" % (task, os.environ.get("VERIF_SEED", "1")))
    failed = []
    try:
        if task in CONV:
            failed = p_conv(task, rec)
        elif task.startswith("Extend"):
            failed = p_action(task, rec)
        elif task == "error":
            failed = p_error(rec)
        elif task.startswith("parse_"):
            failed = p_parse(task, rec)
        elif task == "_parse_optional":
            failed = p_optional(rec)
    except Unsupported as e:
        rec.ob(task, "undecided", "outside the engine: %s" % e)
        rec.bounded_for.append("%s: %s" % (task, e))
    n = 20000 if thorough else 1500
    gen = (n_conv(task, rng, n) if task in CONV else n_actions(rng, n // 5) if task.startswith(("Extend", "parse_")) else
           n_error(rng, n) if task == "error" else n_optional(rng, n) if task == "_parse_optional" else n_remove(rng, n))
    if task == "remove_argument":
        rec.bounded_for.append("remove_argument: 4 command lines")
    confirmed = False
    for x in gen:
        rec.bounded += 1
        if x:
            rec.violation(x[0], x[1], True, x[0][:80])
            confirmed = True
            break
    rec.nontrivial += rec.bounded
    if failed and not confirmed:
        fn.unconfirmed(rec, task, failed[0])


def main():
    return runner.main("C16", tasks(), run, trusted=["specification functions /verif/ksspec/options.py"],
                       assumptions=["argparse.ArgumentParser.parse_args/parse_known_args report every error through self.error()",
                                    "os.path.normpath is a function of its argument"])
